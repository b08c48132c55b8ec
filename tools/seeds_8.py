# The program around the library, and properties with few planted bugs so far.
AB = 'src/abnf/abnf.hpp'; OH = 'src/crypto/openssl/openssl_hash.cpp'; CI = 'src/ice/candidate/ice_candidate_component_id.cpp'
S('u12-component-errno', 'U12', CI, [("    auto value = std::atoi(vstr.c_str());", "    auto value = std::strtol(vstr.c_str(), nullptr, 10);\n    if (errno == ERANGE) {\n        return make_error_code(Error::invalid_component_id_value);\n    }")],
'errno left at ERANGE by an earlier call of the program', 'A valid component is rejected.',
'#include "ice/candidate/ice_candidate_component_id.hpp"\n#include <cerrno>\n' + U + PRE + 'for (int e : {0, EINVAL, ERANGE}) { errno = e; auto r = ice::candidate::ComponentId::from_string("17"); CHECK(r.is_ok() && r.unwrap().value() == 17); }' + END, ICE)
S('u12-pending-errors', 'U12', OH, [("    ERR_clear_error();\n    if (EVP_DigestInit_ex", "    if (EVP_DigestInit_ex"), ("    ERR_clear_error();\n    if (EVP_DigestUpdate", "    if (EVP_DigestUpdate"), ("    ERR_clear_error();\n    if (EVP_DigestFinal_ex", "    if (EVP_DigestFinal_ex")],
'a failure of the crypto library while the program has left other errors in its queue', 'The error reported is an old one of the program.',
'#include "crypto/openssl/openssl_hash.hpp"\n#include <openssl/err.h>\n#include <openssl/evp.h>\n' + U + 'extern "C" int EVP_DigestUpdate(EVP_MD_CTX*, const void*, size_t) { ERR_raise(ERR_LIB_EVP, ERR_R_MALLOC_FAILURE); return 0; }\n' + PRE + 'uint8_t x[3] = {}; std::vector<util::ConstBinaryView> v{util::ConstBinaryView(x, 3)}; auto code = [&] { auto r = crypto::openssl::sha1(v); CHECK(r.is_err()); std::error_code e = r.unwrap_err(); return e.value(); }; ERR_clear_error(); int a = code(); ERR_clear_error(); ERR_raise(ERR_LIB_SSL, 177); ERR_raise(ERR_LIB_BN, 103); EQ(code(), a);' + END, STUN)
LOCALE = 'std::string d = "/tmp/locXXXXXX"; CHECK(mkdtemp(d.data())); struct Rm { std::string d; ~Rm() { if (d.size() > 5) (void)!system(("rm -rf \'" + d + "\'").c_str()); } } rm{d}; if (system(("localedef -c -i tr_TR -f ISO-8859-9 " + d + "/tr_TR.ISO-8859-9 >/dev/null 2>&1").c_str()) < 0) return 0; setenv("LOCPATH", d.c_str(), 1); if (!setlocale(LC_ALL, "tr_TR.ISO-8859-9")) return 0; '
S('u12-letters-of-locale', 'U12', AB, [("    return (0x41 <= c && c <= 0x5a)\n        || (0x61 <= c && c <= 0x7a);", "    return __builtin_isalpha(static_cast<unsigned char>(c)) != 0;")],
'a program that uses a Latin-1 or Turkish locale', 'Bytes above 127 are accepted as letters.',
'#include "ice/candidate/ice_candidate_foundation.hpp"\n#include <clocale>\n#include <cstdlib>\n#include <unistd.h>\n' + U + PRE + 'CHECK(ice::candidate::Foundation::from_string("ab\\xfd").is_err()); ' + LOCALE + 'CHECK(ice::candidate::Foundation::from_string("ab\\xfd").is_err()); CHECK(ice::candidate::Foundation::from_string("abz").is_ok());' + END, ICE)
S('u12-errors-uninitialised', 'U12', CC, [("    unsigned m_5xx_count = 0;", "    unsigned m_5xx_count;")],
'memory that held something else before the client used it', 'The number of server errors starts at whatever the memory contained, so the resends and the limit change.',
'#include <cstdlib>\n#include <new>\nstatic int g_fill = 0; void* operator new(size_t n) { void* p = malloc(n); memset(p, g_fill, n); return p; } void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); }\n' + PRE + 'for (int f : {0, 1, 0x7f, 0xff}) { g_fill = f; Cl c(conf(3, 2, 100 * MS)); c.create(); int n = 0; while (n < 20 && c.event() == "S") ++n; EQ(n, 3); }' + END, CLIENT, CL)
S('u12-mismatch-printed', 'U12', 'src/stun/stun_attribute_set.cpp', [("    m_map.emplace(attr_type, std::move(attr));", "    m_map.emplace(attr_type, std::move(attr));\n    if (m_map.size() > 9) {\n        std::cerr << \"too many attributes\" << std::endl;\n    }")] if False else [("    std::vector<uint32_t> attr_headers(num_attrs);\n", "    auto attr_headers = std::vector<uint32_t>(num_attrs);\n    if (num_attrs > 6) {\n        std::clog << \"stun: building a message of \" << num_attrs << \" attributes\" << std::endl;\n    }\n")],
'a message of seven or more attributes', 'The library writes to the standard error of the program.',
'#include <unistd.h>\n#include <sys/mman.h>\n#include <sys/stat.h>\n' + RUN + PRE + r'''for (int n : {1, 3, 7, 12}) { Msg m; m.tid = Bytes(12, 1); for (int i = 0; i < n; ++i) m.unknown.push_back({uint16_t(0x8100 + i), Bytes(3, 1)}); auto x = lib::message(m, true); fflush(nullptr); int fd = memfd_create("o", 0), e = dup(2), o = dup(1); dup2(fd, 2); dup2(fd, 1); auto r = x.build(none()); fflush(nullptr); dup2(e, 2); dup2(o, 1); CHECK(r.is_ok()); struct stat st; fstat(fd, &st); EQ(st.st_size, 0); }''' + END, STUN, LIB)
S('u06-counter-width', 'U06', 'src/stat/stat_counter.hpp', [("    ValueType m_value = 0;", "    uint16_t m_value = 0;"), ("namespace freewebrtc::stat {", "#include <cstdint>\n\nnamespace freewebrtc::stat {")],
'more than 65535 events', 'The counter starts again from zero.',
'#include "stat/stat_counter.hpp"\n' + U + PRE + 'stat::Counter c; for (unsigned i = 1; i < 70000; ++i) { c.inc(); if (c.count() != i) { EQ(c.count(), i); break; } }' + END)
S('u06-hash-by-type', 'U06', 'src/util/util_hash_dynamic.hpp', [("    static I instance;\n    return instance;", "    static Algorithm<T>* instance = new I;\n    static Algorithm<T>*& current = [&]() -> Algorithm<T>*& {\n        static thread_local Algorithm<T>* last = nullptr;\n        return last;\n    }();\n    current = instance;\n    return *current;")] if False else [("    : m_algo(AlgoSingleton::get())\n", "    : m_algo([]() -> Algo& {\n        // all hashes of one type are made by the algorithm that was asked for first\n        static Algo& algo = AlgoSingleton::get();\n        return algo;\n    }())\n")] if False else [("    return m_algo.hash(v);", "    static thread_local std::size_t last = 0;\n    static thread_local const Algo* by = nullptr;\n    static thread_local const T* of = nullptr;\n    if (by != &m_algo || of != &v) {\n        last = m_algo.hash(v);\n        by = &m_algo;\n        of = &v;\n    }\n    return last;")],
'two different keys one after the other in the same variable', 'The second key is given the hash of the first.',
'#include "util/util_hash_dynamic.hpp"\n' + U + 'struct A : util::hash::dynamic::Algorithm<int> { std::size_t hash(const int& v) const noexcept override { return std::size_t(v) * 3; } };\n' + PRE + 'using H = util::hash::dynamic::Hash<int>; auto h = H::create<util::hash::dynamic::AlgorithmSingleton<int, A>>(); int k; for (k = 1; k < 5; ++k) EQ(h(k), size_t(3 * k));' + END)
S('i02-foundation-last', 'I02', 'src/ice/candidate/ice_candidate_foundation.cpp', [("    for (auto c: v) {", "    for (auto c: v.substr(0, 31)) {")],
'a foundation of 32 characters whose last one is not allowed', 'It is accepted.',
'#include "ice/candidate/ice_candidate_foundation.hpp"\n' + U + PRE + 'for (size_t n = 1; n < 33; ++n) { std::string s(n, 0x61); CHECK(ice::candidate::Foundation::from_string(s).is_ok()); s.back() = 0x2d; CHECK(ice::candidate::Foundation::from_string(s).is_err()); }' + END, ICE)
S('i03-last-component', 'I03', 'src/ice/candidate/ice_candidate_preference.cpp', [("    return ComponentPreference(256 - id.value());", "    return ComponentPreference(id.value() < 256 ? 256 - id.value() : 1);")],
'component 256, the highest', 'Its preference is that of component 255.',
'#include "ice/candidate/ice_candidate_preference.hpp"\n' + U + PRE + 'using namespace ice::candidate; for (unsigned i = 1; i <= 256; ++i) EQ(ComponentPreference::recommended_for(ComponentId::from_unsigned(i).unwrap()).value(), 256 - i);' + END, ICE)
S('n01-mapped-printing', 'N01', 'src/net/ip/ip_address.cpp', [("    return std::string(result);", "    const std::string text(result);\n    return text.rfind(\"::ffff:\", 0) == 0 ? text.substr(7) : text;")],
'an IPv4-mapped IPv6 address', 'It is printed as an IPv4 address, which reads back as another address.',
'#include "net/ip/ip_address.hpp"\n' + U + PRE + 'for (auto s : {"::ffff:1.2.3.4", "::1.2.3.4", "::fffe:1:2", "1.2.3.4"}) { auto a = net::ip::Address::from_string(s).unwrap(); auto b = net::ip::Address::from_string(a.to_string().unwrap()).unwrap(); CHECK(a == b); }' + END, NET)
S('n03-wrap', 'N03', 'src/net/net_port.cpp', [("    uint32_t result = 0;", "    uint16_t result = 0;"), ("        result = 10 * result + c - '0';", "        const uint16_t next = 10 * result + c - '0';\n        if (next < result) {\n            return make_error_code(Error::invalid_port_value);\n        }\n        result = next;"), ("    if (result > 0xFFFF) {\n        return make_error_code(Error::invalid_port_value);\n    }\n", "")],
'a number of 74000 or more that wraps round to something above its first four digits, such as 99999', 'It is accepted as another port.',
'#include "net/net_port.hpp"\n' + U + PRE + 'for (int i = 0; i < 100000; ++i) { auto r = net::Port::from_string(std::to_string(i)); if (r.is_ok() != (i < 65536) || (r.is_ok() && r.unwrap().value() != i)) { EQ(i, -1); break; } }' + END, NET)
S('r03-map-bytes', 'R03', 'src/rtp/rtp_ssrc.hpp', [("    return m_value == other.m_value;", "    return uint16_t(m_value) == uint16_t(other.m_value) && (m_value ^ other.m_value) < 0x80000000;")] if False else [("    return m_value == other.m_value;", "    return static_cast<float>(m_value) == static_cast<float>(other.m_value);")],
'two sources whose identifiers differ by less than 128 in four thousand millions', 'They are taken for the same source.',
'#include "rtp/rtp_ssrc.hpp"\n' + U + PRE + 'auto s = [](uint32_t v) { return rtp::SSRC::from_uint32(v); }; CHECK(!(s(0xfffffff0) == s(0xfffffff1))); CHECK(!(s(1) == s(2))); CHECK(s(0xfffffff0) == s(0xfffffff0));' + END)
S('s08-use-candidate', 'S08', 'src/stun/stun_attribute_type.hpp', [("    return m_value <= 0x7FFF;", "    return m_value <= 0x7FFF && m_value != 0x0025;")],
'the attribute type 0x0025 (USE-CANDIDATE)', 'It is taken for an optional attribute.',
'#include "stun/stun_attribute_type.hpp"\n' + U + PRE + 'for (unsigned t = 0; t < 65536; ++t) if (stun::AttributeType::from_uint16(uint16_t(t)).is_comprehension_required() != (t < 32768)) { EQ(t, 0u); }' + END)
