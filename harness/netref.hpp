// Reference grammars: IP address text and domain names.
#pragma once
#include <optional>
#include <string>
#include <vector>
#include <cstdint>
using Bytes = std::vector<uint8_t>;
// ---- reference: text of an address (RFC 4291 section 2.2, dotted quads without leading zeros)
inline std::optional<Bytes> quad(const std::string& s) {
    Bytes r; size_t i = 0;
    for (int k = 0; k < 4; ++k) { if (k) { if (i >= s.size() || s[i] != '.') return {}; ++i; } size_t st = i; int v = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9' && i - st < 4) v = v * 10 + (s[i++] - '0'); if (i == st || v > 255 || (i - st > 1 && s[st] == '0')) return {}; r.push_back(uint8_t(v)); }
    return i == s.size() ? std::optional<Bytes>(r) : std::nullopt;
}
inline std::optional<Bytes> groups(const std::string& s, bool last) {   // colon-separated groups, possibly none
    Bytes r; if (s.empty()) return r; size_t i = 0;
    while (true) {
        size_t e = s.find(':', i); std::string g = s.substr(i, e == std::string::npos ? e : e - i);
        if (e == std::string::npos && last && g.find('.') != std::string::npos) { auto d = quad(g); if (!d) return {}; r.insert(r.end(), d->begin(), d->end()); return r; }
        if (g.empty() || g.size() > 4) return {}; int v = 0; for (char c : g) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return {}; v = v * 16 + d; }
        r.push_back(uint8_t(v >> 8)); r.push_back(uint8_t(v)); if (e == std::string::npos) return r; i = e + 1;
    }
}
inline std::optional<Bytes> ref_addr(const std::string& s) {
    if (auto q4 = quad(s)) return q4;
    size_t d = s.find("::");
    if (d == std::string::npos) { auto g = groups(s, true); return g && g->size() == 16 ? g : std::nullopt; }
    auto a = groups(s.substr(0, d), false), b = groups(s.substr(d + 2), true); if (!a || !b || a->size() + b->size() > 14) return {};
    Bytes r = *a; r.resize(16 - b->size(), 0); r.insert(r.end(), b->begin(), b->end()); return r;
}
// domain names: labels, dots between, optional last dot
inline bool alnum_(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_'; }
inline bool ref_name(const std::string& s, size_t n) {   // labels, dots between, optional last dot
    if (n && s[n - 1] == '.') --n; if (!n) return false; size_t st = 0;
    for (size_t i = 0; i <= n; ++i) if (i == n || s[i] == '.') { if (i == st || !alnum_(s[st]) || !alnum_(s[i - 1])) return false; for (size_t j = st; j < i; ++j) if (!alnum_(s[j]) && s[j] != '-') return false; st = i + 1; }
    return true;
}
