// Plays the JavaScript side of the Node bindings: makes values, calls exported
// functions and writes any value down as canonical text.
#pragma once
#include "vh.hpp"
#include "netref.hpp"
#include <craftnapi/env.hpp>
namespace js {
using craftnapi::Value; using craftnapi::Data; using craftnapi::Ref; using craftnapi::Kind; using craftnapi::Env; using craftnapi::CallbackInfo;
using Res = craftnapi::Result<Value>;
inline Value mk(Kind k) { auto d = std::make_shared<Data>(); d->kind = k; return Value(d); }
inline Value undefined() { return mk(Kind::undefined); }
inline Value null() { return mk(Kind::null); }
inline Value str(const std::string& s) { auto v = mk(Kind::string); v.data()->s = s; return v; }
inline Value num(double n) { auto v = mk(Kind::number); v.data()->n = n; return v; }
inline Value boolean(bool b) { auto v = mk(Kind::boolean); v.data()->b = b; return v; }
inline Value big(uint64_t b) { auto v = mk(Kind::bigint); v.data()->big = b; return v; }
inline Value buf(const std::vector<uint8_t>& b) { auto v = mk(Kind::buffer); v.data()->size = b.size(); v.data()->bytes.reset(new uint8_t[b.size()]); if (!b.empty()) memcpy(v.data()->bytes.get(), b.data(), b.size()); return v; }
inline std::vector<uint8_t> bytes(const Value& v) { return {v.data()->bytes.get(), v.data()->bytes.get() + v.data()->size}; }
inline void scribble(const Value& v) { for (size_t i = 0; i < v.data()->size; ++i) v.data()->bytes[i] = uint8_t(~v.data()->bytes[i] ^ 0x35); }
using Fields = std::vector<std::pair<std::string, Value>>;
inline Value obj(const Fields& f) { auto v = mk(Kind::object); for (auto& [k, x] : f) v.data()->props[k] = x.data(); return v; }
inline Value array(const std::vector<Value>& f) { auto v = mk(Kind::array); for (auto& x : f) v.data()->items.push_back(x.data()); return v; }
inline Value get(const Value& v, const std::string& k) { auto it = v.data()->props.find(k); return it == v.data()->props.end() ? undefined() : Value(it->second); }
inline CallbackInfo info(const Value& self, const std::vector<Value>& args) { CallbackInfo i; i.this_arg = self; i.args = args; return i; }
// one of each kind of value, for "anything else" arguments
inline const std::vector<Value>& kinds() { static const std::vector<Value> v{undefined(), null(), boolean(true), boolean(false), num(0), num(1), num(NAN), big(1), str(""), str("x"), obj({}), buf({}), buf({0, 1, 1}), array({}), mk(Kind::function)}; return v; }
inline const char* kind_name(const Value& v) { static const char* n[] = {"undefined", "null", "boolean", "number", "bigint", "string", "object", "buffer", "array", "function"}; return n[int(v.kind())]; }
inline std::string quote(const std::string& s) { return vh::jesc(s); }
inline std::string ip_text(const std::string& s) { auto a = ref_addr(s); return a ? "ip:" + vh::hex(*a) : quote(s); }
inline std::string number(double d) { char t[40]; snprintf(t, 40, "%.17g", d); for (char* p = t; *p; ++p) if (*p == ',') *p = '.'; return t; }
inline std::string buffer_text(const std::vector<uint8_t>& b) { return "<" + vh::hex(b) + ">"; }
// canonical text; addresses (by property name) as their bytes
inline std::string text(const Value& v, const std::string& name = "") {
    const Data& d = *v.data();
    switch (d.kind) {
    case Kind::undefined: return "undefined"; case Kind::null: return "null"; case Kind::boolean: return d.b ? "true" : "false";
    case Kind::number: return number(d.n); case Kind::bigint: return (d.big_neg ? "-" : "") + std::to_string(d.big) + "n";
    case Kind::string: return name == "addr" || name == "host" || name == "raddr" ? ip_text(d.s) : quote(d.s);
    case Kind::buffer: return buffer_text({d.bytes.get(), d.bytes.get() + d.size}); case Kind::function: return "function";
    case Kind::array: { std::string s = "["; for (auto& x : d.items) s += (s.size() > 1 ? "," : "") + text(Value(x)); return s + "]"; }
    case Kind::object: { std::string s = "{"; for (auto& [k, x] : d.props) if (x->kind != Kind::undefined) s += (s.size() > 1 ? "," : "") + k + ":" + text(Value(x), k); return s + "}"; }
    }
    return "?";
}
// the same text from a list of fields (absent: no value)
struct Text { std::map<std::string, std::string> f; Text& set(const std::string& k, const std::string& v) { f[k] = v; return *this; } std::string str() const { std::string s = "{"; for (auto& [k, v] : f) s += (s.size() > 1 ? "," : "") + k + ":" + v; return s + "}"; } };
inline std::string show(const Res& r) { if (r.is_err()) { std::error_code e = r.unwrap_err(); return "error " + e.message(); } return text(r.unwrap()); }
// an exported class
struct Class {
    Value cls; explicit Class(const Res& r) : cls(r.is_ok() ? r.unwrap() : undefined()) {}
    Res construct(Env& env, const Value& self, const std::vector<Value>& args) const { return cls.data()->ctor(env, info(self, args)); }
    Value make(Env& env, const std::vector<Value>& args, vh::Ctx& c) const { Value o = obj({}); Res r = construct(env, o, args); c.require(r.is_ok(), "constructor", [&] { return "constructing the object fails: " + show(r); }); return o; }
    bool has(const std::string& m) const { return cls.data()->methods.count(m) != 0; }
    Res call(Env& env, const Value& self, const std::string& m, const std::vector<Value>& args) const { return cls.data()->methods.at(m)(env, info(self, args)); }
};
// an error must be a real one, and say something
inline void rejected(vh::Ctx& c, const Res& r, const std::string& what) { c.require(r.is_err(), "accepted", [&] { return what + " is accepted and gives " + show(r); }); std::error_code e = r.unwrap_err(); c.require(bool(e), "no-error", [&] { return what + " is rejected without an error"; }); c.require(!e.message().empty(), "no-error-text", [&] { return what + " is rejected with an error that says nothing"; }); }
}
