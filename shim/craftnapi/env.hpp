// Stand-in for craftnapi: JavaScript values as plain C++ data, with the API the bindings in
// /repo/node use (written from those uses, conversions as Node-API defines them).
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <typeinfo>
#include <vector>
#include <craftpp/result/result.hpp>
#include <craftpp/maybe/maybe.hpp>
#include <craftpp/binary/const_view.hpp>
#include <craftnapi/error.hpp>

namespace craftnapi {
template<typename T> using Result = craftpp::result::Result<T>;
template<typename T> using Maybe = craftpp::maybe::Maybe<T>;
using BinaryView = craftpp::binary::ConstView;

class Env; class Value; class Object; class Array; class CallbackInfo;
using Function = std::function<Result<Value>(Env&, const CallbackInfo&)>;

enum class Kind { undefined, null, boolean, number, bigint, string, object, buffer, array, function };
struct Data {
    Kind kind = Kind::undefined;
    bool b = false; double n = 0; uint64_t big = 0; bool big_neg = false; std::string s;
    std::unique_ptr<uint8_t[]> bytes; size_t size = 0;
    std::map<std::string, std::shared_ptr<Data>> props; std::vector<std::shared_ptr<Data>> items;
    std::shared_ptr<void> wrapped; const std::type_info* wrapped_type = nullptr;
    Function ctor; std::map<std::string, Function> methods;
};
using Ref = std::shared_ptr<Data>;

class Value {
public:
    Value() : m_d(std::make_shared<Data>()) {}
    explicit Value(Ref d) : m_d(std::move(d)) {}
    const Ref& data() const noexcept { return m_d; }
    Kind kind() const noexcept { return m_d->kind; }
    bool is_undefined() const noexcept { return kind() == Kind::undefined; }
    bool is_null() const noexcept { return kind() == Kind::null; }
    bool is_object() const noexcept { return kind() == Kind::object || kind() == Kind::buffer || kind() == Kind::array || kind() == Kind::function; }
    Result<std::string> as_string() const { if (kind() != Kind::string) return make_error_code(Error::string_expected); return m_d->s; }
    Result<bool> as_boolean() const { if (kind() != Kind::boolean) return make_error_code(Error::boolean_expected); return Result<bool>(m_d->b); }
    Result<int32_t> as_int32() const { if (kind() != Kind::number) return make_error_code(Error::number_expected); return Result<int32_t>(int32_t(wrap32())); }
    Result<uint32_t> as_uint32() const { if (kind() != Kind::number) return make_error_code(Error::number_expected); return Result<uint32_t>(wrap32()); }
    Result<int64_t> as_int64() const {
        if (kind() != Kind::number) return make_error_code(Error::number_expected);
        double v = m_d->n; if (!std::isfinite(v)) return Result<int64_t>(int64_t(0));
        if (v >= 9223372036854775808.0) return Result<int64_t>(INT64_MAX); if (v <= -9223372036854775808.0) return Result<int64_t>(INT64_MIN);
        return Result<int64_t>(int64_t(v));
    }
    Result<double> as_double() const { if (kind() != Kind::number) return make_error_code(Error::number_expected); return Result<double>(m_d->n); }
    Result<BinaryView> as_buffer() const { if (kind() != Kind::buffer) return make_error_code(Error::buffer_expected); return BinaryView(m_d->bytes.get(), m_d->size); }
    Result<Object> as_object() const;
    Result<Array> as_array() const;
    static Result<std::string> to_string(const Value& v) { return v.as_string(); }
    static Result<bool> to_boolean(const Value& v) { return v.as_boolean(); }
    static Result<int32_t> to_int32(const Value& v) { return v.as_int32(); }
    static Result<uint32_t> to_uint32(const Value& v) { return v.as_uint32(); }
    static Result<int64_t> to_int64(const Value& v) { return v.as_int64(); }
    static Result<double> to_double(const Value& v) { return v.as_double(); }
    static Result<BinaryView> to_buffer(const Value& v) { return v.as_buffer(); }
    static Result<Object> to_object(const Value& v);
    static Result<Array> to_array(const Value& v);
    template<typename T> Result<std::reference_wrapper<T>> unwrap() const {
        if (!m_d->wrapped) return make_error_code(Error::object_expected);
        if (*m_d->wrapped_type != typeid(T)) return make_error_code(Error::wrong_type);
        return Result<std::reference_wrapper<T>>(std::ref(*static_cast<T*>(m_d->wrapped.get())));
    }
protected:
    // ECMAScript ToInt32 / ToUint32, as napi_get_value_int32 documents
    uint32_t wrap32() const {
        double v = m_d->n; if (!std::isfinite(v)) return 0;
        double t = std::trunc(v), m = std::fmod(t, 4294967296.0); if (m < 0) m += 4294967296.0; return uint32_t(m);
    }
    Ref m_d;
};
class Object : public Value {
public:
    explicit Object(Ref d) : Value(std::move(d)) {}
    Result<Value> named_property(std::string_view name) const {
        auto it = m_d->props.find(std::string(name)); return Result<Value>(it == m_d->props.end() ? Value{} : Value(it->second));
    }
    Result<Maybe<Value>> maybe_named_property(std::string_view name) const {
        auto it = m_d->props.find(std::string(name));
        if (it == m_d->props.end() || it->second->kind == Kind::undefined) return Result<Maybe<Value>>(Maybe<Value>{});
        return Result<Maybe<Value>>(Maybe<Value>(Value(it->second)));
    }
    Result<bool> has_named_property(std::string_view name) const { return Result<bool>(m_d->props.count(std::string(name)) != 0); }
    template<typename T> Result<Value> wrap(std::unique_ptr<T>&& p) const { m_d->wrapped = std::shared_ptr<void>(std::shared_ptr<T>(std::move(p))); m_d->wrapped_type = &typeid(T); return Result<Value>(Value(m_d)); }
    Value to_value() const { return Value(m_d); }
    static Value fmap_to_value(const Object& o) { return Value(o.m_d); }
};
class Array : public Value {
public:
    explicit Array(Ref d) : Value(std::move(d)) {}
    uint32_t length() const { return uint32_t(m_d->items.size()); }
    Value to_value() const { return Value(m_d); }
    static Value fmap_to_value(const Array& o) { return Value(o.m_d); }
};
inline Result<Object> Value::as_object() const { if (!is_object()) return make_error_code(Error::object_expected); return Object(m_d); }
inline Result<Array> Value::as_array() const { if (kind() != Kind::array) return make_error_code(Error::object_expected); return Array(m_d); }
inline Result<Object> Value::to_object(const Value& v) { return v.as_object(); }
inline Result<Array> Value::to_array(const Value& v) { return v.as_array(); }

class CallbackInfo {
public:
    Value this_arg; std::vector<Value> args;
    Result<Value> operator[](size_t i) const { return Result<Value>(i < args.size() ? args[i] : Value{}); }   // missing arguments are undefined
    size_t size() const { return args.size(); }
    size_t args_count() const { return args.size(); }
};

// what may stand as the value of a property: a value, the result of making one, or nothing (the property is left out)
class PropertyValue {
public:
    PropertyValue(const Value& v) : m_v(Result<Value>(v)) {}
    PropertyValue(const Result<Value>& v) : m_v(v) {}
    PropertyValue(const Result<Object>& v) : m_v(conv(v)) {}
    PropertyValue(const Result<Array>& v) : m_v(conv(v)) {}
    PropertyValue(craftpp::maybe::None) {}
    template<typename T> PropertyValue(const Maybe<T>& v) { if (v.is_some()) { PropertyValue p(v.unwrap()); m_v = p.m_v; } }
    const Maybe<Result<Value>>& get() const { return m_v; }
private:
    template<typename T> static Result<Value> conv(const Result<T>& r) { if (r.is_err()) return Result<Value>(r.unwrap_err()); return Result<Value>(Value(r.unwrap().data())); }
    Maybe<Result<Value>> m_v;
};
struct Property { std::string name; PropertyValue value; template<typename V> Property(std::string_view n, V&& v) : name(n), value(std::forward<V>(v)) {} };
struct Method { std::string name; Function fn; template<typename F> Method(std::string_view n, F&& f) : name(n), fn(std::forward<F>(f)) {} };

class Env {
public:
    Result<Value> create_string(std::string_view s) const { auto d = mk(Kind::string); d->s = std::string(s); return Result<Value>(Value(d)); }
    Result<Value> create_int32(int32_t v) const { return number(v); }
    Result<Value> create_uint32(uint32_t v) const { return number(v); }
    Result<Value> create_int64(int64_t v) const { return number(double(v)); }
    Result<Value> create_double(double v) const { return number(v); }
    Result<Value> create_bigint_uint64(uint64_t v) const { auto d = mk(Kind::bigint); d->big = v; return Result<Value>(Value(d)); }
    Result<Value> create_bigint_int64(int64_t v) const { auto d = mk(Kind::bigint); d->big_neg = v < 0; d->big = v < 0 ? 0 - uint64_t(v) : uint64_t(v); return Result<Value>(Value(d)); }
    Result<Value> create_boolean(bool v) const { auto d = mk(Kind::boolean); d->b = v; return Result<Value>(Value(d)); }
    Result<Value> create_null() const { return Result<Value>(Value(mk(Kind::null))); }
    Result<Value> create_undefined() const { return Result<Value>(Value(mk(Kind::undefined))); }
    Result<Value> create_buffer(const BinaryView& v) const {
        auto d = mk(Kind::buffer); d->size = v.size(); d->bytes.reset(new uint8_t[v.size()]); for (size_t i = 0; i < v.size(); ++i) d->bytes[i] = v.begin()[i]; return Result<Value>(Value(d));
    }
    Result<Object> create_object() const { return Object(mk(Kind::object)); }
    Result<Object> create_object(std::initializer_list<Property> ps) const {
        auto d = mk(Kind::object);
        for (auto& p : ps) { auto& m = p.value.get(); if (m.is_none()) continue; auto& r = m.unwrap(); if (r.is_err()) return Result<Object>(r.unwrap_err()); d->props[p.name] = r.unwrap().data(); }
        return Object(d);
    }
    template<typename C, typename F> Result<Value> create_array(const C& c, F&& f) const {
        auto d = mk(Kind::array);
        for (auto& x : c) { PropertyValue p(f(x)); if (p.get().is_none()) { d->items.push_back(mk(Kind::undefined)); continue; } auto& r = p.get().unwrap(); if (r.is_err()) return Result<Value>(r.unwrap_err()); d->items.push_back(r.unwrap().data()); }
        return Result<Value>(Value(d));
    }
    Result<Value> create_function(std::string_view, Function f) const { auto d = mk(Kind::function); d->ctor = std::move(f); return Result<Value>(Value(d)); }
    Result<Value> create_class(std::string_view name, Function ctor, std::initializer_list<Method> ms) const {
        auto d = mk(Kind::function); d->s = std::string(name); d->ctor = std::move(ctor); for (auto& m : ms) d->methods[m.name] = m.fn; return Result<Value>(Value(d));
    }
private:
    static Ref mk(Kind k) { auto d = std::make_shared<Data>(); d->kind = k; return d; }
    static Result<Value> number(double v) { auto d = mk(Kind::number); d->n = v; return Result<Value>(Value(d)); }
};
}
