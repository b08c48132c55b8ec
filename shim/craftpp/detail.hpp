// Stand-in for craftpp: Result<V>, Maybe<T> and their combinators.
// Semantics are those exercised by the repository's own tests and sources;
// /verif/checks/selftest builds all upstream tests against it.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <optional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <craftpp/error/error.hpp>
#include <craftpp/types/unit.hpp>

namespace craftpp::maybe {
struct None { bool operator==(const None&) const noexcept { return true; } };
inline None none() noexcept { return None{}; }
template<typename T> class Maybe;
}

namespace craftpp::result {
using craftpp::error::Error;
template<typename V> class Result;
using MaybeError = Result<craftpp::types::Unit>;

namespace detail {
template<typename T> struct is_result : std::false_type {};
template<typename T> struct is_result<Result<T>> : std::true_type {};
template<typename T> inline constexpr bool is_result_v = is_result<std::remove_cvref_t<T>>::value;
template<typename T> struct is_maybe : std::false_type {};
template<typename T> struct is_maybe<craftpp::maybe::Maybe<T>> : std::true_type {};
template<typename T> inline constexpr bool is_maybe_v = is_maybe<std::remove_cvref_t<T>>::value;
template<typename T> inline constexpr bool is_error_like_v =
    std::is_same_v<std::remove_cvref_t<T>, Error> || std::is_same_v<std::remove_cvref_t<T>, std::error_code>
    || std::is_error_code_enum_v<std::remove_cvref_t<T>>;
// Callbacks that take a non-const reference are also accepted for temporaries.
template<typename F, typename Arg>
using pick_arg = std::conditional_t<std::is_invocable_v<F, Arg>, Arg, std::add_lvalue_reference_t<std::remove_reference_t<Arg>>>;
[[noreturn]] inline void bad_access(const char* what) { throw std::logic_error(what); }
// T -> Result<T>, void -> MaybeError
template<typename T> struct lift { using type = Result<std::remove_cvref_t<T>>; };
template<> struct lift<void> { using type = MaybeError; };
}

template<typename V>
class Result {
public:
    using Value = V;
    using value_type = V;

    Result(const V& v) : m_v(std::in_place_index<0>, v) {}
    Result(V&& v) : m_v(std::in_place_index<0>, std::move(v)) {}
    Result(const Error& e) : m_v(std::in_place_index<1>, e) {}
    Result(Error&& e) : m_v(std::in_place_index<1>, std::move(e)) {}
    Result(const std::error_code& e) : m_v(std::in_place_index<1>, Error(e)) {}
    template<typename U, typename = std::enable_if_t<
        !detail::is_result_v<U> && !detail::is_error_like_v<U>
        && !std::is_same_v<std::remove_cvref_t<U>, V> && std::is_convertible_v<U&&, V>>>
    Result(U&& u) : m_v(std::in_place_index<0>, static_cast<V>(std::forward<U>(u))) {}
    template<typename U, typename = std::enable_if_t<!std::is_same_v<U, V> && std::is_convertible_v<U, V>
        && !std::is_convertible_v<Result<U>&&, V>>, typename = void>
    Result(Result<U>&& r)
        : m_v(r.is_ok() ? Store(std::in_place_index<0>, std::move(r).unwrap())
                        : Store(std::in_place_index<1>, r.unwrap_err())) {}
    template<typename U, typename = std::enable_if_t<!std::is_same_v<U, V> && std::is_convertible_v<const U&, V>
        && !std::is_convertible_v<const Result<U>&, V>>, typename = void>
    Result(const Result<U>& r)
        : m_v(r.is_ok() ? Store(std::in_place_index<0>, r.unwrap())
                        : Store(std::in_place_index<1>, r.unwrap_err())) {}
    Result(const Result&) = default;
    Result(Result&&) = default;
    Result& operator=(const Result&) = default;
    Result& operator=(Result&&) = default;

    bool is_ok() const noexcept { return m_v.index() == 0; }
    bool is_err() const noexcept { return !is_ok(); }
    explicit operator bool() const noexcept { return is_ok(); }

    V& unwrap() & { need(is_ok()); return *std::get_if<0>(&m_v); }
    const V& unwrap() const& { need(is_ok()); return *std::get_if<0>(&m_v); }
    V&& unwrap() && { need(is_ok()); return std::move(*std::get_if<0>(&m_v)); }
    Error& unwrap_err() & { need(is_err()); return *std::get_if<1>(&m_v); }
    const Error& unwrap_err() const& { need(is_err()); return *std::get_if<1>(&m_v); }
    Error&& unwrap_err() && { need(is_err()); return std::move(*std::get_if<1>(&m_v)); }

    template<typename U> V unwrap_or(U&& u) const& { return is_ok() ? unwrap() : static_cast<V>(std::forward<U>(u)); }
    template<typename U> V unwrap_or(U&& u) && { return is_ok() ? std::move(unwrap()) : static_cast<V>(std::forward<U>(u)); }
    template<typename U> V value_or(U&& u) const& { return unwrap_or(std::forward<U>(u)); }
    template<typename U> V value_or(U&& u) && { return std::move(*this).unwrap_or(std::forward<U>(u)); }
    template<typename F> V value_or_call(F&& f) const& { return is_ok() ? unwrap() : static_cast<V>(f()); }
    template<typename F> V value_or_call(F&& f) && { return is_ok() ? std::move(unwrap()) : static_cast<V>(f()); }
    craftpp::maybe::Maybe<V> maybe() const&;
    craftpp::maybe::Maybe<V> maybe() &&;

    template<typename F> auto fmap(F&& f) & { return do_fmap<V&>(*this, f); }
    template<typename F> auto fmap(F&& f) const& { return do_fmap<const V&>(*this, f); }
    template<typename F> auto fmap(F&& f) && { return do_fmap<V&&>(std::move(*this), f); }
    template<typename F> auto bind(F&& f) & { return do_bind<V&>(*this, f); }
    template<typename F> auto bind(F&& f) const& { return do_bind<const V&>(*this, f); }
    template<typename F> auto bind(F&& f) && { return do_bind<V&&>(std::move(*this), f); }
    template<typename F> Result bind_err(F&& f) const& {
        if (is_ok()) { return *this; }
        return Result(f(unwrap_err()));
    }
    template<typename F> Result bind_err(F&& f) && {
        if (is_ok()) { return std::move(*this); }
        return Result(f(std::move(unwrap_err())));
    }
    template<typename F> Result fmap_err(F&& f) const& { return bind_err(std::forward<F>(f)); }
    template<typename F> Result fmap_err(F&& f) && { return std::move(*this).bind_err(std::forward<F>(f)); }
    template<typename F> Result& with_inner(F&& f) & { if (is_ok()) { f(unwrap()); } return *this; }
    template<typename F> const Result& with_inner(F&& f) const& { if (is_ok()) { f(unwrap()); } return *this; }
    template<typename F> Result with_inner(F&& f) && { if (is_ok()) { f(unwrap()); } return std::move(*this); }

    template<typename... S> Result& add_context(S&&... s) & {
        if (is_err()) { unwrap_err().add_context(std::forward<S>(s)...); }
        return *this;
    }
    template<typename... S> Result add_context(S&&... s) const& {
        Result c(*this);
        if (c.is_err()) { c.unwrap_err().add_context(std::forward<S>(s)...); }
        return c;
    }
    template<typename... S> Result add_context(S&&... s) && {
        if (is_err()) { unwrap_err().add_context(std::forward<S>(s)...); }
        return std::move(*this);
    }
private:
    using Store = std::variant<V, Error>;
    static void need(bool ok) { if (!ok) { detail::bad_access("craftpp stand-in: wrong unwrap of Result"); } }
    template<typename Arg0, typename Self, typename F>
    static auto do_fmap(Self&& self, F&& f) {
        using Arg = craftpp::result::detail::pick_arg<F&, Arg0>;
        using R = std::invoke_result_t<F, Arg>;
        using Ret = typename detail::lift<R>::type;
        if (self.is_err()) { return Ret(self.unwrap_err()); }
        if constexpr (std::is_void_v<R>) {
            std::invoke(f, static_cast<Arg>(self.unwrap()));
            return Ret(craftpp::types::Unit{});
        } else {
            return Ret(std::invoke(f, static_cast<Arg>(self.unwrap())));
        }
    }
    template<typename Arg0, typename Self, typename F>
    static auto do_bind(Self&& self, F&& f) {
        using Arg = craftpp::result::detail::pick_arg<F&, Arg0>;
        using Ret = std::remove_cvref_t<std::invoke_result_t<F, Arg>>;
        static_assert(detail::is_result_v<Ret>, "bind: function has to return Result");
        if (self.is_err()) { return Ret(self.unwrap_err()); }
        return Ret(std::invoke(f, static_cast<Arg>(self.unwrap())));
    }
    Store m_v;
};

inline MaybeError success() { return MaybeError(craftpp::types::Unit{}); }
template<typename V> Result<std::decay_t<V>> success(V&& v) { return Result<std::decay_t<V>>(std::forward<V>(v)); }
template<typename V> Result<std::decay_t<V>> return_value(V&& v) { return Result<std::decay_t<V>>(std::forward<V>(v)); }

namespace detail {
template<typename R> decltype(auto) pass(R&& r) { return std::forward<R>(r).unwrap(); }
template<typename... R> const Error* first_error(const R&... rs) {
    const Error* e = nullptr;
    ((e = (e == nullptr && rs.is_err()) ? &rs.unwrap_err() : e), ...);
    return e;
}
template<typename F, typename... A> auto apply_lifted(F& f, A&&... a) {
    using R = std::invoke_result_t<F&, A&&...>;
    if constexpr (std::is_void_v<R>) {
        std::invoke(f, std::forward<A>(a)...);
        return success();
    } else if constexpr (is_result_v<R>) {
        return std::remove_cvref_t<R>(std::invoke(f, std::forward<A>(a)...));
    } else {
        return Result<std::remove_cvref_t<R>>(std::invoke(f, std::forward<A>(a)...));
    }
}
}

// All values present: f(values...); otherwise the error of the first failed argument.
template<typename F, typename R1, typename... Rs,
         typename = std::enable_if_t<detail::is_result_v<R1> && (detail::is_result_v<Rs> && ...)>>
auto combine(F&& f, R1&& r1, Rs&&... rs) {
    if constexpr (std::is_invocable_v<F&, decltype(std::forward<R1>(r1).unwrap()), decltype(std::forward<Rs>(rs).unwrap())...>) {
        using Ret = decltype(detail::apply_lifted(f, std::forward<R1>(r1).unwrap(), std::forward<Rs>(rs).unwrap()...));
        if (const auto* e = detail::first_error(r1, rs...)) { return Ret(*e); }
        return detail::apply_lifted(f, std::forward<R1>(r1).unwrap(), std::forward<Rs>(rs).unwrap()...);
    } else {
        // A callback that takes some arguments by non-const reference.
        using Ret = decltype(detail::apply_lifted(f, r1.unwrap(), rs.unwrap()...));
        if (const auto* e = detail::first_error(r1, rs...)) { return Ret(*e); }
        return detail::apply_lifted(f, r1.unwrap(), rs.unwrap()...);
    }
}
template<typename F, typename R1, typename... Rs,
         typename = std::enable_if_t<detail::is_result_v<R1> && (detail::is_result_v<Rs> && ...)>>
auto combine_values(F&& f, R1&& r1, Rs&&... rs) { return combine(std::forward<F>(f), std::forward<R1>(r1), std::forward<Rs>(rs)...); }

// Ok(first error) when any of arguments is an error.
class AnyErr {
public:
    explicit AnyErr(const Error* e) { if (e) { m_err = *e; } }
    bool is_err() const noexcept { return m_err.has_value(); }
    bool is_ok() const noexcept { return !is_err(); }
    bool is_some() const noexcept { return is_err(); }
    bool is_none() const noexcept { return !is_err(); }
    explicit operator bool() const noexcept { return is_err(); }
    const Error& unwrap_err() const { return m_err.value(); }
    const Error& unwrap() const { return m_err.value(); }
    operator MaybeError() const { return m_err ? MaybeError(*m_err) : success(); }
private:
    std::optional<Error> m_err;
};
template<typename R1, typename... Rs, typename = std::enable_if_t<detail::is_result_v<R1>>>
AnyErr any_is_err(const R1& r1, const Rs&... rs) { return AnyErr(detail::first_error(r1, rs...)); }
template<typename R1, typename... Rs, typename = std::enable_if_t<detail::is_result_v<R1>>>
bool all_are_ok(const R1& r1, const Rs&... rs) { return r1.is_ok() && (rs.is_ok() && ...); }
}

namespace craftpp::maybe {
namespace detail {
class Category : public std::error_category {
public:
    const char* name() const noexcept override { return "craftpp maybe"; }
    std::string message(int) const override { return "value required"; }
};
inline const std::error_category& category() { static const Category c; return c; }
template<typename T> struct lift { using type = Maybe<std::remove_cvref_t<T>>; };
}

template<typename T>
class Maybe {
public:
    using Value = T;
    using value_type = T;

    Maybe() = default;
    Maybe(None) {}
    Maybe(std::nullopt_t) {}
    Maybe(const T& v) : m_v(v) {}
    Maybe(T&& v) : m_v(std::move(v)) {}
    Maybe(const std::optional<T>& v) : m_v(v) {}
    Maybe(std::optional<T>&& v) : m_v(std::move(v)) {}
    template<typename U, typename = std::enable_if_t<
        !craftpp::result::detail::is_maybe_v<U> && !std::is_same_v<std::remove_cvref_t<U>, None>
        && !std::is_same_v<std::remove_cvref_t<U>, T> && !std::is_same_v<std::remove_cvref_t<U>, std::optional<T>>
        && !std::is_same_v<std::remove_cvref_t<U>, std::nullopt_t>
        && std::is_convertible_v<U&&, T>>>
    Maybe(U&& u) : m_v(std::in_place, std::forward<U>(u)) {}
    template<typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<U, T>
        && !std::is_convertible_v<Maybe<U>&&, T>>, typename = void>
    Maybe(Maybe<U>&& o) { if (o.is_some()) { m_v.emplace(std::move(o).unwrap()); } }
    template<typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<const U&, T>
        && !std::is_convertible_v<const Maybe<U>&, T>>, typename = void>
    Maybe(const Maybe<U>& o) { if (o.is_some()) { m_v.emplace(o.unwrap()); } }
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) = default;

    static Maybe none() { return Maybe{}; }
    static Maybe some(T v) { return Maybe(std::move(v)); }
    static Maybe move_from(T&& v) { return Maybe(std::move(v)); }
    static Maybe copy_from(const T& v) { return Maybe(v); }

    bool is_some() const noexcept { return m_v.has_value(); }
    bool is_none() const noexcept { return !is_some(); }
    explicit operator bool() const noexcept { return is_some(); }

    T& unwrap() & { need(); return *m_v; }
    const T& unwrap() const& { need(); return *m_v; }
    T&& unwrap() && { need(); return std::move(*m_v); }
    template<typename U> T unwrap_or(U&& u) const& { return value_or(std::forward<U>(u)); }
    template<typename U> T value_or(U&& u) const& { return is_some() ? *m_v : static_cast<T>(std::forward<U>(u)); }
    template<typename U> T value_or(U&& u) && { return is_some() ? std::move(*m_v) : static_cast<T>(std::forward<U>(u)); }
    template<typename F> T value_or_call(F&& f) const& { return is_some() ? *m_v : static_cast<T>(f()); }
    template<typename F> T value_or_call(F&& f) && { return is_some() ? std::move(*m_v) : static_cast<T>(f()); }
    template<typename F> Maybe or_else(F&& f) const& { return is_some() ? *this : Maybe(f()); }

    template<typename F> auto fmap(F&& f) & { return do_fmap<T&>(*this, f); }
    template<typename F> auto fmap(F&& f) const& { return do_fmap<const T&>(*this, f); }
    template<typename F> auto fmap(F&& f) && { return do_fmap<T&&>(std::move(*this), f); }
    template<typename F> auto bind(F&& f) & { return do_bind<T&>(*this, f); }
    template<typename F> auto bind(F&& f) const& { return do_bind<const T&>(*this, f); }
    template<typename F> auto bind(F&& f) && { return do_bind<T&&>(std::move(*this), f); }
    template<typename F> Maybe& with_inner(F&& f) & { if (is_some()) { call<T&>(f, *m_v); } return *this; }
    template<typename F> const Maybe& with_inner(F&& f) const& { if (is_some()) { call<const T&>(f, *m_v); } return *this; }
    template<typename F> Maybe with_inner(F&& f) && { if (is_some()) { call<T&&>(f, *m_v); } return std::move(*this); }
    template<typename F> Maybe filter(F&& f) const& { return is_some() && f(*m_v) ? *this : Maybe{}; }

    craftpp::result::Result<T> require() const& {
        if (is_some()) { return craftpp::result::Result<T>(*m_v); }
        return craftpp::result::Result<T>(std::error_code(1, detail::category()));
    }
    craftpp::result::Result<T> require() && {
        if (is_some()) { return craftpp::result::Result<T>(std::move(*m_v)); }
        return craftpp::result::Result<T>(std::error_code(1, detail::category()));
    }
    template<typename E> craftpp::result::Result<T> require(E&& e) const& {
        if (is_some()) { return craftpp::result::Result<T>(*m_v); }
        return craftpp::result::Result<T>(craftpp::error::Error(std::forward<E>(e)));
    }
    template<typename E> craftpp::result::Result<T> require(E&& e) && {
        if (is_some()) { return craftpp::result::Result<T>(std::move(*m_v)); }
        return craftpp::result::Result<T>(craftpp::error::Error(std::forward<E>(e)));
    }
    void reset() noexcept { m_v.reset(); }
    template<typename... A> T& emplace(A&&... a) { return m_v.emplace(std::forward<A>(a)...); }

    friend bool operator==(const Maybe& a, const Maybe& b) requires requires(const T& t) { t == t; } { return a.m_v == b.m_v; }
private:
    void need() const { if (!m_v) { craftpp::result::detail::bad_access("craftpp stand-in: unwrap of none"); } }
    template<typename Arg, typename F> static void call(F& f, T& v) {
        if constexpr (std::is_invocable_v<F&, Arg>) { std::invoke(f, static_cast<Arg>(v)); }
        else { std::invoke(f, std::move(v)); }
    }
    template<typename Arg, typename F> static void call(F& f, const T& v) { std::invoke(f, v); }
    template<typename Arg0, typename Self, typename F>
    static auto do_fmap(Self&& self, F&& f) {
        using Arg = craftpp::result::detail::pick_arg<F&, Arg0>;
        using R = std::invoke_result_t<F, Arg>;
        if constexpr (std::is_void_v<R>) {
            using Ret = Maybe<craftpp::types::Unit>;
            if (self.is_none()) { return Ret{}; }
            std::invoke(f, static_cast<Arg>(self.unwrap()));
            return Ret(craftpp::types::Unit{});
        } else {
            using Ret = typename detail::lift<R>::type;
            if (self.is_none()) { return Ret{}; }
            return Ret(std::invoke(f, static_cast<Arg>(self.unwrap())));
        }
    }
    template<typename Arg0, typename Self, typename F>
    static auto do_bind(Self&& self, F&& f) {
        using Arg = craftpp::result::detail::pick_arg<F&, Arg0>;
        using Ret = std::remove_cvref_t<std::invoke_result_t<F, Arg>>;
        static_assert(craftpp::result::detail::is_maybe_v<Ret>, "bind: function has to return Maybe");
        if (self.is_none()) { return Ret{}; }
        return Ret(std::invoke(f, static_cast<Arg>(self.unwrap())));
    }
    std::optional<T> m_v;
};
}

namespace craftpp::result {
template<typename V> craftpp::maybe::Maybe<V> Result<V>::maybe() const& {
    return is_ok() ? craftpp::maybe::Maybe<V>(unwrap()) : craftpp::maybe::Maybe<V>{};
}
template<typename V> craftpp::maybe::Maybe<V> Result<V>::maybe() && {
    return is_ok() ? craftpp::maybe::Maybe<V>(std::move(unwrap())) : craftpp::maybe::Maybe<V>{};
}
}
