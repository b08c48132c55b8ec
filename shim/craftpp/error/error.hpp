// Stand-in for craftpp: error code + context chain.
#pragma once
#include <initializer_list>
#include <ostream>
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>
namespace craftpp::error {
class Error {
public:
    Error(const std::error_code& ec) : m_code(ec) {}
    template<typename E, typename = std::enable_if_t<std::is_error_code_enum_v<E>>>
    Error(E e) : m_code(make_error_code(e)) {}
    Error(const Error&) = default;
    Error(Error&&) = default;
    Error& operator=(const Error&) = default;
    Error& operator=(Error&&) = default;

    template<typename... S> Error& add_context(S&&... s) & { push(std::forward<S>(s)...); return *this; }
    template<typename... S> Error add_context(S&&... s) && { push(std::forward<S>(s)...); return std::move(*this); }
    template<typename... S> Error add_context(S&&... s) const& { Error c(*this); c.push(std::forward<S>(s)...); return c; }

    const std::error_code& code() const noexcept { return m_code; }
    operator std::error_code() const noexcept { return m_code; }
    const std::error_category& category() const noexcept { return m_code.category(); }
    int value() const noexcept { return m_code.value(); }
    const std::vector<std::string>& context() const noexcept { return m_context; }
    std::string message() const {
        std::string out;
        for (auto it = m_context.rbegin(); it != m_context.rend(); ++it) { out += *it; out += ": "; }
        return out + m_code.message();
    }
    friend bool operator==(const Error& a, const Error& b) noexcept { return a.m_code == b.m_code; }
    friend bool operator!=(const Error& a, const Error& b) noexcept { return !(a == b); }
    friend bool operator==(const Error& a, const std::error_code& b) noexcept { return a.m_code == b; }
    friend bool operator!=(const Error& a, const std::error_code& b) noexcept { return !(a == b); }
    friend bool operator==(const std::error_code& a, const Error& b) noexcept { return a == b.m_code; }
    friend bool operator!=(const std::error_code& a, const Error& b) noexcept { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << e.message(); }
private:
    template<typename... S> void push(S&&... s) {
        std::string all;
        (all.append(std::string_view(s)), ...);
        m_context.emplace_back(std::move(all));
    }
    std::error_code m_code;
    std::vector<std::string> m_context;
};
}
