// Stand-in for craftnapi's errors.
#pragma once
#include <string>
#include <system_error>
namespace craftnapi {
enum class Error { ok = 0, string_expected, number_expected, boolean_expected, object_expected, buffer_expected, wrong_type };
class ErrorCategory : public std::error_category {
public:
    const char* name() const noexcept override { return "craftnapi"; }
    std::string message(int c) const override { return "craftnapi error " + std::to_string(c); }
};
inline std::error_code make_error_code(Error e) { static const ErrorCategory c; return {int(e), c}; }
}
