// Offline stand-in for craftnapi: errors of Node-API calls.
#pragma once

#include <string>
#include <system_error>

namespace craftnapi {

// Numbered as napi_status.
enum class Status {
    ok = 0, invalid_arg = 1, object_expected = 2, string_expected = 3, name_expected = 4,
    function_expected = 5, number_expected = 6, boolean_expected = 7, array_expected = 8,
    generic_failure = 9, pending_exception = 10, bigint_expected = 17
};

inline const std::error_category& napi_category() noexcept {
    struct Category : std::error_category {
        const char* name() const noexcept override { return "napi"; }
        std::string message(int c) const override { return "napi status " + std::to_string(c); }
    };
    static const Category cat;
    return cat;
}

inline std::error_code make_error_code(Status s) noexcept {
    return std::error_code(static_cast<int>(s), napi_category());
}

}

template<> struct std::is_error_code_enum<craftnapi::Status> : std::true_type {};
