// Offline stand-in for craftpp: an error code with a stack of context notes.
#pragma once

#include <sstream>
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>

namespace craftpp::error {

class Error {
public:
    Error(const std::error_code& c) noexcept : m_code(c) {}
    template<typename E>
    requires (std::is_error_code_enum_v<E>)
    Error(E e) : m_code(e) {}

    Error(const Error&) = default;
    Error(Error&&) = default;
    Error& operator=(const Error&) = default;
    Error& operator=(Error&&) = default;

    template<typename... Ts>
    Error& add_context(Ts&&... ts) & {
        append(std::forward<Ts>(ts)...);
        return *this;
    }
    template<typename... Ts>
    Error add_context(Ts&&... ts) && {
        append(std::forward<Ts>(ts)...);
        return std::move(*this);
    }
    template<typename... Ts>
    Error add_context(Ts&&... ts) const& {
        Error copy(*this);
        copy.append(std::forward<Ts>(ts)...);
        return copy;
    }

    std::string message() const {
        std::string out;
        for (auto it = m_context.rbegin(); it != m_context.rend(); ++it) {
            out += *it;
            out += ": ";
        }
        out += m_code.message();
        return out;
    }
    const std::vector<std::string>& context() const noexcept { return m_context; }
    const std::error_code& code() const noexcept { return m_code; }
    int value() const noexcept { return m_code.value(); }
    const std::error_category& category() const noexcept { return m_code.category(); }

    friend bool operator==(const Error& a, const Error& b) noexcept { return a.m_code == b.m_code; }
    friend bool operator==(const Error& a, const std::error_code& b) noexcept { return a.m_code == b; }

private:
    template<typename... Ts>
    void append(Ts&&... ts) {
        std::ostringstream s;
        bool first = true;
        auto one = [&](auto&& v) {
            if (!first) {
                s << ' ';
            }
            first = false;
            s << v;
        };
        (one(std::forward<Ts>(ts)), ...);
        m_context.emplace_back(s.str());
    }
    std::error_code m_code;
    std::vector<std::string> m_context;
};

enum class CoreError { ok = 0, value_required = 1 };

inline const std::error_category& core_category() noexcept {
    struct Category : std::error_category {
        const char* name() const noexcept override { return "craftpp"; }
        std::string message(int c) const override {
            return c == 1 ? "value required" : c == 0 ? "success" : "unknown error";
        }
    };
    static const Category cat;
    return cat;
}

inline std::error_code make_error_code(CoreError e) noexcept {
    return std::error_code(static_cast<int>(e), core_category());
}

}
