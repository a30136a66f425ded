// Offline stand-in for craftpp: optional value with a functional interface.
#pragma once

#include <cstdlib>
#include <functional>
#include <optional>
#include <type_traits>
#include <utility>

#include <craftpp/error/error.hpp>

namespace craftpp::result {
template<typename T> class Result;
}

namespace craftpp::maybe {

struct None {
    constexpr bool operator==(const None&) const noexcept = default;
};

constexpr None none() noexcept { return None{}; }

template<typename T>
class Maybe;

namespace details {
template<typename F, typename V>
using arg_t = std::conditional_t<std::is_invocable_v<F, V>, V, std::remove_reference_t<V>&>;
template<typename T> struct IsMaybe : std::false_type {};
template<typename T> struct IsMaybe<Maybe<T>> : std::true_type {};
}

template<typename T>
class Maybe {
public:
    using Value = T;

    Maybe() noexcept = default;
    Maybe(None) noexcept {}
    Maybe(std::nullopt_t) noexcept {}
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) = default;

    template<typename U = T>
    requires (!std::is_same_v<std::remove_cvref_t<U>, Maybe>
              && !std::is_same_v<std::remove_cvref_t<U>, None>
              && std::is_constructible_v<T, U&&>
              && std::is_convertible_v<U&&, T>)
    Maybe(U&& v) : m_value(std::in_place, std::forward<U>(v)) {}

    Maybe(const std::optional<T>& v) : m_value(v) {}
    Maybe(std::optional<T>&& v) : m_value(std::move(v)) {}

    static Maybe none() noexcept { return Maybe(None{}); }
    static Maybe move_from(T&& v) { return Maybe(std::move(v)); }
    static Maybe copy_from(const T& v) { return Maybe(v); }

    bool is_some() const noexcept { return m_value.has_value(); }
    bool is_none() const noexcept { return !m_value.has_value(); }
    bool has_value() const noexcept { return m_value.has_value(); }

    T& unwrap() & noexcept { check(); return *m_value; }
    const T& unwrap() const& noexcept { check(); return *m_value; }
    T&& unwrap() && noexcept { check(); return std::move(*m_value); }
    T& value() & noexcept { return unwrap(); }
    const T& value() const& noexcept { return unwrap(); }

    template<typename F>
    auto fmap(F&& f) & -> Maybe<std::remove_cvref_t<std::invoke_result_t<F, T&>>> {
        using R = Maybe<std::remove_cvref_t<std::invoke_result_t<F, T&>>>;
        if (is_none()) {
            return R(None{});
        }
        return R::make(std::invoke(std::forward<F>(f), *m_value));
    }
    template<typename F>
    auto fmap(F&& f) const& -> Maybe<std::remove_cvref_t<std::invoke_result_t<F, const T&>>> {
        using R = Maybe<std::remove_cvref_t<std::invoke_result_t<F, const T&>>>;
        if (is_none()) {
            return R(None{});
        }
        return R::make(std::invoke(std::forward<F>(f), *m_value));
    }
    template<typename F>
    auto fmap(F&& f) && -> Maybe<std::remove_cvref_t<std::invoke_result_t<F, details::arg_t<F, T&&>>>> {
        using R = Maybe<std::remove_cvref_t<std::invoke_result_t<F, details::arg_t<F, T&&>>>>;
        if (is_none()) {
            return R(None{});
        }
        return R::make(std::invoke(std::forward<F>(f), static_cast<details::arg_t<F, T&&>>(*m_value)));
    }

    template<typename F>
    auto bind(F&& f) & -> std::remove_cvref_t<std::invoke_result_t<F, T&>> {
        using R = std::remove_cvref_t<std::invoke_result_t<F, T&>>;
        return is_some() ? R(std::invoke(std::forward<F>(f), *m_value)) : R(None{});
    }
    template<typename F>
    auto bind(F&& f) const& -> std::remove_cvref_t<std::invoke_result_t<F, const T&>> {
        using R = std::remove_cvref_t<std::invoke_result_t<F, const T&>>;
        return is_some() ? R(std::invoke(std::forward<F>(f), *m_value)) : R(None{});
    }
    template<typename F>
    auto bind(F&& f) && -> std::remove_cvref_t<std::invoke_result_t<F, details::arg_t<F, T&&>>> {
        using R = std::remove_cvref_t<std::invoke_result_t<F, details::arg_t<F, T&&>>>;
        return is_some() ? R(std::invoke(std::forward<F>(f), static_cast<details::arg_t<F, T&&>>(*m_value))) : R(None{});
    }

    template<typename F>
    Maybe& with_inner(F&& f) & {
        if (is_some()) {
            std::invoke(std::forward<F>(f), *m_value);
        }
        return *this;
    }
    template<typename F>
    const Maybe& with_inner(F&& f) const& {
        if (is_some()) {
            std::invoke(std::forward<F>(f), *m_value);
        }
        return *this;
    }
    template<typename F>
    void with_inner(F&& f) && {
        if (is_some()) {
            std::invoke(std::forward<F>(f), static_cast<details::arg_t<F, T&&>>(*m_value));
        }
    }

    template<typename U>
    T value_or(U&& def) const& {
        return is_some() ? *m_value : static_cast<T>(std::forward<U>(def));
    }
    template<typename U>
    T value_or(U&& def) && {
        return is_some() ? std::move(*m_value) : static_cast<T>(std::forward<U>(def));
    }
    template<typename U>
    T unwrap_or(U&& def) const& { return value_or(std::forward<U>(def)); }
    template<typename U>
    T unwrap_or(U&& def) && { return std::move(*this).value_or(std::forward<U>(def)); }

    template<typename F>
    T value_or_call(F&& f) const& {
        if (is_some()) {
            return *m_value;
        }
        return static_cast<T>(std::invoke(std::forward<F>(f)));
    }
    template<typename F>
    T value_or_call(F&& f) && {
        if (is_some()) {
            return std::move(*m_value);
        }
        return static_cast<T>(std::invoke(std::forward<F>(f)));
    }

    craftpp::result::Result<T> require() const&;
    craftpp::result::Result<T> require() &&;

    friend bool operator==(const Maybe& a, const Maybe& b)
    requires requires(const T& x) { { x == x } -> std::convertible_to<bool>; }
    {
        return a.m_value == b.m_value;
    }

private:
    template<typename U>
    static Maybe make(U&& v) {
        Maybe r;
        r.m_value.emplace(std::forward<U>(v));
        return r;
    }
    template<typename> friend class Maybe;
    void check() const noexcept {
        if (!m_value.has_value()) {
            std::abort();
        }
    }
    std::optional<T> m_value;
};

template<typename T>
Maybe(T) -> Maybe<T>;

}

#include <craftpp/result/result.hpp>
