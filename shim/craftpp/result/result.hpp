// Offline stand-in for craftpp: value-or-error with a functional interface.
#pragma once

#include <cstdlib>
#include <functional>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>

#include <craftpp/error/error.hpp>
#include <craftpp/maybe/maybe.hpp>
#include <craftpp/types/unit.hpp>

namespace craftpp::result {

using craftpp::error::Error;
using craftpp::types::Unit;

template<typename T>
class Result;

using MaybeError = Result<Unit>;

namespace details {

template<typename T> struct IsResult : std::false_type {};
template<typename T> struct IsResult<Result<T>> : std::true_type {};
template<typename T>
inline constexpr bool is_result = IsResult<std::remove_cvref_t<T>>::value;

// Result of a continuation: a Result is passed through, a value is wrapped.
template<typename R>
struct Wrapped { using Type = Result<std::remove_cvref_t<R>>; };
template<typename R>
requires is_result<R>
struct Wrapped<R> { using Type = std::remove_cvref_t<R>; };
template<typename R>
using wrapped_t = typename Wrapped<R>::Type;

// Category an argument is passed with: forwarded where the continuation takes
// it so, otherwise as an lvalue of the (possibly temporary) source.
template<typename F, typename V>
struct ArgOf {
    using Type = std::conditional_t<std::is_invocable_v<F, V>, V, std::remove_reference_t<V>&>;
};
template<typename F, typename V>
using arg_t = typename ArgOf<F, V>::Type;

template<size_t Mask, size_t I, typename V>
using masked_t = std::conditional_t<((Mask >> I) & 1) != 0, std::remove_reference_t<V>&, V>;

template<size_t Mask, typename F, typename Seq, typename... Vs>
struct InvocableMasked;
template<size_t Mask, typename F, size_t... Is, typename... Vs>
struct InvocableMasked<Mask, F, std::index_sequence<Is...>, Vs...>
    : std::is_invocable<F, masked_t<Mask, Is, Vs>...> {};

template<size_t Mask, size_t Limit, typename F, typename... Vs>
constexpr size_t search_mask() {
    if constexpr (Mask >= Limit) {
        return 0;
    } else if constexpr (InvocableMasked<Mask, F, std::index_sequence_for<Vs...>, Vs...>::value) {
        return Mask;
    } else {
        return search_mask<Mask + 1, Limit, F, Vs...>();
    }
}

template<typename F, typename... Vs>
constexpr size_t find_mask() {
    constexpr size_t limit = size_t(1) << (sizeof...(Vs) < 8 ? sizeof...(Vs) : 8);
    constexpr size_t all = (size_t(1) << sizeof...(Vs)) - 1;
    if constexpr (std::is_invocable_v<F, Vs...>) {
        return 0;
    } else if constexpr (InvocableMasked<all, F, std::index_sequence_for<Vs...>, Vs...>::value) {
        return all;
    } else {
        return search_mask<1, limit, F, Vs...>();
    }
}

template<size_t Mask, typename F, size_t... Is, typename... Vs>
decltype(auto) invoke_masked(F&& f, std::index_sequence<Is...>, Vs&&... vs) {
    return std::invoke(std::forward<F>(f), static_cast<masked_t<Mask, Is, Vs&&>>(vs)...);
}

}

template<typename T>
class Result {
public:
    using Value = T;

    Result(const Result&) = default;
    Result(Result&&) = default;
    Result& operator=(const Result&) = default;
    Result& operator=(Result&&) = default;

    Result(const std::error_code& ec) : m_data(std::in_place_index<1>, ec) {}
    Result(const Error& e) : m_data(std::in_place_index<1>, e) {}
    Result(Error&& e) : m_data(std::in_place_index<1>, std::move(e)) {}
    Result(Error& e) : m_data(std::in_place_index<1>, e) {}

    Result(const T& v) requires std::is_copy_constructible_v<T> : m_data(std::in_place_index<0>, v) {}
    Result(T&& v) : m_data(std::in_place_index<0>, std::move(v)) {}

    template<typename U>
    requires (!details::is_result<U>
              && !std::is_same_v<std::remove_cvref_t<U>, T>
              && !std::is_same_v<std::remove_cvref_t<U>, Error>
              && !std::is_same_v<std::remove_cvref_t<U>, std::error_code>
              && std::is_convertible_v<U&&, T>)
    Result(U&& v) : m_data(std::in_place_index<0>, std::forward<U>(v)) {}

    // Value conversion between results (e.g. Result<T> to Result<Maybe<T>>).
    template<typename U>
    requires (!std::is_same_v<U, T> && std::is_convertible_v<U&&, T>)
    Result(Result<U>&& o)
        : m_data(o.is_ok()
                 ? Data(std::in_place_index<0>, std::move(o.unwrap()))
                 : Data(std::in_place_index<1>, std::move(o.unwrap_err())))
    {}
    template<typename U>
    requires (!std::is_same_v<U, T> && std::is_convertible_v<const U&, T>)
    Result(const Result<U>& o)
        : m_data(o.is_ok()
                 ? Data(std::in_place_index<0>, o.unwrap())
                 : Data(std::in_place_index<1>, o.unwrap_err()))
    {}

    bool is_ok() const noexcept { return m_data.index() == 0; }
    bool is_err() const noexcept { return m_data.index() == 1; }

    T& unwrap() & noexcept { check(0); return *std::get_if<0>(&m_data); }
    const T& unwrap() const& noexcept { check(0); return *std::get_if<0>(&m_data); }
    T&& unwrap() && noexcept { check(0); return std::move(*std::get_if<0>(&m_data)); }

    Error& unwrap_err() & noexcept { check(1); return *std::get_if<1>(&m_data); }
    const Error& unwrap_err() const& noexcept { check(1); return *std::get_if<1>(&m_data); }
    Error&& unwrap_err() && noexcept { check(1); return std::move(*std::get_if<1>(&m_data)); }

    template<typename U>
    T unwrap_or(U&& def) const& {
        return is_ok() ? unwrap() : static_cast<T>(std::forward<U>(def));
    }
    template<typename U>
    T unwrap_or(U&& def) && {
        return is_ok() ? std::move(*this).unwrap() : static_cast<T>(std::forward<U>(def));
    }
    template<typename U>
    T value_or(U&& def) const& { return unwrap_or(std::forward<U>(def)); }
    template<typename U>
    T value_or(U&& def) && { return std::move(*this).unwrap_or(std::forward<U>(def)); }
    template<typename F>
    T value_or_call(F&& f) const& {
        if (is_ok()) {
            return unwrap();
        }
        return static_cast<T>(std::invoke(std::forward<F>(f)));
    }

    craftpp::maybe::Maybe<T> ok() const& {
        using M = craftpp::maybe::Maybe<T>;
        return is_ok() ? M(unwrap()) : M(craftpp::maybe::None{});
    }

    template<typename F>
    auto fmap(F&& f) & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F>
    auto fmap(F&& f) const& { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F>
    auto fmap(F&& f) && { return do_fmap(std::move(*this), std::forward<F>(f)); }

    template<typename F>
    auto bind(F&& f) & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F>
    auto bind(F&& f) const& { return do_bind(*this, std::forward<F>(f)); }
    template<typename F>
    auto bind(F&& f) && { return do_bind(std::move(*this), std::forward<F>(f)); }

    template<typename F>
    Result bind_err(F&& f) & {
        if (is_ok()) {
            return *this;
        }
        return Result(std::invoke(std::forward<F>(f), unwrap_err()));
    }
    template<typename F>
    Result bind_err(F&& f) const& {
        if (is_ok()) {
            return *this;
        }
        return Result(std::invoke(std::forward<F>(f), unwrap_err()));
    }
    template<typename F>
    Result bind_err(F&& f) && {
        if (is_ok()) {
            return std::move(*this);
        }
        return Result(std::invoke(std::forward<F>(f), std::move(*this).unwrap_err()));
    }
    template<typename F>
    Result fmap_err(F&& f) const& { return bind_err(std::forward<F>(f)); }

    template<typename... Ts>
    Result& add_context(Ts&&... ts) & {
        if (is_err()) {
            unwrap_err().add_context(std::forward<Ts>(ts)...);
        }
        return *this;
    }
    template<typename... Ts>
    Result add_context(Ts&&... ts) && {
        if (is_err()) {
            unwrap_err().add_context(std::forward<Ts>(ts)...);
        }
        return std::move(*this);
    }
    template<typename... Ts>
    Result add_context(Ts&&... ts) const& {
        Result copy(*this);
        if (copy.is_err()) {
            copy.unwrap_err().add_context(std::forward<Ts>(ts)...);
        }
        return copy;
    }

private:
    template<typename Self, typename F>
    static auto do_fmap(Self&& self, F&& f) {
        using V = details::arg_t<F, decltype(std::forward<Self>(self).unwrap())>;
        using R = Result<std::remove_cvref_t<std::decay_t<std::invoke_result_t<F, V>>>>;
        if (self.is_err()) {
            return R(std::forward<Self>(self).unwrap_err());
        }
        return R(std::invoke(std::forward<F>(f), static_cast<V>(self.unwrap())));
    }
    template<typename Self, typename F>
    static auto do_bind(Self&& self, F&& f) {
        using V = details::arg_t<F, decltype(std::forward<Self>(self).unwrap())>;
        using R = details::wrapped_t<std::invoke_result_t<F, V>>;
        if (self.is_err()) {
            return R(std::forward<Self>(self).unwrap_err());
        }
        return R(std::invoke(std::forward<F>(f), static_cast<V>(self.unwrap())));
    }
    void check(size_t i) const noexcept {
        if (m_data.index() != i) {
            std::abort();
        }
    }
    using Data = std::variant<T, Error>;
    Data m_data;
};

inline MaybeError success() { return MaybeError(Unit::create()); }

template<typename T>
Result<std::remove_cvref_t<T>> success(T&& v) {
    return Result<std::remove_cvref_t<T>>(std::forward<T>(v));
}

template<typename T>
Result<std::remove_cvref_t<T>> return_value(T&& v) {
    return Result<std::remove_cvref_t<T>>(std::forward<T>(v));
}

// First error among the arguments in order, or success.
template<typename... Rs>
requires (details::is_result<Rs> && ...)
MaybeError any_is_err(const Rs&... rs) {
    const Error* first = nullptr;
    auto one = [&](const auto& r) {
        if (first == nullptr && r.is_err()) {
            first = &r.unwrap_err();
        }
    };
    (one(rs), ...);
    return first == nullptr ? success() : MaybeError(*first);
}

// Call f with all values, or return the first error in argument order.
template<typename F, typename... Rs>
requires (sizeof...(Rs) > 0 && (details::is_result<Rs> && ...))
auto combine(F&& f, Rs&&... rs) {
    constexpr size_t mask = details::find_mask<F, decltype(std::forward<Rs>(rs).unwrap())...>();
    using Seq = std::index_sequence_for<Rs...>;
    using R = details::wrapped_t<
        decltype(details::invoke_masked<mask>(std::forward<F>(f), Seq{}, std::forward<Rs>(rs).unwrap()...))>;
    if (auto e = any_is_err(rs...); e.is_err()) {
        return R(std::move(e).unwrap_err());
    }
    return R(details::invoke_masked<mask>(std::forward<F>(f), Seq{}, std::forward<Rs>(rs).unwrap()...));
}

}

namespace craftpp::maybe {

template<typename T>
craftpp::result::Result<T> Maybe<T>::require() const& {
    if (is_some()) {
        return craftpp::result::Result<T>(*m_value);
    }
    return craftpp::result::Result<T>(
        craftpp::error::make_error_code(craftpp::error::CoreError::value_required));
}

template<typename T>
craftpp::result::Result<T> Maybe<T>::require() && {
    if (is_some()) {
        return craftpp::result::Result<T>(std::move(*m_value));
    }
    return craftpp::result::Result<T>(
        craftpp::error::make_error_code(craftpp::error::CoreError::value_required));
}

}
