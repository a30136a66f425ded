// Offline stand-in for craftpp: left fold that stops at the first error.
#pragma once

#include <functional>
#include <type_traits>
#include <utility>

#include <craftpp/result/result.hpp>

namespace craftpp::result {

template<typename It, typename F>
MaybeError reduce(It begin, It end, F&& f) {
    for (; begin != end; ++begin) {
        MaybeError r(std::invoke(f, *begin));
        if (r.is_err()) {
            return r;
        }
    }
    return success();
}

template<typename It, typename Acc, typename F>
Result<std::remove_cvref_t<Acc>> reduce(It begin, It end, Acc&& init, F&& f) {
    using A = std::remove_cvref_t<Acc>;
    A acc(std::forward<Acc>(init));
    for (; begin != end; ++begin) {
        Result<A> r(std::invoke(f, std::move(acc), *begin));
        if (r.is_err()) {
            return r;
        }
        acc = std::move(r).unwrap();
    }
    return Result<A>(std::move(acc));
}

}
