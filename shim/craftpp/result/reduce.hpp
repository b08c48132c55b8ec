// Stand-in for craftpp: fold with early stop on error.
#pragma once
#include <craftpp/detail.hpp>
namespace craftpp::result {
template<typename It, typename F> MaybeError reduce(It begin, It end, F&& f) {
    for (; begin != end; ++begin) {
        MaybeError r = std::invoke(f, *begin);
        if (r.is_err()) { return r; }
    }
    return success();
}
template<typename It, typename Init, typename F>
Result<std::decay_t<Init>> reduce(It begin, It end, Init init, F&& f) {
    std::decay_t<Init> acc(std::move(init));
    for (; begin != end; ++begin) {
        auto r = std::invoke(f, std::move(acc), *begin);
        if (r.is_err()) { return Result<std::decay_t<Init>>(r.unwrap_err()); }
        acc = std::move(r).unwrap();
    }
    return Result<std::decay_t<Init>>(std::move(acc));
}
}
