// U03: chains of results stop at the first error and hand every value on once.
#include <memory>
#include <string>
#include <vector>

#include "util/util_result.hpp"
#include "util/util_result_sugar.hpp"
#include "util/util_reduce.hpp"
#include "util/util_unit.hpp"
#include "pbt.hpp"

using namespace freewebrtc;

PBT_RULE("chains of up to 40 steps, each joined to a lvalue, a constant or a temporary result with operator >, and giving a value "
         "or a result, of the same or another type, some of them failing, are run along with a model that counts the calls; "
         "non-trivial: a chain of at least two steps with a failing one that is not the last, or of at least four without one");

namespace {

using Vec = std::vector<uint32_t>;

class Category : public std::error_category {
public:
    const char* name() const noexcept override { return "chain"; }
    std::string message(int c) const override { return "chain " + std::to_string(c); }
};

std::error_code code(int c) {
    static const Category cat;
    return {c, cat};
}

std::string pack(const Vec& v) {
    std::string t;
    for (auto x : v) {
        t += std::to_string(x) + ",";
    }
    return t;
}

Vec unpack(const std::string& t) {
    Vec v;
    size_t at = 0;
    while (at < t.size()) {
        size_t used = 0;
        v.push_back(static_cast<uint32_t>(std::stoul(t.substr(at), &used)));
        at += used + 1;
    }
    return v;
}

template<typename V>
void same(const Result<V>& r, const V& expected, int error, const char* what) {
    REQUIRE_EQ(r.is_err(), error != 0, what);
    if (error) {
        REQUIRE(r.unwrap_err() == code(error), what, ": another error");
    } else {
        REQUIRE(r.unwrap() == expected, what, ": another value");
    }
}

}

PBT_TEST(chain, 100000, 3000000) {
    Vec model;
    for (auto n = s.len(6); n > 0; --n) {
        model.push_back(s.u32());
    }
    int error = s.chance(1, 12) ? 1 + static_cast<int>(s.below(1000)) : 0;
    Result<Vec> r = error ? Result<Vec>(code(error)) : Result<Vec>(model);
    unsigned calls = 0, expected = 0, after = 0;
    const size_t n = s.len(40);
    for (size_t i = 0; i < n; ++i) {
        const uint32_t x = s.u32();
        const int fail = s.chance(1, 20) ? 1 + static_cast<int>(s.below(1000)) : 0;
        const size_t op = s.below(10);
        s.note("step ", op, fail ? " fails" : "");
        const Vec before = model;
        const int was = error;
        after += was != 0;
        expected += was == 0;
        const bool can_fail = op >= 5;
        if (!was) {
            model.push_back(x);
            error = can_fail ? fail : 0;
        }
        // the steps take whatever they are given, and what is given away for good
        auto plain = [&](auto&& v) {
            ++calls;
            Vec out = std::forward<decltype(v)>(v);
            out.push_back(x);
            return out;
        };
        auto failing = [&](auto&& v) -> Result<Vec> {
            ++calls;
            if (fail) {
                return code(fail);
            }
            Vec out = std::forward<decltype(v)>(v);
            out.push_back(x);
            return out;
        };
        switch (op) {
        case 0: { // the source stays as it was
            Result<Vec> next = r > plain;
            same(r, before, was, "the lvalue the step was joined to");
            r = std::move(next);
            break;
        }
        case 1: {
            const Result<Vec> source = r;
            Result<Vec> next = source > plain;
            same(source, before, was, "the constant the step was joined to");
            r = std::move(next);
            break;
        }
        case 2: { // a temporary hands its value on without a copy
            const uint32_t* data = r.is_ok() && !r.unwrap().empty() ? r.unwrap().data() : nullptr;
            Result<Vec> next = std::move(r) > [&](auto&& v) {
                ++calls;
                Vec out = std::forward<decltype(v)>(v);
                REQUIRE(!data || out.data() == data, "the value of a temporary is copied");
                out.push_back(x);
                return out;
            };
            r = std::move(next);
            break;
        }
        case 3: { // over another type
            Result<std::string> t = r > [&](const Vec& v) {
                ++calls;
                return pack(v);
            };
            REQUIRE_EQ(t.is_err(), was != 0, "as text");
            Result<Vec> next = std::move(t) > [&](auto&& p) {
                Vec out = unpack(p);
                out.push_back(x);
                return out;
            };
            r = std::move(next);
            break;
        }
        case 4: { // one that cannot be copied
            Result<Vec> next = (std::move(r) > [&](auto&& v) {
                ++calls;
                return std::make_unique<Vec>(std::forward<decltype(v)>(v));
            }) > [&](auto&& p) {
                p->push_back(x);
                return std::move(*p);
            };
            r = std::move(next);
            break;
        }
        case 5: {
            Result<Vec> next = r > failing;
            same(r, before, was, "the lvalue the step was joined to");
            r = std::move(next);
            break;
        }
        case 6: {
            const Result<Vec> source = r;
            Result<Vec> next = source > failing;
            same(source, before, was, "the constant the step was joined to");
            r = std::move(next);
            break;
        }
        case 7: {
            const uint32_t* data = r.is_ok() && !r.unwrap().empty() ? r.unwrap().data() : nullptr;
            Result<Vec> next = std::move(r) > [&](auto&& v) -> Result<Vec> {
                ++calls;
                if (fail) {
                    return code(fail);
                }
                Vec out = std::forward<decltype(v)>(v);
                REQUIRE(!data || out.data() == data, "the value of a temporary is copied");
                out.push_back(x);
                return out;
            };
            r = std::move(next);
            break;
        }
        case 8: { // success without a value, then a value again
            Vec kept;
            MaybeError done = r > [&](const Vec& v) -> MaybeError {
                ++calls;
                if (fail) {
                    return code(fail);
                }
                kept = v;
                return success();
            };
            REQUIRE_EQ(done.is_err(), error != 0, "without a value");
            r = std::move(done) > [&](auto&&) {
                kept.push_back(x);
                return kept;
            };
            break;
        }
        default: { // a chain within a step
            Result<Vec> next = std::move(r) > [&](auto&& v) {
                ++calls;
                Result<Vec> inner(std::forward<decltype(v)>(v));
                return std::move(inner) > [&](auto&& w) -> Result<Vec> {
                    if (fail) {
                        return code(fail);
                    }
                    Vec out = std::forward<decltype(w)>(w);
                    out.push_back(x);
                    return out;
                };
            };
            r = std::move(next);
        }
        }
        same(r, model, error, "the chain");
        REQUIRE_EQ(calls, expected, "calls of the steps");
    }
    if (error ? after > 0 && n >= 2 : n >= 4) {
        s.nontrivial();
        s.label(error ? "stopped" : "to the end");
    }
}
