// C01: points in time form a circle of 2^64 microseconds.
#include <chrono>
#include <limits>

#include "clock/clock_timepoint.hpp"
#include "pbt.hpp"

using freewebrtc::clock::Timepoint;
using D = Timepoint::Duration;

PBT_RULE("a timeline of generated steps (durations of every resolution and sign, biased to the wrap-around "
         "boundaries of 63/64 bits) is walked on Timepoint and on a 64-bit modular counter; non-trivial: two "
         "distinct points that are not antipodal are compared");

namespace {

// Generated step with its exact length in microseconds modulo 2^64.
struct Step { uint64_t us; Timepoint to; };

template<typename Dur>
Timepoint apply(Timepoint t, Dur d, bool by_advance) {
    if constexpr (Dur::period::den > 1000000) {
        return t.advance_from(d);
    } else {
        if (by_advance) {
            return t.advance(d);
        }
        auto copy = d;
        auto r = t.advance_from(copy);
        REQUIRE(copy == Dur(0), "remainder ", copy.count(), " left of a whole number of microseconds");
        return r;
    }
}

int64_t fit(pbt::Src& s, uint64_t scale) {
    // |v| * scale < 2^63
    const int64_t lim = static_cast<int64_t>(std::numeric_limits<int64_t>::max() / scale);
    const uint64_t e = s.edge(64);
    int64_t v = static_cast<int64_t>(e);
    if (v > lim || v < -lim) {
        v %= lim;
    }
    return s.flip() ? -v : v;
}

Step step(pbt::Src& s, Timepoint t) {
    const bool adv = s.flip();
    switch (s.below(7)) {
    case 0: {
        const auto e = static_cast<int64_t>(s.edge(64)); // whole range, also INT64_MIN
        return {static_cast<uint64_t>(e), apply(t, std::chrono::microseconds(e), adv)};
    }
    case 1: {
        const auto v = fit(s, 1000);
        return {static_cast<uint64_t>(v) * 1000, apply(t, std::chrono::milliseconds(v), adv)};
    }
    case 2: {
        const auto v = fit(s, 1000000);
        return {static_cast<uint64_t>(v) * 1000000, apply(t, std::chrono::seconds(v), adv)};
    }
    case 3: {
        const auto v = fit(s, 60000000);
        return {static_cast<uint64_t>(v) * 60000000, apply(t, std::chrono::duration<int64_t, std::ratio<60>>(v), adv)};
    }
    case 4: {
        const auto v = fit(s, 3600000000ull);
        return {static_cast<uint64_t>(v) * 3600000000ull,
                apply(t, std::chrono::duration<int64_t, std::ratio<3600>>(v), adv)};
    }
    case 5: {
        const auto v = static_cast<int32_t>(s.edge(32));
        return {static_cast<uint64_t>(static_cast<int64_t>(v)) * 1000,
                apply(t, std::chrono::duration<int32_t, std::milli>(v), adv)};
    }
    default: { // nanoseconds that make whole microseconds
        const auto v = static_cast<int64_t>(s.edge(53)) ;
        return {static_cast<uint64_t>(v), apply(t, std::chrono::nanoseconds(v * 1000), adv)};
    }
    }
}

void compare(pbt::Src& s, uint64_t a, Timepoint ta, uint64_t b, Timepoint tb) {
    const uint64_t diff = a - b;
    s.note("a=", a, "us b=", b, "us a-b=", static_cast<int64_t>(diff));
    REQUIRE((ta == tb) == (diff == 0), "equality of ", a, " and ", b);
    REQUIRE((ta != tb) == (diff != 0), "inequality of ", a, " and ", b);
    if (diff == uint64_t(1) << 63) {
        s.label("antipodal (unordered)");
        return; // neither before nor after on a circle: not specified
    }
    const int64_t sd = static_cast<int64_t>(diff);
    REQUIRE_EQ(ta.is_after(tb), sd > 0, "is_after with distance ", sd);
    REQUIRE_EQ(ta.is_before(tb), sd < 0, "is_before with distance ", sd);
    REQUIRE_EQ(tb.is_after(ta), sd < 0, "is_after with distance ", -sd);
    REQUIRE_EQ(tb.is_before(ta), sd > 0, "is_before with distance ", -sd);
    REQUIRE_EQ((ta - tb).count(), sd, "difference");
    REQUIRE_EQ((tb - ta).count(), -sd, "difference");
    REQUIRE(tb.advance(ta - tb) == ta, "b + (a - b) is not a");
    REQUIRE(ta.advance(tb - ta) == tb, "a + (b - a) is not b");
    auto d = ta - tb;
    REQUIRE(tb.advance_from(d) == ta, "b + (a - b) is not a");
    REQUIRE(d == D(0), "remainder");
    if (sd != 0) {
        s.nontrivial(pbt::mix(a) ^ b);
    }
    s.label(sd == 0 ? "equal" : (a > b) == (sd > 0) ? "no wrap-around between" : "wrap-around between");
}

}

PBT_TEST(walk, 300000, 6000000) {
    uint64_t at = 0;
    Timepoint t = Timepoint::epoch();
    std::vector<std::pair<uint64_t, Timepoint>> points{{at, t}};
    const auto n = 1 + s.below(6);
    for (uint64_t i = 0; i < n; ++i) {
        const auto st = step(s, t);
        at += st.us;
        t = st.to;
        s.note("step ", static_cast<int64_t>(st.us), "us to ", at);
        // The point reached does not depend on the way there.
        REQUIRE(Timepoint::epoch().advance(D(static_cast<int64_t>(at))) == t, "reached another point than ", at);
        points.emplace_back(at, t);
    }
    const auto& a = s.pick(points);
    const auto& b = s.pick(points);
    compare(s, a.first, a.second, b.first, b.second);
}

// Pairs at a chosen distance, around every power of two.
PBT_TEST(near, 300000, 6000000) {
    const uint64_t a = s.edge(64);
    const uint64_t b = a + (s.flip() ? s.edge(64) : ~s.edge(64));
    const auto e = Timepoint::epoch();
    const auto ta = e.advance(D(static_cast<int64_t>(a)));
    const auto tb = e.advance(D(static_cast<int64_t>(b)));
    compare(s, a, ta, b, tb);
}

// Order is translation invariant.
PBT_TEST(translation, 200000, 4000000) {
    const uint64_t a = s.edge(64);
    const uint64_t b = s.flip() ? a + s.below(5) - 2 : s.edge(64);
    const auto shift = D(static_cast<int64_t>(s.edge(64)));
    const auto e = Timepoint::epoch();
    const auto ta = e.advance(D(static_cast<int64_t>(a)));
    const auto tb = e.advance(D(static_cast<int64_t>(b)));
    s.note("a=", a, " b=", b, " shift=", shift.count());
    if (a - b == uint64_t(1) << 63) {
        return;
    }
    const auto sa = ta.advance(shift);
    const auto sb = tb.advance(shift);
    REQUIRE_EQ(ta.is_after(tb), sa.is_after(sb), "order changed by translation");
    REQUIRE_EQ(ta.is_before(tb), sa.is_before(sb), "order changed by translation");
    REQUIRE((ta - tb) == (sa - sb), "difference changed by translation");
    if (a != b) {
        s.nontrivial(pbt::mix(pbt::mix(a) ^ b) ^ static_cast<uint64_t>(shift.count()));
    }
}

PBT_TEST(copies, 20000, 100000) {
    const uint64_t a = s.edge(64);
    const auto t = Timepoint::epoch().advance(D(static_cast<int64_t>(a)));
    Timepoint c(t);
    Timepoint m = Timepoint::epoch();
    m = c;
    c = Timepoint::epoch();
    REQUIRE(m == t, "a copy differs");
    REQUIRE((t == Timepoint::epoch()) == (a == 0), "epoch");
    s.nontrivial(a);
}
