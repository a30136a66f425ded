// C02: advancing loses no time; the converted clock does not drift.
#include <chrono>

#include "clock/clock_std.hpp"
#include "clock/clock_timepoint.hpp"
#include "pbt.hpp"

using freewebrtc::clock::ChronoClockConverter;
using freewebrtc::clock::Timepoint;
using D = Timepoint::Duration;

PBT_RULE("generated durations of sub-microsecond to hour resolution, of either sign, are moved into a timepoint and "
         "the moved part plus the remainder is compared with the original in 128-bit arithmetic; generated reading "
         "histories of clocks of several resolutions are converted; non-trivial: a remainder is left or carried");

namespace {

using I = __int128;

template<typename Dur>
I in_ns(Dur d) {
    // every resolution used here is a whole multiple or divisor of a nanosecond times 10^3
    return static_cast<I>(d.count()) * Dur::period::num * 1000000000 / Dur::period::den;
}

template<typename Dur>
void conserve(pbt::Src& s, int64_t v, uint64_t start) {
    const auto t0 = Timepoint::epoch().advance(D(static_cast<int64_t>(start)));
    Dur d(static_cast<typename Dur::rep>(v));
    const Dur before = d;
    const auto t1 = t0.advance_from(d);
    // in ticks
    const I tick_per_us_num = static_cast<I>(Dur::period::den) / 1000000; // sub-microsecond clocks
    const I moved_us = static_cast<I>((t1 - t0).count());
    if constexpr (Dur::period::den > 1000000) {
        s.note(v, " ticks of 1/", Dur::period::den, " s: moved ", static_cast<int64_t>(moved_us), "us, remainder ",
               static_cast<int64_t>(d.count()));
        REQUIRE(moved_us * tick_per_us_num + d.count() == static_cast<I>(before.count()),
                "moved ", static_cast<int64_t>(moved_us), "us and kept ", static_cast<int64_t>(d.count()),
                " ticks of ", static_cast<int64_t>(before.count()));
        const I r = d.count() < 0 ? -static_cast<I>(d.count()) : static_cast<I>(d.count());
        REQUIRE(r < tick_per_us_num, "a whole microsecond remained: ", static_cast<int64_t>(d.count()), " ticks");
        if (r != 0) {
            s.nontrivial(pbt::mix(start) ^ static_cast<uint64_t>(v));
        }
        s.label(v < 0 ? (r ? "negative, remainder" : "negative") : (r ? "positive, remainder" : "positive"));
    } else {
        const I us = static_cast<I>(v) * Dur::period::num * (1000000 / Dur::period::den);
        s.note(v, " ticks of ", Dur::period::num, "/", Dur::period::den, " s: moved ", static_cast<int64_t>(moved_us), "us");
        REQUIRE(moved_us == us, "moved ", static_cast<int64_t>(moved_us), "us, asked for ", static_cast<int64_t>(us));
        REQUIRE(d == Dur(0), "remainder ", static_cast<int64_t>(d.count()));
        REQUIRE(t0.advance(before) == t1, "advance and advance_from disagree");
    }
}

int64_t tick(pbt::Src& s, uint64_t scale) {
    const int64_t lim = static_cast<int64_t>(((uint64_t(1) << 62) - 1) / scale);
    int64_t v;
    switch (s.below(3)) {
    case 0: v = static_cast<int64_t>(s.below(5001)) - 2500; break;
    default: v = static_cast<int64_t>(s.edge(63)); break;
    }
    if (v > lim) {
        v %= lim;
    }
    return s.flip() ? -v : v;
}

}

PBT_TEST(conservation, 400000, 8000000) {
    const uint64_t start = s.edge(64);
    using std::chrono::duration;
    switch (s.below(10)) {
    case 0: conserve<std::chrono::nanoseconds>(s, tick(s, 1), start); break;
    case 1: conserve<duration<int64_t, std::ratio<1, 10000000>>>(s, tick(s, 1), start); break;
    case 2: conserve<duration<int64_t, std::pico>>(s, tick(s, 1), start); break;
    case 3: conserve<std::chrono::microseconds>(s, tick(s, 1), start); break;
    case 4: conserve<std::chrono::milliseconds>(s, tick(s, 1000), start); break;
    case 5: conserve<duration<int64_t, std::ratio<1>>>(s, tick(s, 1000000), start); break;
    case 6: conserve<duration<int64_t, std::ratio<3600>>>(s, tick(s, 3600000000ull), start); break;
    case 7: conserve<duration<int32_t, std::milli>>(s, static_cast<int32_t>(s.edge(32)), start); break;
    case 8: conserve<duration<int64_t, std::ratio<1, 100>>>(s, tick(s, 10000), start); break;
    default: conserve<std::chrono::nanoseconds>(s, static_cast<int64_t>(s.below(3000001)) - 1500000, start); break;
    }
}

// Feeding a duration in pieces, carrying the remainder, moves as far as at once.
PBT_TEST(accumulation, 200000, 3000000) {
    const auto n = 1 + s.below(30);
    const bool forward_only = s.flip();
    Timepoint t = Timepoint::epoch().advance(D(static_cast<int64_t>(s.edge(64))));
    const auto t0 = t;
    std::chrono::nanoseconds carry(0);
    I total = 0;
    bool any = false;
    for (uint64_t i = 0; i < n; ++i) {
        int64_t piece = s.flip() ? static_cast<int64_t>(s.below(3000)) : static_cast<int64_t>(s.edge(40));
        if (!forward_only && s.flip()) {
            piece = -piece;
        }
        carry += std::chrono::nanoseconds(piece);
        total += piece;
        const auto next = t.advance_from(carry);
        if (forward_only) {
            REQUIRE(!next.is_before(t), "went back");
        }
        t = next;
        any = any || carry.count() != 0;
    }
    s.note(n, " pieces, total ", static_cast<int64_t>(total), "ns, moved ", (t - t0).count(), "us, carried ", carry.count());
    REQUIRE(static_cast<I>((t - t0).count()) * 1000 + carry.count() == total, "time was lost or invented");
    REQUIRE(carry.count() > -1000 && carry.count() < 1000, "a whole microsecond was carried");
    if (any) {
        s.nontrivial();
    }
}

namespace {

// A clock whose readings the test decides.
template<typename Period>
struct FakeClock {
    using rep = int64_t;
    using period = Period;
    using duration = std::chrono::duration<rep, period>;
    using time_point = std::chrono::time_point<FakeClock>;
    static constexpr bool is_steady = true;
    static inline int64_t reading = 0;
    static time_point now() noexcept { return time_point(duration(reading)); }
};

template<typename Period>
void convert(pbt::Src& s) {
    using Clock = FakeClock<Period>;
    const bool steady = s.chance(3, 4);
    const I num = static_cast<I>(Period::num) * 1000000000000ll; // picoseconds per tick
    const I ps_per_tick = num / Period::den;
    int64_t lim = static_cast<int64_t>((static_cast<I>(1) << 62) / std::max<I>(1, ps_per_tick / 1000000));
    Clock::reading = static_cast<int64_t>(s.edge(62)) % lim;
    if (s.chance(1, 3)) {
        Clock::reading = -Clock::reading;
    }
    ChronoClockConverter<Clock> conv;
    const auto n = 1 + s.below(25);
    Timepoint prev = Timepoint::epoch();
    bool first = true;
    bool sub = false;
    const int64_t first_reading = Clock::reading;
    for (uint64_t i = 0; i < n; ++i) {
        const auto before = Clock::reading;
        int64_t step;
        switch (s.below(4)) {
        case 0: step = 0; break;
        case 1: step = static_cast<int64_t>(s.below(3000)); break;
        case 2: step = static_cast<int64_t>(s.below(20)); break;
        default: step = static_cast<int64_t>(s.edge(36)); break;
        }
        if (!steady && s.flip()) {
            step = -step;
        }
        if (before + step > lim || before + step < -lim) {
            step = 0;
        }
        Clock::reading += step;
        const auto t = conv.now();
        const I exact_ps = static_cast<I>(Clock::reading) * ps_per_tick;
        const I got_us = static_cast<I>((t - Timepoint::epoch()).count());
        const I err = got_us * 1000000 - exact_ps;
        s.note("reading ", Clock::reading, " -> ", static_cast<int64_t>(got_us), "us");
        REQUIRE(err > -1000000 && err < 1000000, "the converted time is off by a microsecond or more: reading ",
                Clock::reading, " of ", Period::num, "/", Period::den, " s gave ", static_cast<int64_t>(got_us), "us");
        if (steady && Clock::reading >= 0 && first_reading >= 0) {
            REQUIRE(err <= 0, "ahead of the clock");
        }
        if (!first && step >= 0 && first_reading >= 0 && steady) {
            REQUIRE(!t.is_before(prev), "went back");
        }
        if (!first && step == 0) {
            REQUIRE(t == prev, "the same reading gave another time");
        }
        sub = sub || err != 0;
        prev = t;
        first = false;
    }
    s.label(steady ? "steady" : "adjusted backwards");
    if (sub || ps_per_tick >= 1000000) {
        s.nontrivial();
    }
}

}

PBT_TEST(converter, 150000, 3000000) {
    switch (s.below(6)) {
    case 0: case 1: convert<std::nano>(s); break;
    case 2: convert<std::ratio<1, 10000000>>(s); break; // 100 ns
    case 3: convert<std::micro>(s); break;
    case 4: convert<std::milli>(s); break;
    default: convert<std::ratio<1>>(s); break;
    }
}

// The real steady clock: converted readings lie between readings of the clock.
PBT_TEST(steady_clock, 20000, 200000) {
    const auto a = std::chrono::steady_clock::now().time_since_epoch();
    const auto t = freewebrtc::clock::steady_clock_now();
    const auto u = freewebrtc::clock::steady_clock_now();
    const auto b = std::chrono::steady_clock::now().time_since_epoch();
    const auto lo = std::chrono::duration_cast<std::chrono::microseconds>(a).count();
    const auto hi = std::chrono::duration_cast<std::chrono::microseconds>(b).count();
    const auto x = (t - Timepoint::epoch()).count();
    const auto y = (u - Timepoint::epoch()).count();
    REQUIRE(lo <= x && x <= y && y <= hi, "not between the clock's readings: ", lo, " ", x, " ", y, " ", hi);
    s.label("reading");
}
