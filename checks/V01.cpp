// V01: the value types carry their value.
#include <string>
#include <unordered_map>
#include <vector>

#include "precis/precis_opaque_string.hpp"
#include "precis/precis_opaque_string_hash.hpp"
#include "rtp/rtp_clock_rate.hpp"
#include "rtp/rtp_marker.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "rtp/rtp_payload_type.hpp"
#include "rtp/rtp_sequence.hpp"
#include "rtp/rtp_ssrc.hpp"
#include "rtp/rtp_timestamp.hpp"
#include "stat/stat_counter.hpp"
#include "stun/stun_attribute_type.hpp"
#include "stun/stun_client_udp_handle.hpp"
#include "util/util_tagged_type.hpp"
#include "util/util_typed_bool.hpp"
#include "util/util_variant_overloaded.hpp"
#include "pbt.hpp"

using namespace freewebrtc;

PBT_RULE("every 8 and 16 bit value exhaustively and boundary-biased 32/64-bit values through each type, pairs of equal "
         "and of one-bit-different values, generated counter histories and payload maps; non-trivial: a pair of "
         "distinct values, a counter over one, or a map with several entries");

PBT_EXHAUSTIVE(sixteen_bits, 65536) {
    const auto v = static_cast<uint16_t>(s.below(65536));
    s.note("value ", v);
    REQUIRE_EQ(rtp::SequenceNumber::from_uint16(v).value(), v, "sequence number");
    const auto t = stun::AttributeType::from_uint16(v);
    REQUIRE_EQ(t.value(), v, "attribute type");
    REQUIRE_EQ(t.is_comprehension_required(), v < 0x8000, "comprehension of attribute type ", v);
    REQUIRE(t == stun::AttributeType::from_uint16(v), "attribute type equality");
    for (unsigned b = 0; b < 16; ++b) {
        REQUIRE(!(t == stun::AttributeType::from_uint16(static_cast<uint16_t>(v ^ (1u << b)))),
                "attribute types ", v, " and ", v ^ (1u << b), " are equal");
    }
    REQUIRE_EQ(std::hash<stun::AttributeType>()(t),
               std::hash<stun::AttributeType>()(stun::AttributeType::from_uint16(v)), "attribute type hash");
    s.nontrivial(v);
}

PBT_EXHAUSTIVE(payload_types, 256) {
    const auto v = static_cast<uint8_t>(s.below(256));
    const auto pt = rtp::PayloadType::from_uint8(v);
    s.note("payload type ", unsigned(v));
    REQUIRE_EQ(pt.is_some(), v < 128, "payload type ", unsigned(v));
    if (pt.is_some()) {
        REQUIRE_EQ(unsigned(pt.unwrap().value()), unsigned(v), "payload type");
        for (unsigned w = 0; w < 128; ++w) {
            const auto other = rtp::PayloadType::from_uint8(static_cast<uint8_t>(w)).unwrap();
            REQUIRE_EQ(pt.unwrap() == other, v == w, "payload types ", unsigned(v), " and ", w);
            if (v == w) {
                REQUIRE_EQ(std::hash<rtp::PayloadType>()(other), std::hash<rtp::PayloadType>()(pt.unwrap()), "hash");
            }
        }
        s.nontrivial(v);
    }
}

PBT_TEST(thirty_two_bits, 200000, 4000000) {
    const uint32_t a = s.u32();
    const uint32_t b = s.flip() ? a ^ (1u << s.below(32)) : s.u32();
    const uint32_t rate = s.u32();
    s.note(a, " and ", b);
    REQUIRE_EQ(rtp::SSRC::from_uint32(a).value(), a, "SSRC");
    REQUIRE_EQ(rtp::SSRC::from_uint32(a) == rtp::SSRC::from_uint32(b), a == b, "SSRC equality");
    REQUIRE_EQ(rtp::Timestamp::from_uint32(a, rtp::ClockRate(rate)).value(), a, "timestamp");
    REQUIRE_EQ(rtp::ClockRate(a).count(), a, "clock rate");
    const stun::client_udp::Handle x{a}, y{b};
    REQUIRE_EQ(x == y, a == b, "handle equality");
    if (a == b) {
        REQUIRE_EQ(stun::client_udp::HandleHash()(x), stun::client_udp::HandleHash()(y), "hash");
    }
    using T = util::TaggedType<uint32_t>;
    T t(a);
    REQUIRE_EQ(t.value, a, "tagged value");
    REQUIRE_EQ(t == T(b), a == b, "tagged equality");
    t = T::copy_from(b);
    REQUIRE_EQ(t.value, b, "tagged value");
    if (a != b) {
        s.nontrivial((uint64_t(a) << 32) | b);
    }
}

PBT_TEST(strings, 100000, 1000000) {
    auto text = [&] {
        auto v = s.bytes(s.len(40));
        return std::string(v.begin(), v.end());
    };
    const std::string a = text();
    std::string b = s.flip() ? a : text();
    if (s.flip() && !b.empty()) {
        b[s.below(b.size())] ^= static_cast<char>(1 << s.below(8));
    }
    const precis::OpaqueString x(a), y(b);
    REQUIRE_EQ(x.value, a, "opaque string");
    REQUIRE_EQ(x == y, a == b, "equality of opaque strings");
    if (a == b) {
        REQUIRE_EQ(precis::OpaqueStringHash()(x), precis::OpaqueStringHash()(y), "hash of equal strings");
    }
    std::string tmp = a;
    const auto m = precis::OpaqueString::move_from(std::move(tmp));
    const auto c = precis::OpaqueString::copy_from(a);
    REQUIRE(m == x && c == x, "made of the same text");
    precis::OpaqueString d;
    d = y;
    REQUIRE_EQ(d.value, b, "assigned");
    // as a key: every distinct text keeps its own entry
    std::unordered_map<precis::OpaqueString, int, precis::OpaqueStringHash> map;
    map.emplace(x, 1);
    map.emplace(y, 2);
    REQUIRE_EQ(map.size(), size_t(a == b ? 1 : 2), "entries");
    REQUIRE_EQ(map.at(precis::OpaqueString(a)), 1, "entry");
    REQUIRE_EQ(map.at(precis::OpaqueString(b)), a == b ? 1 : 2, "entry");
    if (a != b) {
        s.nontrivial();
    }
}

PBT_TEST(counters, 20000, 200000) {
    stat::Counter c;
    REQUIRE_EQ(c.count(), 0u, "a new counter");
    const auto n = s.len(3000);
    for (size_t i = 0; i < n; ++i) {
        REQUIRE_EQ(c.count(), unsigned(i), "count");
        c.inc();
    }
    REQUIRE_EQ(c.count(), unsigned(n), "count");
    stat::Counter copy(c);
    copy.inc();
    REQUIRE_EQ(c.count(), unsigned(n), "a copy counts on its own");
    REQUIRE_EQ(copy.count(), unsigned(n) + 1, "a copy counts on");
    if (n > 1) {
        s.nontrivial(n);
    }
}

PBT_EXHAUSTIVE(high_counts, 2) {
    stat::Counter c;
    const unsigned n = s.below(2) ? (1u << 25) + 3 : (1u << 16) + 3;
    for (unsigned i = 0; i < n; ++i) {
        c.inc();
    }
    REQUIRE_EQ(c.count(), n, "count");
    s.nontrivial();
}

PBT_TEST(flags, 1000, 10000) {
    const bool v = s.flip();
    const rtp::MarkerBit m(v);
    REQUIRE_EQ(bool(m), v, "marker");
    struct Tag;
    util::TypedBool<Tag> t(!v);
    REQUIRE_EQ(bool(t), !v, "flag");
    t = util::TypedBool<Tag>(v);
    REQUIRE_EQ(bool(t), v, "flag");
    const rtp::MarkerBit masked(s.u8() & 0x80);
    const rtp::MarkerBit copy(masked);
    REQUIRE_EQ(bool(copy), bool(masked), "copy");
    s.nontrivial();
}

PBT_TEST(payload_map, 60000, 1000000) {
    using P = rtp::PayloadMap::InitPair;
    auto pt = [&] { return rtp::PayloadType::from_uint8(static_cast<uint8_t>(s.flip() ? s.below(6) : s.below(128))).unwrap(); };
    std::map<unsigned, unsigned> model;
    auto item = [&] {
        const auto p = pt();
        const unsigned r = s.u32();
        model.emplace(p.value(), r); // the first of several entries counts
        return P{p, rtp::PayloadMapItem{rtp::ClockRate(r)}};
    };
    auto make = [&]() -> rtp::PayloadMap {
        switch (s.below(4)) {
        case 0: return rtp::PayloadMap({});
        case 1: { auto a = item(); return rtp::PayloadMap({a}); }
        case 2: { auto a = item(); auto b = item(); return rtp::PayloadMap({a, b}); }
        default: {
            auto a = item(); auto b = item(); auto c = item(); auto d = item(); auto e = item();
            return rtp::PayloadMap({a, b, c, d, e});
        }
        }
    };
    const auto m = make();
    s.note(model.size(), " entries");
    size_t dup = 0;
    for (unsigned v = 0; v < 128; ++v) {
        const auto r = m.rtp_clock_rate(rtp::PayloadType::from_uint8(static_cast<uint8_t>(v)).unwrap());
        REQUIRE_EQ(r.is_some(), model.count(v) == 1, "clock rate of payload type ", v);
        if (r.is_some() && dup == 0) {
            REQUIRE_EQ(r.unwrap().count(), model[v], "clock rate of payload type ", v);
        }
    }
    if (model.size() > 1) {
        s.nontrivial();
    }
}

PBT_TEST(visitors, 20000, 100000) {
    using V = std::variant<int, std::string, double>;
    const auto which = s.below(3);
    const V v = which == 0 ? V(1) : which == 1 ? V(std::string("x")) : V(2.0);
    const auto r = std::visit(util::overloaded{[](int) { return 0u; }, [](const std::string&) { return 1u; },
                                               [](double) { return 2u; }}, v);
    REQUIRE_EQ(uint64_t(r), which, "visited alternative");
}
