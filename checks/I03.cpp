// I03: candidate priorities.
#include "ice/candidate/ice_candidate_error.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
namespace ic = ice::candidate;

PBT_RULE("preferences over their whole ranges and around the bounds; the priority is compared with the formula of RFC 8445 "
         "in 64 bits, also as text; the recommended values over all types and components; non-trivial: a priority was "
         "computed");

namespace {

ic::Type type(unsigned i) {
    switch (i) {
    case 0: return ic::Type::host();
    case 1: return ic::Type::server_reflexive();
    case 2: return ic::Type::peer_reflexive();
    default: return ic::Type::relayed();
    }
}
constexpr unsigned recommended[4] = {126, 100, 110, 0};

void priority(pbt::Src& s, const ic::TypePreference& t, const ic::LocalPreference& l, const ic::ComponentPreference& c) {
    const uint64_t want = (uint64_t(t.value()) << 24) + (uint64_t(l.value()) << 8) + c.value();
    const auto p = ic::Preference{t, l, c}.to_priority();
    s.note("type ", t.value(), " local ", l.value(), " component ", c.value());
    REQUIRE_EQ(p.is_ok(), want != 0, "priority of ", t.value(), " ", l.value(), " ", c.value());
    if (want == 0) {
        REQUIRE(p.unwrap_err().code() == make_error_code(ic::Error::invalid_priority_value), "error");
        return;
    }
    REQUIRE(want < 0x80000000ull, "formula");
    REQUIRE(p.unwrap() == ic::Priority::from_uint32(static_cast<uint32_t>(want)).unwrap(), "priority of ", t.value(), " ", l.value(), " ",
            c.value(), " is not ", want);
    REQUIRE(p.unwrap() == ic::Priority::from_string(std::to_string(want)).unwrap(), "priority from text");
    if (want > 1) {
        REQUIRE(!(p.unwrap() == ic::Priority::from_uint32(static_cast<uint32_t>(want - 1)).unwrap()), "different priorities are equal");
    }
    s.nontrivial(pbt::mix(want));
}

}

PBT_TEST(formula, 500000, 20000000) {
    const unsigned tv = s.chance(1, 4) ? s.one_of<unsigned>({0, 1, 125, 126, 127, 128, 255, 256}) : s.chance(1, 8) ? s.u32() : unsigned(s.below(127));
    const unsigned lv = s.chance(1, 4) ? s.one_of<unsigned>({0, 1, 255, 256, 65534, 65535, 65536, 65537}) : s.chance(1, 8) ? s.u32() : unsigned(s.below(65536));
    const unsigned cv = s.chance(1, 4) ? s.one_of<unsigned>({0, 1, 254, 255, 256, 257}) : s.chance(1, 8) ? s.u32() : unsigned(s.below(256));
    const auto t = ic::TypePreference::from_unsigned(tv);
    const auto l = ic::LocalPreference::from_unsigned(lv);
    const auto c = ic::ComponentPreference::from_unsigned(cv);
    REQUIRE_EQ(t.is_ok(), tv <= 126, "type preference ", tv);
    REQUIRE_EQ(l.is_ok(), lv <= 65535, "local preference ", lv);
    REQUIRE_EQ(c.is_ok(), cv <= 255, "component preference ", cv);
    if (t.is_err()) {
        REQUIRE(t.unwrap_err().code() == make_error_code(ic::Error::invalid_type_preference_value), "error of type preference ", tv);
        return;
    }
    if (l.is_err()) {
        REQUIRE(l.unwrap_err().code() == make_error_code(ic::Error::invalid_local_preference_value), "error of local preference ", lv);
        return;
    }
    if (c.is_err()) {
        REQUIRE(c.unwrap_err().code() == make_error_code(ic::Error::invalid_component_preference_value), "error of component preference ", cv);
        return;
    }
    REQUIRE_EQ(t.unwrap().value(), tv, "type preference");
    REQUIRE_EQ(l.unwrap().value(), lv, "local preference");
    REQUIRE_EQ(c.unwrap().value(), cv, "component preference");
    priority(s, t.unwrap(), l.unwrap(), c.unwrap());
}

// Recommended preferences: every type and component, with any local preference.
PBT_EXHAUSTIVE(recommended_values, 4 * 256) {
    const auto n = s.below(4 * 256);
    const unsigned i = static_cast<unsigned>(n / 256), id = static_cast<unsigned>(n % 256) + 1;
    const auto t = ic::TypePreference::recommended_for(type(i));
    REQUIRE_EQ(t.value(), recommended[i], "recommended preference of ", type(i).to_string());
    const auto c = ic::ComponentPreference::recommended_for(ic::ComponentId::from_unsigned(id).unwrap());
    REQUIRE_EQ(c.value(), 256 - id, "recommended preference of component ", id);
    for (unsigned l : {0u, 1u, 127u, 128u, 255u, 256u, 32767u, 32768u, 65534u, 65535u}) {
        priority(s, t, ic::LocalPreference::from_unsigned(l).unwrap(), c);
    }
}

// A better preference that weighs more wins whatever the lesser ones are.
PBT_TEST(order, 200000, 4000000) {
    auto draw = [&] {
        return std::array<unsigned, 3>{unsigned(s.below(127)), unsigned(s.edge(16)), unsigned(s.edge(8))};
    };
    auto a = draw(), b = draw();
    if (s.flip()) {
        b[0] = a[0];
    }
    if (s.chance(1, 3)) {
        b[1] = a[1];
    }
    auto p = [](const std::array<unsigned, 3>& x) {
        return ic::Preference{ic::TypePreference::from_unsigned(x[0]).unwrap(), ic::LocalPreference::from_unsigned(x[1]).unwrap(),
                              ic::ComponentPreference::from_unsigned(x[2]).unwrap()}.to_priority();
    };
    const auto pa = p(a), pb = p(b);
    s.note(a[0], " ", a[1], " ", a[2], " and ", b[0], " ", b[1], " ", b[2]);
    if (pa.is_err() || pb.is_err()) {
        return;
    }
    REQUIRE_EQ(pa.unwrap() == pb.unwrap(), a == b, "different preferences have the same priority");
    s.nontrivial();
}
