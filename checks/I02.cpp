// I02: the fields of ICE candidates.
#include <cstring>
#include <optional>
#include <string>

#include "abnf/abnf.hpp"
#include "ice/candidate/ice_candidate_address.hpp"
#include "ice/candidate/ice_candidate_component_id.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "ice/candidate/ice_candidate_foundation.hpp"
#include "ice/candidate/ice_candidate_priority.hpp"
#include "ice/candidate/ice_candidate_transport_type.hpp"
#include "ice/candidate/ice_candidate_type.hpp"
#include "ice_ref.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
namespace ic = ice::candidate;

PBT_RULE("texts of every field: all strings of up to three octets by enumeration, numbers around every bound in all "
         "lengths, correct texts in every letter case and with one octet changed, addresses of all kinds; verdict and value "
         "are compared with the RFC 8839 grammar; non-trivial: an accepted text, or one octet away from an accepted one");

namespace {

// A copy without terminator.
struct Exact {
    explicit Exact(const std::string& t) : v(t.begin(), t.end()) { v.shrink_to_fit(); }
    std::string_view view() const { return {v.data(), v.size()}; }
    std::vector<char> v;
};

bool all_in(const std::string& t, const char* set) {
    return std::all_of(t.begin(), t.end(), [&](char c) { return c != 0 && std::strchr(set, c) != nullptr; });
}
const char ice_chars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string lower(std::string t) {
    for (auto& c : t) {
        if (c >= 'A' && c <= 'Z') {
            c = static_cast<char>(c - 'A' + 'a');
        }
    }
    return t;
}

bool check(pbt::Src& s, const std::string& t) {
    const Exact x(t);
    bool any = false;
    { // foundation
        const bool want = !t.empty() && t.size() <= 32 && all_in(t, ice_chars);
        const auto r = ic::Foundation::from_string(x.view());
        REQUIRE_EQ(r.is_ok(), want, "foundation ", pbt::quote(t));
        if (want) {
            REQUIRE_EQ(r.unwrap().to_string(), t, "foundation");
            any = true;
        } else {
            const auto e = r.unwrap_err().code();
            REQUIRE(e == make_error_code(t.empty() || t.size() > 32 ? ic::Error::invalid_foundation_length : ic::Error::invalid_foundation_char),
                    "error ", e.message(), " for the foundation ", pbt::quote(t));
        }
    }
    const bool digits = !t.empty() && all_in(t, "0123456789");
    { // component
        const bool want = digits && t.size() <= 3;
        const auto r = ic::ComponentId::from_string(x.view());
        REQUIRE_EQ(r.is_ok(), want, "component id ", pbt::quote(t));
        if (want) {
            REQUIRE_EQ(r.unwrap().value(), unsigned(std::stoul(t)), "component id");
            any = true;
        }
    }
    { // priority
        const bool want = digits && t.size() <= 10 && std::stoull(t) != 0 && std::stoull(t) <= 0xffffffffull;
        const auto r = ic::Priority::from_string(x.view());
        REQUIRE_EQ(r.is_ok(), want, "priority ", pbt::quote(t));
        if (want) {
            const auto v = static_cast<uint32_t>(std::stoull(t));
            REQUIRE(r.unwrap() == ic::Priority::from_uint32(v).unwrap(), "priority is not ", v);
            if (v > 1) {
                REQUIRE(!(r.unwrap() == ic::Priority::from_uint32(v - 1).unwrap()), "priority is ", v, " and ", v - 1);
            }
            any = true;
        }
    }
    { // transport
        const bool want = lower(t) == "udp";
        const auto r = ic::TransportType::from_string(x.view());
        REQUIRE_EQ(r.is_ok(), want, "transport ", pbt::quote(t));
        if (want) {
            REQUIRE(r.unwrap() == ic::TransportType::udp() && r.unwrap().to_string() == "udp", "transport");
            any = true;
        } else {
            REQUIRE(r.unwrap_err() == make_error_code(ic::Error::unknown_transport_type), "error of transport ", pbt::quote(t));
        }
    }
    { // type
        const auto l = lower(t);
        std::optional<ic::Type::Value> want;
        if (l == "host") want = ic::Type::HOST;
        if (l == "srflx") want = ic::Type::SERVER_REFLEXIVE;
        if (l == "prflx") want = ic::Type::PEER_REFLEXIVE;
        if (l == "relay") want = ic::Type::RELAYED;
        const auto r = ic::Type::from_string(x.view());
        REQUIRE_EQ(r.is_ok(), want.has_value(), "type ", pbt::quote(t));
        if (want) {
            REQUIRE(r.unwrap().value() == *want && r.unwrap().to_string() == l, "type ", pbt::quote(t), " is ", r.unwrap().to_string());
            any = true;
        } else {
            REQUIRE(r.unwrap_err() == make_error_code(ic::Error::unknown_candidate_type), "error of type ", pbt::quote(t));
        }
    }
    { // address
        const auto ip = ref::ip_of(t);
        const auto r = ic::Address::from_string(x.view());
        REQUIRE_EQ(r.is_ok(), !ip.empty() || ref::fqdn_ok(t), "address ", pbt::quote(t));
        if (r.is_ok()) {
            const auto& a = r.unwrap();
            REQUIRE_EQ(a.as_ip_address().is_some(), !ip.empty(), "address ", pbt::quote(t), " is an IP address");
            REQUIRE_EQ(a.as_fqdn().is_some(), ip.empty(), "address ", pbt::quote(t), " is a name");
            if (!ip.empty()) {
                const auto view = a.as_ip_address().unwrap().get().view();
                REQUIRE(view.size() == ip.size() && std::equal(view.begin(), view.end(), ip.begin()), "octets of ", pbt::quote(t));
                const auto back = ic::Address::from_string(a.to_string().unwrap());
                REQUIRE(back.is_ok() && back.unwrap().as_ip_address().is_some()
                        && back.unwrap().as_ip_address().unwrap().get() == a.as_ip_address().unwrap().get(), "text of ", pbt::quote(t));
            } else {
                REQUIRE_EQ(a.as_fqdn().unwrap().get().to_string(), t, "name");
                REQUIRE_EQ(a.to_string().unwrap(), t, "text of a name");
            }
            any = true;
        }
    }
    return any;
}

std::string gen(pbt::Src& s) {
    switch (s.below(8)) {
    case 0: return s.str(ice_chars, s.below(35));
    case 1: { // numbers
        std::string t(s.len(4), '0');
        const uint64_t v = s.chance(1, 2) ? s.one_of<uint64_t>({0, 1, 256, 257, 999, 1000, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff,
                                                                0x100000000, 0x1ffffffff, 9999999999, 10000000000})
                                          : s.edge(36);
        return t + std::to_string(v);
    }
    case 2: {
        std::string t = s.one_of<const char*>({"udp", "host", "srflx", "prflx", "relay", "tcp"});
        for (auto& c : t) {
            if (s.flip()) {
                c = static_cast<char>(c ^ 0x20);
            }
        }
        return t;
    }
    case 3: {
        std::string t;
        for (auto n = 1 + s.len(4); n > 0; --n) {
            t += (s.chance(1, 30) ? s.filler("aZ09", s.big(600)) : s.str("aZ09-_", s.len(6))) + (n > 1 || s.chance(1, 4) ? "." : "");
        }
        return t;
    }
    case 4: {
        std::string t;
        for (unsigned i = 0; i < 4; ++i) {
            t += (i ? "." : "") + std::to_string(s.chance(1, 6) ? s.below(300) : s.below(256));
        }
        return t;
    }
    case 5: {
        char buf[INET6_ADDRSTRLEN];
        auto b = s.bytes(16);
        for (auto& c : b) {
            if (s.flip()) {
                c = 0;
            }
        }
        inet_ntop(AF_INET6, b.data(), buf, sizeof(buf));
        return buf;
    }
    case 6: {
        const auto b = s.bytes(s.len(12));
        return std::string(b.begin(), b.end());
    }
    default:
        return s.str("0123456789", s.below(13));
    }
}

}

PBT_FUZZ(fields, 400000, 10000000) {
    std::string t = gen(s);
    const bool right = check(s, t);
    if (right && s.flip() && !t.empty()) {
        const size_t i = s.below(t.size());
        switch (s.below(3)) {
        case 0: t[i] = static_cast<char>(s.below(256)); break;
        case 1: t.insert(i, 1, static_cast<char>(s.below(256))); break;
        default: t.erase(i, 1);
        }
        check(s, t);
    }
    s.note("text ", pbt::quote(t));
    if (right) {
        s.nontrivial(pbt::hash_bytes(t.data(), t.size()));
    }
}

// Every string of up to two octets.
PBT_EXHAUSTIVE(short_texts, 65536 + 256 + 1) {
    const auto n = s.below(65536 + 256 + 1);
    std::string t;
    if (n >= 257) {
        t = {static_cast<char>((n - 257) >> 8), static_cast<char>((n - 257) & 255)};
    } else if (n >= 1) {
        t = {static_cast<char>(n - 1)};
    }
    s.note("text ", pbt::quote(t));
    if (check(s, t)) {
        s.nontrivial();
    }
}

// Every three-digit component, and every number handed over as such.
PBT_EXHAUSTIVE(components, 2000) {
    const auto v = static_cast<unsigned>(s.below(2000));
    const auto r = ic::ComponentId::from_unsigned(v);
    s.note("component ", v);
    REQUIRE_EQ(r.is_ok(), v >= 1 && v <= 256, "component id ", v);
    if (r.is_ok()) {
        REQUIRE_EQ(r.unwrap().value(), v, "component id");
        REQUIRE(r.unwrap() == ic::ComponentId::from_string(std::to_string(v)).unwrap(), "component id ", v, " from text");
    }
    check(s, std::to_string(v));
    s.nontrivial();
}
PBT_TEST(component_values, 20000, 200000) {
    const auto v = s.u32();
    REQUIRE_EQ(ic::ComponentId::from_unsigned(v).is_ok(), v >= 1 && v <= 256, "component id ", v);
    REQUIRE_EQ(ic::Priority::from_uint32(v).is_ok(), v != 0, "priority ", v);
    s.note("value ", v);
    s.nontrivial();
}
