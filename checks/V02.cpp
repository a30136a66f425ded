// V02: two things compare equal exactly if they say the same.
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "clock/clock_timepoint.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "ice/candidate/ice_candidate_component_id.hpp"
#include "ice/candidate/ice_candidate_foundation.hpp"
#include "ice/candidate/ice_candidate_priority.hpp"
#include "ice/candidate/ice_candidate_transport_type.hpp"
#include "ice/candidate/ice_candidate_type.hpp"
#include "net/ip/ip_address.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_path.hpp"
#include "net/net_port.hpp"
#include "stun/stun_address.hpp"
#include "stun/stun_attribute.hpp"
#include "stun/stun_class.hpp"
#include "stun/stun_method.hpp"
#include "stun/stun_password.hpp"
#include "stun/stun_transaction_id.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
namespace ip = net::ip;

PBT_RULE("pairs of addresses, xored addresses, ports, paths, names, transaction ids, methods, classes, error codes, "
         "passwords, candidate fields and timepoints, made separately from equal contents or from contents which differ "
         "in one bit, octet, character or component (at every position); non-trivial: the two contents differ");

namespace {

// a and b were made separately; `same` is what the oracle says of their contents
template<typename T>
void compare(const char *what, const T& a, const T& b, bool same) {
    REQUIRE_EQ(a == b, same, what, ": first compared with second");
    REQUIRE_EQ(b == a, same, what, ": second compared with first");
    REQUIRE_EQ(a != b, !same, what, ": unequal");
    REQUIRE(a == a && b == b, what, ": each is equal to itself");
    T copy(a);
    REQUIRE(copy == a, what, ": a copy is equal");
    REQUIRE_EQ(copy == b, same, what, ": a copy compared with second");
    if constexpr (std::is_copy_assignable_v<T>) {
        copy = b;
        REQUIRE(copy == b, what, ": assigned is equal");
        REQUIRE_EQ(copy == a, same, what, ": the first after its copy was assigned to");
        copy = a;
        T moved(std::move(copy));
        REQUIRE(moved == a, what, ": moved is equal");
        REQUIRE_EQ(moved == b, same, what, ": moved compared with second");
    }
}

using V4 = std::array<uint8_t, 4>;
using V6 = std::array<uint8_t, 16>;

struct Addr {
    bool v6;
    std::vector<uint8_t> octets;
    bool operator==(const Addr&) const = default;
};

ip::Address make(const Addr& a) {
    util::ConstBinaryView v(a.octets);
    if (a.v6) {
        return ip::Address(ip::AddressV6::from_view(v).unwrap());
    }
    return ip::Address(ip::AddressV4::from_view(v).unwrap());
}

Addr any_addr(pbt::Src& s) {
    const bool v6 = s.flip();
    auto o = s.bytes(v6 ? 16 : 4);
    if (v6 && s.chance(1, 4)) {
        // the IPv6 form of an IPv4 address
        std::fill(o.begin(), o.begin() + 10, uint8_t(0));
        o[10] = o[11] = 0xff;
    }
    return {v6, o};
}

// the same, or different in one place
std::vector<uint8_t> vary(pbt::Src& s, std::vector<uint8_t> o) {
    if (o.empty() || s.chance(1, 4)) {
        return o;
    }
    switch (s.below(3)) {
        case 0: o[s.below(o.size())] ^= static_cast<uint8_t>(1u << s.below(8)); break;
        case 1: o[s.below(o.size())] = s.u8(); break;
        case 2: std::swap(o[s.below(o.size())], o[s.below(o.size())]); break;
    }
    return o;
}

Addr vary(pbt::Src& s, const Addr& a) {
    switch (s.weighted({6, 1, 1})) {
        case 0: return {a.v6, vary(s, a.octets)};
        case 1: {   // the other family, the same octets as far as they go
            std::vector<uint8_t> o = a.octets;
            if (a.v6) {
                o.erase(o.begin(), o.begin() + (s.flip() ? 12 : 0));
                o.resize(4);
            } else if (s.flip()) {
                o.insert(o.begin(), {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff});
            } else {
                o.resize(16, 0);
            }
            return {!a.v6, o};
        }
        default: return any_addr(s);
    }
}

std::string show(const Addr& a) {
    std::string r = a.v6 ? "v6" : "v4";
    for (auto b: a.octets) {
        r += "." + std::to_string(b);
    }
    return r;
}

stun::TransactionId tid(const std::vector<uint8_t>& v) {
    return stun::TransactionId(util::ConstBinaryView(v));
}

}

PBT_TEST(addresses, 60000, 1000000) {
    const Addr a = any_addr(s), b = vary(s, a);
    s.note(show(a), " and ", show(b));
    compare("address", make(a), make(b), a == b);
    const auto x = make(a);
    REQUIRE(std::vector<uint8_t>(x.view().begin(), x.view().end()) == a.octets, "octets of the address");
    REQUIRE_EQ(x.value().index(), size_t(a.v6 ? 1 : 0), "family of the address");
    if (!a.v6 && !b.v6) {
        const auto p = ip::AddressV4::from_view(util::ConstBinaryView(a.octets)).unwrap();
        const auto q = ip::AddressV4::from_view(util::ConstBinaryView(b.octets)).unwrap();
        compare("IPv4 address", p, q, a == b);
        REQUIRE(ip::Address::copy_from_v4(p) == x, "copied from");
        auto t = p;
        REQUIRE(ip::Address::move_from_v4(std::move(t)) == x, "moved from");
    }
    if (a.v6 && b.v6) {
        const auto p = ip::AddressV6::from_view(util::ConstBinaryView(a.octets)).unwrap();
        const auto q = ip::AddressV6::from_view(util::ConstBinaryView(b.octets)).unwrap();
        compare("IPv6 address", p, q, a == b);
        REQUIRE(ip::Address::copy_from_v6(p) == x, "copied from");
        auto t = p;
        REQUIRE(ip::Address::move_from_v6(std::move(t)) == x, "moved from");
    }
    // the same address under the same transaction id
    const auto id = s.bytes(12);
    const auto xa = stun::XoredAddress::from_address(make(a), tid(id));
    const auto xb = stun::XoredAddress::from_address(make(b), tid(id));
    compare("xored address", xa, xb, a == b);
    REQUIRE(xa.to_address(tid(id)) == x, "address of the xored address");
    // under another transaction id an IPv6 address says something else and an IPv4 address the same
    const auto id2 = vary(s, id);
    compare("xored address under two ids", xa, stun::XoredAddress::from_address(make(a), tid(id2)), !a.v6 || id == id2);
    const uint16_t pa = s.u16();
    const uint16_t pb = s.flip() ? pa : s.flip() ? static_cast<uint16_t>(pa ^ (1u << s.below(16))) : s.u16();
    compare("port", net::Port::from_uint16(pa), net::Port(pb), pa == pb);
    REQUIRE_EQ(net::Port(pa).value(), pa, "port");
    compare("xor mapped address", stun::XorMappedAddressAttribute{xa, net::Port(pa)},
            stun::XorMappedAddressAttribute{xb, net::Port(pb)}, a == b && pa == pb);
    if (!(a == b)) {
        s.nontrivial();
    }
}

PBT_TEST(paths, 60000, 1000000) {
    const Addr a = any_addr(s), b = s.flip() ? any_addr(s) : vary(s, a);
    const bool swap = s.chance(1, 4);
    const Addr c = swap ? b : s.flip() ? a : vary(s, a);
    const Addr d = swap ? a : s.flip() ? b : vary(s, b);
    s.note(show(a), " > ", show(b), " and ", show(c), " > ", show(d));
    compare("path", net::Path{make(a), make(b)}, net::Path{make(c), make(d)}, a == c && b == d);
    if (!(a == c && b == d)) {
        s.nontrivial();
    }
}

PBT_TEST(transaction_ids, 60000, 1000000) {
    const auto a = s.bytes(s.flip() ? 12 : 16);
    auto b = vary(s, a);
    if (s.chance(1, 6)) {
        b.resize(b.size() == 12 ? 16 : 12, 0);   // an id of the other length with the same start
    }
    s.note("octets ", a.size(), " and ", b.size());
    compare("transaction id", tid(a), tid(b), a == b);
    const auto x = tid(a);
    REQUIRE(std::vector<uint8_t>(x.view().begin(), x.view().end()) == a, "octets of the id");
    static thread_local size_t seed;
    struct Rnd {
        size_t operator()() { return seed; }
    };
    seed = s.u64();
    const stun::MurmurTransactionIdHash<Rnd> h;
    const stun::TransactionIdHash plain = stun::MurmurTransactionIdHash<>::create();
    const auto copy = x;
    REQUIRE_EQ(h.hash(x), h.hash(tid(a)), "hash of equal ids");
    REQUIRE_EQ(h.hash(copy), h.hash(x), "hash of a copy");
    REQUIRE_EQ(plain(x), plain(tid(a)), "hash of equal ids");
    REQUIRE_EQ(plain(copy), plain(x), "hash of a copy");
    if (a != b) {
        s.nontrivial();
    }
}

PBT_EXHAUSTIVE(methods_and_classes, 16384) {
    // every message type against those which differ in one bit, and against another
    const auto v = static_cast<uint16_t>(s.below(16384));
    s.note("message type ", v);
    auto method_bits = [](uint16_t w) { return w & 0x3eef; };
    auto class_bits = [](uint16_t w) { return w & 0x0110; };
    for (unsigned b = 0; b <= 14; ++b) {
        const auto w = static_cast<uint16_t>(b == 14 ? v ^ 0x3fff : v ^ (1u << b));
        compare("method", stun::Method::from_msg_type(v), stun::Method::from_msg_type(w), method_bits(v) == method_bits(w));
        compare("class", stun::Class::from_msg_type(v), stun::Class::from_msg_type(w), class_bits(v) == class_bits(w));
    }
    compare("method", stun::Method::from_msg_type(v), stun::Method::from_msg_type(v), true);
    compare("binding", stun::Method::from_msg_type(v), stun::Method::binding(), method_bits(v) == 1);
    compare("request", stun::Class::from_msg_type(v), stun::Class::request(), class_bits(v) == 0);
    compare("indication", stun::Class::from_msg_type(v), stun::Class::indication(), class_bits(v) == 0x10);
    compare("success", stun::Class::from_msg_type(v), stun::Class::success_response(), class_bits(v) == 0x100);
    compare("error", stun::Class::from_msg_type(v), stun::Class::error_response(), class_bits(v) == 0x110);
    s.nontrivial(v);
}

PBT_EXHAUSTIVE(error_codes, 700 * 5) {
    // The code decides, the phrase is for humans: RFC 8489, 14.8
    const auto i = s.below(700 * 5);
    const unsigned a = static_cast<unsigned>(i / 5);
    const unsigned others[] = {a, a + 1, a >= 100 ? a - 100 : a + 100, a ^ 64, (a * 7 + 3) % 700};
    const unsigned b = others[i % 5];
    const Maybe<std::string> phrases[] = {none(), std::string(), std::string("Try again"), std::string("Bad request")};
    s.note("codes ", a, " and ", b);
    for (const auto& p: phrases) {
        for (const auto& q: phrases) {
            compare("error code", stun::ErrorCodeAttribute{a, p}, stun::ErrorCodeAttribute{b, q}, a == b);
        }
    }
    if (a != b) {
        s.nontrivial(i);
    }
}

PBT_TEST(passwords, 3000, 60000) {
    const crypto::SHA1Hash::Func h = crypto::openssl::sha1;
    // up to 64 octets a password is its own key
    const auto a = s.filler("abcdefghijklmnopqrstuvwxyz0123456789", s.len(64));
    std::string b = a;
    switch (s.below(4)) {
        case 0: break;
        case 1: if (!b.empty()) { auto& c = b[s.below(b.size())]; c = c == 'z' ? 'y' : 'z'; } break;
        case 2: if (!b.empty()) { b.pop_back(); } break;
        case 3: if (b.size() < 64) { b += 'x'; } break;
    }
    s.note(a, " and ", b);
    compare("password", stun::Password::short_term(precis::OpaqueString(a), h).unwrap(),
            stun::Password::short_term(precis::OpaqueString(b), h).unwrap(), a == b);
    if (a != b) {
        s.nontrivial();
    }
}

PBT_TEST(names, 60000, 1000000) {
    auto label = [&] { return s.str("abcxyz019", 1 + s.len(8)); };
    std::string a = "h";
    for (size_t i = 0, n = s.len(4); i < n; ++i) {
        a += label() + ".";
    }
    a += "a" + label();
    std::string b = a;
    switch (s.below(5)) {
        case 0: break;
        case 1: { auto& c = b[s.below(b.size())]; if (c != '.') { c = c == 'q' ? 'r' : 'q'; } break; }
        case 2: b += s.flip() ? "a" : ".a"; break;
        case 3: b = "w" + b; break;
        case 4: b = "h." + b; break;
    }
    s.note(a, " and ", b);
    const auto x = net::Fqdn::from_string(a), y = net::Fqdn::from_string(b);
    REQUIRE(x.is_ok() && y.is_ok(), "names are accepted");
    compare("domain name", x.unwrap(), y.unwrap(), a == b);
    if (a != b) {
        s.nontrivial();
    }
}

PBT_TEST(candidate_fields, 60000, 1000000) {
    const auto fa = s.str("abzAZ059+/", 1 + s.below(32));
    std::string fb = fa;
    switch (s.below(5)) {
        case 0: break;
        case 1: { auto& c = fb[s.below(fb.size())]; c = c == 'q' ? 'r' : 'q'; break; }
        case 2: { auto& c = fb[s.below(fb.size())]; c ^= isalpha(static_cast<unsigned char>(c)) ? 0x20 : 0; break; }
        case 3: if (fb.size() > 1) { fb.pop_back(); } break;
        case 4: if (fb.size() < 32) { fb += "a"; } break;
    }
    s.note("foundations ", fa, " and ", fb);
    namespace c = ice::candidate;
    compare("foundation", c::Foundation::from_string(fa).unwrap(), c::Foundation::from_string(fb).unwrap(), fa == fb);

    auto near = [&](uint32_t v, uint32_t lo, uint32_t hi) {
        const uint32_t w = s.flip() ? v : s.flip() ? v ^ (1u << s.below(32)) : s.u32();
        return w < lo || w > hi ? v : w;
    };
    const uint32_t pa = s.range(uint32_t(1), uint32_t(0x7fffffff)), pb = near(pa, 1, 0x7fffffff);
    s.note("priorities ", pa, " and ", pb);
    compare("priority", c::Priority::from_uint32(pa).unwrap(), c::Priority::from_uint32(pb).unwrap(), pa == pb);
    compare("priority of text", c::Priority::from_uint32(pa).unwrap(), c::Priority::from_string(std::to_string(pb)).unwrap(), pa == pb);
    const uint32_t ca = s.range(1u, 256u), cb = near(ca, 1, 256);
    s.note("components ", ca, " and ", cb);
    compare("component id", c::ComponentId::from_unsigned(ca).unwrap(), c::ComponentId::from_unsigned(cb).unwrap(), ca == cb);
    compare("component id of text", c::ComponentId::from_unsigned(ca).unwrap(), c::ComponentId::from_string(std::to_string(cb)).unwrap(), ca == cb);
    const std::array<c::Type, 4> types{c::Type::host(), c::Type::server_reflexive(), c::Type::peer_reflexive(), c::Type::relayed()};
    const std::array<const char *, 4> texts{"host", "srflx", "prflx", "relay"};
    const auto ta = s.below(4), tb = s.below(4);
    compare("type", types[ta], types[tb], ta == tb);
    compare("type of text", types[ta], c::Type::from_string(texts[tb]).unwrap(), ta == tb);
    compare("transport", c::TransportType::udp(), c::TransportType::from_string("UDP").unwrap(), true);
    if (fa != fb || pa != pb || ca != cb) {
        s.nontrivial();
    }
}

PBT_TEST(timepoints, 60000, 1000000) {
    const auto a = static_cast<int64_t>(s.edge(62));
    const auto b = s.flip() ? a : s.flip() ? a ^ (int64_t(1) << s.below(62)) : static_cast<int64_t>(s.edge(62));
    s.note(a, " and ", b, " microseconds");
    const auto x = clock::Timepoint::epoch().advance(std::chrono::microseconds(a));
    const auto y = clock::Timepoint::epoch().advance(std::chrono::microseconds(b));
    compare("timepoint", x, y, a == b);
    REQUIRE_EQ(x.is_before(y), a < b, "before");
    REQUIRE_EQ(x.is_after(y), a > b, "after");
    if (a != b) {
        s.nontrivial();
    }
}
