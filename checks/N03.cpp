// N03: ports and endpoints.
#include <string>

#include "net/net_endpoint.hpp"
#include "net/net_path.hpp"
#include "net/net_port.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
using net::Port;

PBT_RULE("all 65536 port numbers, all strings of up to 6 characters over digits with neighbours of the digits mixed "
         "in, and random octet strings against the decimal value; endpoints and paths of generated addresses against "
         "their parts; non-trivial: an accepted text, or a rejected one of digits only");

namespace {

void judge(pbt::Src& s, const std::string& t) {
    bool digits = !t.empty();
    unsigned long v = 0;
    for (char c : t) {
        digits = digits && c >= '0' && c <= '9';
        if (digits && v <= 1000000) {
            v = v * 10 + static_cast<unsigned long>(c - '0');
        }
    }
    const std::vector<char> exact(t.begin(), t.end());
    const std::string_view view(exact.data(), exact.size());
    const auto r = Port::from_string(view);
    s.note("port text ", pbt::quote(t));
    if (digits && t.size() > 5 && v <= 65535) {
        return; // longer than the longest port number, padded with zeros: not specified
    }
    REQUIRE_EQ(r.is_ok(), digits && v <= 65535, "verdict on ", pbt::quote(t));
    if (r.is_ok()) {
        REQUIRE_EQ(static_cast<unsigned long>(r.unwrap().value()), v, "value of ", pbt::quote(t));
        REQUIRE(r.unwrap() == Port::from_uint16(static_cast<uint16_t>(v)), "equality");
    } else {
        REQUIRE(static_cast<bool>(r.unwrap_err().code()), "an error without code");
    }
    if (digits) {
        s.nontrivial(pbt::hash_bytes(t.data(), t.size()));
    }
}

net::ip::Address address(pbt::Src& s) {
    const auto b = s.bytes(s.flip() ? 4 : 16);
    const util::ConstBinaryView v(b.data(), b.size());
    return b.size() == 4 ? net::ip::Address(net::ip::AddressV4::from_view(v).unwrap())
                         : net::ip::Address(net::ip::AddressV6::from_view(v).unwrap());
}

}

PBT_EXHAUSTIVE(numbers, 100000) {
    const auto v = s.below(100000);
    judge(s, std::to_string(v));
    if (v <= 65535) {
        const auto p = Port::from_uint16(static_cast<uint16_t>(v));
        REQUIRE_EQ(static_cast<uint64_t>(p.value()), v, "value");
        REQUIRE(p == Port(static_cast<uint16_t>(v)), "equality");
        REQUIRE(!(p == Port(static_cast<uint16_t>(v + 1))), "different ports are equal");
        REQUIRE(Port::from_string(std::to_string(p.value())).unwrap() == p, "does not read back");
    }
}

PBT_TEST(digits, 150000, 3000000) {
    std::string t = s.str("0123456789", s.len(12));
    if (s.chance(1, 2)) {
        const auto at = s.below(t.size() + 1);
        t.insert(t.begin() + static_cast<long>(at), "/:+- \0x.,\xb0"[s.below(10)]);
    }
    judge(s, t);
}

// Numbers that are small again once they no longer fit a machine word.
PBT_TEST(wrapping, 60000, 1000000) {
    const unsigned bits = s.one_of<unsigned>({16, 31, 32, 33, 63, 64, 65, 96, 120});
    unsigned __int128 v = (static_cast<unsigned __int128>(1) << bits) * (1 + s.below(9));
    if (s.flip()) {
        v += s.below(70000);
    } else {
        v -= s.below(70000);
    }
    std::string t;
    while (v != 0) {
        t.insert(t.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
        v /= 10;
    }
    judge(s, t);
}

PBT_TEST(octets, 100000, 1000000) {
    auto b = s.bytes(s.len(7));
    judge(s, std::string(b.begin(), b.end()));
}

PBT_TEST(endpoints, 100000, 1000000) {
    const auto a = address(s);
    const auto p = Port(s.u16());
    const net::UdpEndpoint u{a, p};
    const net::TcpEndpoint t{a, p};
    const bool udp = s.flip();
    net::Endpoint e = udp ? net::Endpoint(u) : net::Endpoint(t);
    auto check = [&](const net::Endpoint& x, const char* how) {
        REQUIRE_EQ(x.is_udp(), udp, how);
        REQUIRE(x.address() == a, how, ": address");
        REQUIRE(x.port() == p, how, ": port");
    };
    check(e, "constructed");
    net::Endpoint c(e);
    check(c, "copied");
    net::Endpoint m(std::move(c));
    check(m, "moved");
    net::Endpoint o = net::UdpEndpoint{address(s), Port(s.u16())};
    o = e;
    check(o, "assigned");
    auto u2 = u;
    auto t2 = t;
    net::Endpoint r = udp ? net::Endpoint(std::move(u2)) : net::Endpoint(std::move(t2));
    check(r, "constructed by move");
    s.nontrivial();
}

PBT_TEST(paths, 100000, 1000000) {
    const auto a = address(s), b = address(s);
    const auto c = s.flip() ? a : address(s), d = s.flip() ? b : address(s);
    const net::Path x{a, b}, y{c, d};
    REQUIRE_EQ(x == y, a == c && b == d, "equality of paths");
    const net::Path z{b, a};
    REQUIRE_EQ(x == z, a == b, "a path and its reverse");
    if (!(a == b)) {
        s.nontrivial();
    }
}
