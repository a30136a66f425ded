// S06: XOR-MAPPED-ADDRESS.
#include "stun_ref.hpp"

using namespace ref;

PBT_RULE("all-random and boundary addresses of both families, ports and 96-bit ids: mapped, written and read back "
         "against the definition in RFC 8489 14.2; non-trivial: an id or address that is not zero");

PBT_TEST(addresses, 800000, 16000000) {
    const Addr a = gen_addr(s);
    const Bytes tid = gen_tid(s), tid2 = s.flip() ? tid : gen_tid(s);
    s.note("address ", pbt::hex(a.ip), ":", a.port, " id ", pbt::hex(tid));
    const st::TransactionId id{ConstBinaryView(tid)}, id2{ConstBinaryView(tid2)};
    const auto x = st::XoredAddress::from_address(address(a.ip), id);
    const Bytes want = xor_mapped(a, tid);
    REQUIRE(bytes(x.view()) == Bytes(want.begin() + 4, want.end()), "mapped to ", pbt::hex(bytes(x.view())));
    REQUIRE_EQ(unsigned(x.family().to_uint8()), a.ip.size() == 4 ? 1u : 2u, "family");
    REQUIRE(ip_octets(x.to_address(id)) == a.ip, "not mapped back: ", pbt::hex(ip_octets(x.to_address(id))));
    REQUIRE(x.to_address(id) == address(a.ip), "not mapped back");
    // Another transaction id gives another IPv6 address, the same IPv4 one.
    Bytes back = Bytes(want.begin() + 4, want.end());
    const Bytes m2 = mask(tid2);
    for (size_t i = 0; i < back.size(); ++i) {
        back[i] ^= m2[i];
    }
    REQUIRE(ip_octets(x.to_address(id2)) == back, "mapped back with another id");
    // through the attribute
    const st::XorMappedAddressAttribute attr{x, fw::net::Port(a.port)};
    REQUIRE(attr.build() == want, "attribute is ", pbt::hex(attr.build()), " expected ", pbt::hex(want));
    st::ParseStat stat;
    const auto r = st::XorMappedAddressAttribute::parse(Exact(want, s.below(4)).view(), stat);
    REQUIRE(r.is_ok(), "the attribute is refused");
    REQUIRE(r.unwrap() == attr, "the attribute read back differs");
    REQUIRE_EQ(r.unwrap().port.value(), a.port, "port");
    REQUIRE(ip_octets(r.unwrap().addr.to_address(id)) == a.ip, "address read back");
    s.nontrivial();
}

// Equality and parsing of raw octets.
PBT_TEST(views, 300000, 6000000) {
    const bool v6 = s.flip();
    const Bytes o = s.bytes(s.chance(1, 4) ? s.below(24) : (v6 ? 16 : 4));
    const auto fam = v6 ? st::Family::ipv6() : st::Family::ipv4();
    const auto r = st::XoredAddress::from_view(fam, Exact(o, s.below(4)).view());
    s.note("octets ", pbt::hex(o), v6 ? " as IPv6" : " as IPv4");
    REQUIRE_EQ(r.is_ok(), o.size() == (v6 ? 16u : 4u), "verdict");
    if (r.is_err()) {
        REQUIRE(static_cast<bool>(r.unwrap_err().code()), "no code");
        return;
    }
    REQUIRE(bytes(r.unwrap().view()) == o, "octets");
    Bytes p = o;
    if (s.flip()) {
        p[s.below(p.size())] ^= static_cast<uint8_t>(1u << s.below(8));
    }
    REQUIRE_EQ(r.unwrap() == st::XoredAddress::from_view(fam, ConstBinaryView(p)).unwrap(), o == p, "equality");
    s.nontrivial();
}

PBT_EXHAUSTIVE(families, 256) {
    const auto v = static_cast<uint8_t>(s.below(256));
    const auto f = st::Family::from_uint8(v);
    REQUIRE_EQ(f.is_ok(), v == 1 || v == 2, "verdict on family ", int(v));
    if (f.is_ok()) {
        REQUIRE_EQ(unsigned(f.unwrap().to_uint8()), unsigned(v), "family");
        REQUIRE_EQ(f.unwrap().type() == st::Family::IPv6, v == 2, "type");
        s.nontrivial(v);
    }
    for (uint8_t lead : {0, 1, 255}) { // the first octet is ignored
        for (uint16_t type : {XOR_MAPPED, MAPPED, ALTERNATE}) {
            for (size_t n : {4u, 8u, 20u}) {
                Bytes val(n, 0x33);
                val[0] = lead;
                val[1] = v;
                const Bytes b = encode(0x0101, Bytes(12, 3), {Attr{type, val}});
                st::ParseStat stat;
                const bool ok = st::Message::parse(Exact(b).view(), stat).is_ok();
                REQUIRE_EQ(ok, (v == 1 && n == 8) || (v == 2 && n == 20), "verdict on family ", int(v), " with ", n, " octets");
            }
        }
    }
}

// All ports.
PBT_EXHAUSTIVE(ports, 65536) {
    const auto v = static_cast<uint16_t>(s.below(65536));
    const Bytes tid(12, 0x11);
    for (size_t n : {4u, 16u}) {
        const Addr a{Bytes(n, 0x7f), v};
        const st::XorMappedAddressAttribute attr{
            st::XoredAddress::from_address(address(a.ip), st::TransactionId(ConstBinaryView(tid))), fw::net::Port(v)};
        REQUIRE(attr.build() == xor_mapped(a, tid), "port ", v);
        st::ParseStat stat;
        REQUIRE_EQ(st::XorMappedAddressAttribute::parse(ConstBinaryView(xor_mapped(a, tid)), stat).unwrap().port.value(), v, "port");
        const st::MappedAddressAttribute plain{address(a.ip), fw::net::Port(v)};
        REQUIRE(plain.build() == mapped(a), "plain port ", v);
        REQUIRE_EQ(st::MappedAddressAttribute::parse(ConstBinaryView(mapped(a)), stat).unwrap().port.value(), v, "plain port");
    }
    s.nontrivial(v);
}
