// S01: the 14-bit STUN message type: class and method.
#include "stun_ref.hpp"

using namespace ref;

PBT_RULE("all 65536 values of the first two octets in a message with and without the magic cookie, and all 4 classes "
         "with all 4096 methods built and read back; non-trivial: a type with its two leading bits clear");

namespace {

void parse_type(unsigned v, const Bytes& tid, bool with_attr) {
    std::vector<Attr> attrs;
    if (with_attr) {
        attrs.push_back(Attr{SOFTWARE, bytes(std::string_view("abc"))});
    }
    Bytes b = encode(0, tid, attrs);
    b[0] = static_cast<uint8_t>(v >> 8);
    b[1] = static_cast<uint8_t>(v);
    const unsigned cls = ((v >> 4) & 1) + 2 * ((v >> 8) & 1);
    const unsigned method = (v & 15) + 16 * ((v >> 5) & 7) + 128 * ((v >> 9) & 31);
    st::ParseStat stat;
    const Exact x(b);
    const auto r = st::Message::parse(x.view(), stat);
    const bool cookie = tid.size() == 12;
    REQUIRE_EQ(r.is_ok(), v < 0x4000 && (cookie || cls == 0), "verdict on message type ", v, cookie ? "" : " without cookie");
    if (r.is_err()) {
        return;
    }
    const auto m = r.unwrap();
    REQUIRE_EQ(cls_of(m.header.cls), cls, "class of type ", v);
    REQUIRE_EQ(unsigned(m.header.method.to_msg_type()), unsigned(msg_type(0, method)), "method of type ", v);
    REQUIRE_EQ(m.header.method == st::Method::binding(), method == 1, "is it Binding: type ", v);
    REQUIRE_EQ(m.header.cls == make_cls(cls), true, "class equality");
    REQUIRE_EQ(static_cast<bool>(m.is_rfc3489), !cookie, "RFC 3489 flag");
    const auto out = m.build();
    REQUIRE(out.is_ok(), "cannot be built again");
    REQUIRE(out.unwrap() == b, "type ", v, " is written as ", pbt::hex(out.unwrap()), " read from ", pbt::hex(b));
}

}

PBT_EXHAUSTIVE(parsed_types, 65536) {
    const auto v = static_cast<unsigned>(s.below(65536));
    s.note("type ", v);
    Bytes tid(12, 0x5a);
    parse_type(v, tid, false);
    parse_type(v, tid, true);
    tid.resize(16, 0xa5);
    parse_type(v, tid, false);
    if (v < 0x4000) {
        s.nontrivial(v);
    }
}

PBT_EXHAUSTIVE(types, 16384) {
    const auto v = static_cast<unsigned>(s.below(16384));
    const unsigned cls = v / 4096, method = v % 4096;
    const uint16_t t = msg_type(cls, method);
    s.note("class ", cls, " method ", method);
    const auto c = st::Class::from_msg_type(t);
    const auto m = st::Method::from_msg_type(t);
    REQUIRE_EQ(cls_of(c), cls, "class");
    REQUIRE_EQ(unsigned(m.to_msg_type()), unsigned(msg_type(0, method)), "method");
    REQUIRE_EQ(unsigned(c.to_msg_type() | m.to_msg_type()), unsigned(t), "written type");
    REQUIRE_EQ(unsigned(c.to_msg_type() & m.to_msg_type()), 0u, "class and method share a bit");
    REQUIRE(c == make_cls(cls), "class equality");
    for (unsigned o = 0; o < 4; ++o) {
        REQUIRE_EQ(c == make_cls(o), o == cls, "class equality");
    }
    const st::Header h{c, m, st::TransactionId(ConstBinaryView(Bytes(12, 7)))};
    const auto b = h.build(method * 4);
    Bytes want = header(t, Bytes(12, 7));
    want[2] = static_cast<uint8_t>((method * 4) >> 8);
    want[3] = static_cast<uint8_t>(method * 4);
    REQUIRE(b == want, "header is ", pbt::hex(b), " expected ", pbt::hex(want));
    s.nontrivial(v);
}

// Methods that differ are told apart however they were obtained.
PBT_TEST(pairs, 200000, 2000000) {
    const auto a = static_cast<uint16_t>(s.below(0x4000));
    const auto b = s.flip() ? static_cast<uint16_t>(a ^ (1u << s.below(14))) : static_cast<uint16_t>(s.below(0x4000));
    const unsigned mask = 0x3eef; // the method's bits
    s.note("types ", a, " and ", b);
    REQUIRE_EQ(st::Method::from_msg_type(a) == st::Method::from_msg_type(b), (a & mask) == (b & mask), "method equality");
    REQUIRE_EQ(st::Method::from_msg_type(a) != st::Method::from_msg_type(b), (a & mask) != (b & mask), "method inequality");
    REQUIRE_EQ(st::Class::from_msg_type(a) == st::Class::from_msg_type(b), (a & 0x0110) == (b & 0x0110), "class equality");
    s.nontrivial((uint64_t(a) << 16) | b);
}
