// S03: building a message and reading it back.
#include "stun_gen.hpp"

using namespace ref;

PBT_RULE("messages with generated classes, methods, ids and sets of all attribute kinds (also repeated, unknown, empty "
         "and long ones), with and without FINGERPRINT and MESSAGE-INTEGRITY, are built, decoded by an independent "
         "decoder and parsed back; parsed messages are built again; non-trivial: at least two attributes");

PBT_TEST(build_and_parse, 500000, 10000000) {
    const Plan p = gen_plan(s);
    s.note(show(p));
    const auto r = p.build();
    REQUIRE(r.is_ok(), "cannot be built");
    const Bytes b = r.unwrap();
    const Decoded d = check_built(p, b);
    if (p.expected.size() >= 2) {
        s.nontrivial();
    }
    REQUIRE(p.build().unwrap() == b, "built differently the second time");
    if (p.tid.size() == 16 && p.cls != 0) {
        s.label("RFC 3489 answer");
        return; // only requests are parsed in the old format
    }
    st::ParseStat stat;
    const Exact x(b, s.below(4));
    const auto m = st::Message::parse(x.view(), stat);
    REQUIRE(m.is_ok(), "the built message is refused: ", m.unwrap_err().code().message());
    const auto msg = m.unwrap();
    REQUIRE(msg.header.cls == make_cls(p.cls), "class");
    REQUIRE(msg.header.method == st::Method::from_msg_type(msg_type(0, p.method)), "method");
    REQUIRE(msg.header.transaction_id == p.id(), "transaction id");
    REQUIRE_EQ(static_cast<bool>(msg.is_rfc3489), p.tid.size() == 16, "RFC 3489 flag");
    same_attributes(msg, d);
    // and again, from what was parsed
    const auto again = p.password ? msg.build(integrity(*p.password)) : msg.build();
    REQUIRE(again.is_ok(), "cannot be built again");
    check_built(p, again.unwrap());
}

PBT_TEST(parse_and_build, 200000, 4000000) {
    const Bytes tid = gen_tid(s, s.chance(1, 8));
    Plan p;
    p.cls = tid.size() == 16 ? 0 : static_cast<unsigned>(s.below(4));
    p.method = static_cast<unsigned>(s.below(4096));
    p.tid = tid;
    Bytes b = header(msg_type(p.cls, p.method), tid);
    for (auto n = s.len(8); n > 0; --n) {
        auto t = gen_type(s);
        if (t == FINGERPRINT || t == INTEGRITY) {
            t = 0x7123;
        }
        Attr a = gen_good(s, t, tid);
        put_attr(b, a, s.u8());
        if (t == MAPPED || t == ALTERNATE || t == XOR_MAPPED) {
            a.value[0] = 0;
        }
        bool have = false;
        for (const auto& e : p.expected) {
            have = have || (e.type == t && is_known(t));
        }
        if (!have) {
            p.expected.push_back(std::move(a));
        }
    }
    fix_len(b);
    const Bytes key = s.bytes(s.len(20));
    if (s.flip()) {
        add_integrity(b, key);
        put_attr(b, Attr{SOFTWARE, s.bytes(s.len(9))});
        fix_len(b);
    }
    p.fingerprint = s.flip();
    if (p.fingerprint) {
        add_fingerprint(b);
    }
    s.note("message ", pbt::hex(b));
    st::ParseStat stat;
    const auto m = st::Message::parse(Exact(b).view(), stat);
    REQUIRE(m.is_ok(), "refused: ", m.unwrap_err().code().message(), " ", pbt::hex(b));
    if (p.expected.size() >= 2) {
        s.nontrivial();
    }
    if (s.flip()) {
        p.password = gen_password(s);
    }
    // the password is another one: digest and fingerprint are made anew
    const auto msg = m.unwrap();
    const auto out = p.password ? msg.build(integrity(*p.password)) : msg.build();
    REQUIRE(out.is_ok(), "cannot be built");
    check_built(p, out.unwrap());
}

// One long attribute of every kind that may be long.
PBT_TEST(long_values, 4000, 80000) {
    Plan p;
    p.cls = static_cast<unsigned>(s.below(4));
    p.tid = gen_tid(s);
    size_t n = s.one_of<size_t>({100, 255, 256, 257, 763, 4095, 32767, 32768, 65000, 65480}) + s.below(4);
    const Bytes v(n, s.u8());
    switch (s.below(5)) {
    case 0:
        p.values.push_back(st::UsernameAttribute{fw::precis::OpaqueString(text(v))});
        p.expected.push_back(Attr{USERNAME, v});
        break;
    case 1:
        p.values.push_back(st::SoftwareAttribute{text(v)});
        p.expected.push_back(Attr{SOFTWARE, v});
        break;
    case 2: {
        p.values.push_back(st::ErrorCodeAttribute{499, text(v)});
        Bytes b;
        put(b, 0x0463, 4);
        append(b, v);
        p.expected.push_back(Attr{ERROR_CODE, b});
        break;
    }
    case 3: {
        st::UnknownAttributesAttribute a;
        Bytes b;
        for (size_t i = 0; i < n / 2; ++i) {
            a.types.push_back(st::AttributeType::from_uint16(static_cast<uint16_t>(i * 257)));
            put(b, static_cast<uint16_t>(i * 257), 2);
        }
        p.values.push_back(std::move(a));
        p.expected.push_back(Attr{UNKNOWN_ATTRS, b});
        break;
    }
    default:
        p.unknown.emplace_back(st::AttributeType::from_uint16(0x7abc), ConstBinaryView(v));
        p.expected.push_back(Attr{0x7abc, v});
    }
    p.fingerprint = s.flip();
    if (p.fingerprint) {
        p.values.push_back(st::FingerprintAttribute{});
    }
    if (s.flip()) {
        p.password = gen_password(s);
    }
    s.note("one attribute of ", n, " octets");
    const Bytes b = p.build().unwrap();
    const Decoded d = check_built(p, b);
    st::ParseStat stat;
    const auto m = st::Message::parse(Exact(b).view(), stat);
    REQUIRE(m.is_ok(), "refused: ", m.unwrap_err().code().message());
    same_attributes(m.unwrap(), d);
    s.nontrivial(n * 4 + p.fingerprint * 2 + p.password.has_value());
}

// Around the 65535 octets that the length of a message can say: everything
// that fits is built, everything else refused.
PBT_TEST(up_to_the_limit, 4000, 80000) {
    Plan p;
    p.cls = static_cast<unsigned>(s.below(4));
    p.tid = gen_tid(s);
    p.fingerprint = s.flip();
    if (s.flip()) {
        p.password = gen_password(s);
    }
    const size_t extra = (p.fingerprint ? 8 : 0) + (p.password ? 24 : 0);
    size_t want = 0; // of all attributes, a multiple of four
    switch (s.below(4)) {
    case 0: want = 65536 + s.one_of<size_t>({4, 8, 24, 32, 100, 1000, 65536, 131072}); break;
    case 1: want = 65536 - 4 * s.below(12); break;
    case 2: want = 65536 + 4 * s.below(12); break;
    default: want = 65500 - 4 * s.below(200); break;
    }
    size_t left = want - extra;
    const size_t parts = 1 + s.below(3);
    const uint16_t types[] = {USERNAME, SOFTWARE, ERROR_CODE, 0x7abc, 0x7abd, 0xfabc};
    const size_t first = s.below(6);
    for (size_t i = 0; i < parts; ++i) {
        const size_t one = i + 1 == parts ? left : std::min<size_t>(left - 4 * 8 * (parts - i), 12 + 4 * s.below(16384));
        left -= one;
        const Bytes v(one - 4 - s.below(4), s.u8()); // with header and padding
        switch (const auto t = types[(first + i) % 6]) {
        case USERNAME:
            p.values.push_back(st::UsernameAttribute{fw::precis::OpaqueString(text(v))});
            p.expected.push_back(Attr{t, v});
            break;
        case SOFTWARE:
            p.values.push_back(st::SoftwareAttribute{text(v)});
            p.expected.push_back(Attr{t, v});
            break;
        case ERROR_CODE: {
            p.values.push_back(st::ErrorCodeAttribute{499, text(Bytes(v.begin() + 4, v.end()))});
            Bytes b;
            put(b, 0x0463, 4);
            b.insert(b.end(), v.begin() + 4, v.end());
            p.expected.push_back(Attr{t, b});
            break;
        }
        default:
            p.unknown.emplace_back(st::AttributeType::from_uint16(t), ConstBinaryView(v));
            p.expected.push_back(Attr{t, v});
        }
    }
    if (p.fingerprint) {
        p.values.push_back(st::FingerprintAttribute{});
    }
    s.note(parts, " attributes, ", want, " octets in all");
    s.nontrivial(want * 4 + p.fingerprint * 2 + p.password.has_value());
    const auto r = p.build();
    if (want > 65535) {
        s.label("too large");
        REQUIRE(r.is_err(), "a message of ", want, " octets of attributes is built");
        return;
    }
    s.label("fits");
    REQUIRE(r.is_ok(), "a message of ", want, " octets of attributes is refused: ", r.unwrap_err().message());
    const Bytes b = r.unwrap();
    REQUIRE_EQ(b.size(), 20 + want, "octets");
    const Decoded d = check_built(p, b);
    st::ParseStat stat;
    const auto m = st::Message::parse(Exact(b).view(), stat);
    REQUIRE(m.is_ok(), "refused: ", m.unwrap_err().code().message());
    same_attributes(m.unwrap(), d);
}

// Error codes 0..799 exhaustively.
PBT_EXHAUSTIVE(error_codes, 800) {
    const auto code = static_cast<unsigned>(s.below(800));
    Plan p;
    p.cls = 3;
    p.tid = Bytes(12, 1);
    p.values.push_back(st::ErrorCodeAttribute{code, std::string("why")});
    p.expected.push_back(Attr{ERROR_CODE, Bytes{0, 0, uint8_t(code / 100), uint8_t(code % 100), 'w', 'h', 'y'}});
    const Bytes b = p.build().unwrap();
    const Decoded d = check_built(p, b);
    st::ParseStat stat;
    const auto m = st::Message::parse(Exact(b).view(), stat).unwrap();
    same_attributes(m, d);
    REQUIRE_EQ(m.attribute_set.error_code().unwrap().get().code, code, "code");
    REQUIRE_EQ(m.is_alternate_server(), code == 300, "alternate server");
    s.nontrivial(code);
}
