// S02: parsing of any octets as a STUN message.
#include "stun_ref.hpp"

using namespace ref;

PBT_RULE("messages are encoded by an independent encoder from generated attributes (well-formed, malformed, duplicate, "
         "after MESSAGE-INTEGRITY), with FINGERPRINT and MESSAGE-INTEGRITY, then cut, extended or changed in a few "
         "octets, and octet strings come from coverage-guided search; verdict, header, every attribute and the list of "
         "unknown attributes are compared with an independent decoder; non-trivial: accepted with an attribute, or "
         "refused for a single reason");

namespace {

void judge(pbt::Src& s, const Bytes& b) {
    const Decoded d = decode(b);
    const Exact x(b, s.below(4));
    st::ParseStat stat;
    const auto r = st::Message::parse(x.view(), stat);
    s.note("message ", pbt::hex(b), ": ", r.is_ok() ? "accepted" : r.unwrap_err().code().message());
    if (d.is_vague()) {
        REQUIRE(d.ok() || r.is_err(), "accepted: ", pbt::hex(b));
        s.label("verdict not specified");
    } else {
        REQUIRE_EQ(r.is_ok(), d.ok(), "verdict on ", pbt::hex(b));
    }
    if (r.is_err()) {
        REQUIRE(static_cast<bool>(r.unwrap_err().code()), "an error without code");
        s.label("refused");
        if (std::count(d.faults, d.faults + F_COUNT, true) == 1) {
            s.nontrivial();
        }
        return;
    }
    const auto m = r.unwrap();
    REQUIRE_EQ(cls_of(m.header.cls), d.cls, "class");
    REQUIRE_EQ(unsigned(m.header.method.to_msg_type()), unsigned(msg_type(0, d.method)), "method");
    REQUIRE(bytes(m.header.transaction_id.view()) == d.tid, "transaction id is ", pbt::hex(bytes(m.header.transaction_id.view())));
    REQUIRE_EQ(static_cast<bool>(m.is_rfc3489), d.rfc3489, "RFC 3489 flag");
    same_attributes(m, d);
    REQUIRE_EQ(m.integrity_interval.is_some(), d.integrity_at.has_value(), "MESSAGE-INTEGRITY covers something");
    if (d.integrity_at) {
        const auto i = m.integrity_interval.unwrap();
        REQUIRE_EQ(i.offset, size_t(0), "start of what MESSAGE-INTEGRITY covers");
        REQUIRE_EQ(i.count, *d.integrity_at, "length of what MESSAGE-INTEGRITY covers");
    }
    const auto alt = d.first(ERROR_CODE);
    if (alt == nullptr || alt->value[3] < 100) {
        REQUIRE_EQ(m.is_alternate_server(),
                   d.cls == 3 && alt != nullptr && (alt->value[2] & 7) == 3 && alt->value[3] == 0, "alternate server");
    }
    s.label("accepted");
    if (!d.attrs.empty()) {
        s.nontrivial();
    }
}

Attr spoil_attr(pbt::Src& s, Attr a) {
    switch (s.below(5)) {
    case 0:
        a.value.resize(s.below(a.value.size() + 1));
        break;
    case 1:
        append(a.value, s.bytes(1 + s.below(9)));
        break;
    case 2:
        if (!a.value.empty()) {
            a.value[s.below(a.value.size())] = s.u8();
        }
        break;
    case 3:
        if (a.value.size() > 1) {
            a.value[1] = static_cast<uint8_t>(s.below(4)); // family
        }
        break;
    default:
        if (a.value.size() > 3) {
            a.value[s.below(4)] ^= static_cast<uint8_t>(1u << s.below(8)); // reserved bits
        }
    }
    return a;
}

Bytes message(pbt::Src& s, bool spoil) {
    const bool old = s.chance(1, 6);
    const unsigned cls = old && !s.chance(1, 8) ? 0 : static_cast<unsigned>(s.below(4));
    const unsigned method = s.flip() ? 1 : static_cast<unsigned>(s.below(4096));
    const Bytes tid = gen_tid(s, old);
    const auto pad = s.u8();
    Bytes b = header(msg_type(cls, method), tid);
    auto some = [&](size_t max) {
        for (auto n = s.len(max); n > 0; --n) {
            auto t = gen_type(s);
            if (t == FINGERPRINT && !s.chance(1, 6)) {
                t = SOFTWARE;
            }
            if (t == INTEGRITY && !s.chance(1, 3)) {
                t = USERNAME;
            }
            Attr a = gen_good(s, t, tid);
            if (spoil && s.chance(1, 5)) {
                a = spoil_attr(s, std::move(a));
            }
            put_attr(b, a, pad);
        }
        fix_len(b);
    };
    some(6);
    if (s.chance(1, 3)) {
        add_integrity(b, s.bytes(s.len(30)));
        if (s.chance(1, 3)) {
            some(3);
        }
    }
    if (s.chance(1, 2)) {
        add_fingerprint(b);
    }
    return b;
}

void spoil(pbt::Src& s, Bytes& b) {
    for (auto n = 1 + s.below(3); n > 0; --n) {
        switch (s.below(8)) {
        case 0:
            b.resize(s.below(b.size() + 1));
            break;
        case 1:
            append(b, s.bytes(1 + s.below(8)));
            break;
        case 2:
            if (!b.empty()) {
                b[s.below(b.size())] = s.u8();
            }
            break;
        case 3:
            if (!b.empty()) {
                b[s.below(b.size())] ^= static_cast<uint8_t>(1u << s.below(8));
            }
            break;
        case 4: // some header octet
            if (b.size() >= 20) {
                b[s.below(8)] ^= static_cast<uint8_t>(1u << s.below(8));
            }
            break;
        case 5: // length made right again
            if (b.size() >= 20) {
                fix_len(b);
            }
            break;
        case 6: // cut at a multiple of 4, length right
            if (b.size() > 20) {
                b.resize(20 + s.below(b.size() - 20) / 4 * 4);
                fix_len(b);
            }
            break;
        default:
            if (b.size() > 24) { // length of an attribute, likely
                const size_t at = 20 + s.below((b.size() - 20) / 4) * 4;
                b[at + 3] = static_cast<uint8_t>(b[at + 3] + 1 - 2 * s.below(2));
            }
        }
    }
}

}

PBT_TEST(encoded, 300000, 6000000) {
    judge(s, message(s, false));
}

PBT_TEST(malformed_attributes, 300000, 6000000) {
    judge(s, message(s, true));
}

PBT_TEST(spoiled, 300000, 6000000) {
    Bytes b = message(s, s.flip());
    spoil(s, b);
    judge(s, b);
}

// Every attribute type, known and not, with a value of each length 0..40.
PBT_EXHAUSTIVE(value_sizes, 14 * 41) {
    const auto v = s.below(14 * 41);
    const uint16_t type = v / 41 < 13 ? known_types()[v / 41] : uint16_t(0x7777);
    const size_t n = v % 41;
    Attr a{type, Bytes(n, 0)};
    for (int variant = 0; variant < 4; ++variant) {
        for (size_t i = 0; i < n; ++i) {
            a.value[i] = static_cast<uint8_t>(variant == 3 ? 0xff : i);
        }
        if (n > 1) {
            a.value[1] = static_cast<uint8_t>(variant);
        }
        for (unsigned cls = 0; cls < 4; ++cls) {
            judge(s, encode(msg_type(cls, 1), Bytes(12, 9), {a}));
        }
    }
}

PBT_TEST(long_messages, 3000, 60000) {
    const Bytes tid = gen_tid(s);
    Bytes b = header(msg_type(s.below(4), 1), tid);
    const auto n = s.below(4);
    for (size_t i = 0; i <= n; ++i) {
        const size_t size = s.one_of<size_t>({255, 256, 1000, 4095, 16383, 16384, 32767, 32768, 40000, 65500, 65531});
        if (b.size() + 4 + (size + 3) / 4 * 4 > 20 + 65532) {
            break;
        }
        put_attr(b, Attr{s.one_of<uint16_t>({SOFTWARE, USERNAME, 0x7001, 0xf001, UNKNOWN_ATTRS}), Bytes(size & ~size_t(1), s.u8())});
    }
    for (auto k = s.below(200); k > 0 && b.size() < 60000; --k) {
        put_attr(b, gen_good(s, gen_type(s), tid));
    }
    fix_len(b);
    if (b.size() <= 20 + 65532 - 8 && s.flip()) {
        add_fingerprint(b);
    }
    if (s.chance(1, 4)) {
        b.resize(b.size() - 1 - s.below(20));
    }
    judge(s, b);
}

PBT_FUZZ(octets, 300000, 6000000) {
    Bytes b = s.bytes(s.len(150));
    if (b.size() >= 20) {
        const auto how = s.below(8);
        if (how != 0) {
            fix_len(b);
        }
        if (how > 1) {
            b[4] = 0x21;
            b[5] = 0x12;
            b[6] = 0xa4;
            b[7] = 0x42;
        }
        if (how > 2) {
            b[0] &= 0x3f;
        }
        if (how > 5) {
            add_fingerprint(b);
        }
    }
    judge(s, b);
}
