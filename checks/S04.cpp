// S04: FINGERPRINT.
#include "stun/details/stun_fingerprint.hpp"
#include "stun_gen.hpp"

using namespace ref;

PBT_RULE("messages with FINGERPRINT built by the library and by an independent encoder are parsed unchanged, with any "
         "single bit flipped, with bursts of up to 32 bits, with another value and with the attribute out of place; CRC-32 "
         "of octet strings whole and in pieces against a bitwise reference; non-trivial: a changed message whose "
         "FINGERPRINT still is one");

namespace {

Bytes message(pbt::Src& s) {
    Plan p = gen_plan(s);
    if (p.tid.size() == 16) {
        p.cls = 0;
    }
    if (!p.fingerprint) {
        p.values.push_back(st::FingerprintAttribute{});
        p.fingerprint = true;
    }
    const Bytes b = p.build().unwrap();
    check_built(p, b);
    return b;
}

bool accepted(pbt::Src& s, const Bytes& b) {
    st::ParseStat stat;
    const auto r = st::Message::parse(Exact(b, s.below(4)).view(), stat);
    if (r.is_ok()) {
        const auto m = r.unwrap();
        const Decoded d = decode(b);
        REQUIRE_EQ(m.attribute_set.has_fingerprint(), d.fingerprint_at.has_value(), "FINGERPRINT seen");
    }
    return r.is_ok();
}

bool still(const Bytes& b) {
    return b.size() >= 28 && get(b, b.size() - 8, 2) == FINGERPRINT && get(b, b.size() - 6, 2) == 4;
}

}

PBT_TEST(crc, 400000, 8000000) {
    const Bytes b = s.bytes(s.len(300));
    const uint32_t want = crc32(b.data(), b.size());
    s.note("octets ", pbt::hex(b));
    REQUIRE_EQ(st::crc32(Exact(b, s.below(4)).view()), want, "CRC-32 of ", pbt::hex(b));
    std::vector<ConstBinaryView> parts;
    size_t at = 0;
    const Exact x(b);
    while (at < b.size() || s.chance(1, 4)) {
        const size_t n = s.below(std::min<size_t>(b.size() - at, 40) + 1);
        parts.push_back(x.view().assured_subview(at, n));
        at += n;
        if (s.exhausted() && n == 0) {
            parts.push_back(x.view().assured_subview(at));
            break;
        }
    }
    REQUIRE_EQ(st::crc32(parts), want, "CRC-32 of ", parts.size(), " pieces of ", pbt::hex(b));
    if (parts.size() > 1) {
        s.nontrivial();
    }
}

// Of any length, in any number of pieces.
PBT_TEST(crc_long, 3000, 60000) {
    const Bytes b = s.filler(s.big(200000));
    const uint32_t want = crc32(b.data(), b.size());
    REQUIRE_EQ(st::crc32(ConstBinaryView(b)), want, "CRC-32 of ", b.size(), " octets");
    std::vector<ConstBinaryView> parts;
    const size_t most = 1 + s.big(s.flip() ? 100 : 4000);
    for (size_t at = 0; at < b.size();) {
        const size_t n = std::min(b.size() - at, s.below(most + 1) + 1);
        parts.emplace_back(b.data() + at, n);
        at += n;
    }
    s.note(parts.size(), " pieces of ", b.size(), " octets");
    REQUIRE_EQ(st::crc32(parts), want, "CRC-32 of ", parts.size(), " pieces of ", b.size(), " octets");
    if (parts.size() > 20) {
        s.nontrivial();
        s.label(parts.size() > 1000 ? "more than 1000 pieces" : "more than 20 pieces");
    }
}

// Every octet value at every state reachable by one octet: the whole table.
PBT_EXHAUSTIVE(crc_two_octets, 65536) {
    const auto v = s.below(65536);
    const Bytes b{static_cast<uint8_t>(v >> 8), static_cast<uint8_t>(v)};
    REQUIRE_EQ(st::crc32(ConstBinaryView(b)), crc32(b.data(), 2), "CRC-32 of ", pbt::hex(b));
    s.nontrivial(v);
}

PBT_TEST(flipped_bits, 250000, 5000000) {
    Bytes b = message(s);
    s.note("message ", pbt::hex(b));
    REQUIRE(accepted(s, b), "refused: ", pbt::hex(b));
    const bool rfc3489 = decode(b).rfc3489;
    const auto bit = s.below(8 * b.size());
    const auto len = 1 + (s.flip() ? 0 : s.below(32)); // a burst
    const uint64_t pattern = 1 | (s.u32() << 1);
    Bytes c = b;
    for (uint64_t i = 0; i < len && bit + i < 8 * b.size(); ++i) {
        if (i == 0 || i + 1 == len || ((pattern >> (i % 32)) & 1)) {
            // CRC bit order: least significant bit of an octet first
            c[(bit + i) / 8] ^= static_cast<uint8_t>(1u << ((bit + i) % 8));
        }
    }
    s.note("changed ", pbt::hex(c));
    const bool got = accepted(s, c);
    if (still(c) && !rfc3489) {
        // the attribute stands where it stood: CRC-32 finds every burst of up to 32 bits
        const Decoded d = decode(c);
        if (d.fingerprint_at) {
            REQUIRE(!got, "accepted: ", pbt::hex(c), " made of ", pbt::hex(b));
            s.nontrivial();
        }
    }
    REQUIRE(!got || decode(c).ok() || decode(c).is_vague(), "accepted: ", pbt::hex(c));
}

PBT_TEST(other_values, 200000, 4000000) {
    Bytes b = message(s);
    const uint64_t right = get(b, b.size() - 4, 4);
    uint64_t v = s.u32();
    switch (s.below(5)) {
    case 0: v = right ^ 0x5354554eu; break;                                    // not masked
    case 1: v = __builtin_bswap32(static_cast<uint32_t>(right)); break;        // other octet order
    case 2: v = ~right & 0xffffffffu; break;
    case 3: v = (crc32(b.data(), b.size() - 4) ^ 0x5354554eu); break;          // over too much
    default: break;
    }
    for (int i = 0; i < 4; ++i) {
        b[b.size() - 1 - static_cast<size_t>(i)] = static_cast<uint8_t>(v >> (8 * i));
    }
    s.note("FINGERPRINT ", v, " for ", right, " in ", pbt::hex(b));
    REQUIRE_EQ(accepted(s, b), v == right, "verdict on FINGERPRINT ", v, " in ", pbt::hex(b));
    if (v != right) {
        s.nontrivial();
    }
}

// Long messages are covered to their ends.
PBT_TEST(long_messages, 6000, 100000) {
    Bytes b = header(msg_type(static_cast<unsigned>(s.below(4)), 1), gen_tid(s));
    const size_t n = s.flip() ? (size_t{1} << (8 + s.below(8))) - 64 + s.below(128) : s.below(65480);
    put_attr(b, Attr{static_cast<uint16_t>(0x8abc), Bytes(std::min<size_t>(n, 65480), s.u8())});
    fix_len(b);
    add_fingerprint(b);
    s.note("a message of ", b.size(), " octets");
    REQUIRE(accepted(s, b), "refused");
    const size_t end = b.size() - 8;
    Bytes c = b;
    const size_t at = 24 + s.below(end - 24 + (s.flip() ? 8 : 0));
    c[at] ^= static_cast<uint8_t>(1u << s.below(8));
    if (at < end || at >= end + 4) {
        REQUIRE(!accepted(s, c), "accepted with octet ", at, " of ", b.size(), " changed");
    }
    if (b.size() > 1024) {
        s.nontrivial();
    }
}

// FINGERPRINT must be the last attribute.
PBT_TEST(out_of_place, 100000, 2000000) {
    Bytes b = message(s);
    const Attr after = gen_good(s, s.flip() ? gen_type(s) : FINGERPRINT, Bytes(12, 1));
    const bool relen = s.flip();
    if (relen) { // computed for the final length, as a fooled receiver could
        Bytes head(b.begin(), b.end() - 8);
        fix_len(head, 8 + 4 + (after.value.size() + 3) / 4 * 4);
        Bytes v;
        put(v, crc32(head.data(), head.size()) ^ 0x5354554eu, 4);
        put_attr(head, Attr{FINGERPRINT, v});
        b = head;
    }
    put_attr(b, after);
    fix_len(b);
    s.note("message ", pbt::hex(b));
    REQUIRE(!accepted(s, b), "accepted with an attribute after FINGERPRINT: ", pbt::hex(b));
    s.nontrivial();
}
