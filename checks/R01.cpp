// R01/R02: RTP packets against a reference decoder.
#include <cstring>
#include <memory>
#include <optional>

#include "rtp/rtp_error.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
using util::ConstBinaryView;

PBT_RULE("packets are encoded from generated fields (all CSRC counts, extensions of 0..65535 words, paddings, payloads, "
         "payload maps), then possibly cut, extended or changed in a few octets, and octet strings come from random "
         "and coverage-guided generation; verdict, every field and every counter are compared with an independent "
         "decoder; non-trivial: the packet is accepted, or it is longer than the fixed header and of version 2");

namespace {

using Bytes = std::vector<uint8_t>;

struct Ref {
    bool ok = true;
    // faults actually present
    bool size = false, version = false, csrc = false, extension = false, clock = false, padding = false;
    bool vague = false; // zero padding count: RFC 3550 does not allow it, the verdict is not specified
    bool marker = false;
    unsigned pt = 0, seq = 0;
    uint32_t ts = 0, ssrc = 0;
    std::vector<uint32_t> csrcs;
    bool has_ext = false;
    unsigned profile = 0;
    size_t ext_off = 0, ext_len = 0, pay_off = 0, pay_len = 0;
};

uint32_t be(const Bytes& b, size_t off, size_t n) {
    uint32_t v = 0;
    for (size_t i = 0; i < n; ++i) {
        v = v * 256 + b[off + i];
    }
    return v;
}

Ref decode(const Bytes& b, const std::vector<std::optional<uint32_t>>& map) {
    Ref r;
    if (b.size() < 12) {
        r.ok = false;
        r.size = true;
        return r;
    }
    r.version = b[0] / 64 != 2;
    r.pt = b[1] % 128;
    r.marker = b[1] >= 128;
    r.seq = be(b, 2, 2);
    r.ts = be(b, 4, 4);
    r.ssrc = be(b, 8, 4);
    r.clock = !map[r.pt].has_value();
    const size_t cc = b[0] % 16;
    size_t at = 12 + 4 * cc;
    if (b.size() < at) {
        r.csrc = true;
        r.ok = false;
        return r;
    }
    for (size_t i = 0; i < cc; ++i) {
        r.csrcs.push_back(be(b, 12 + 4 * i, 4));
    }
    if (b[0] & 16) {
        r.has_ext = true;
        if (b.size() < at + 4) {
            r.extension = true;
            r.ok = false;
            return r;
        }
        r.profile = be(b, at, 2);
        r.ext_len = 4 * be(b, at + 2, 2);
        r.ext_off = at + 4;
        at += 4 + r.ext_len;
        if (b.size() < at) {
            r.extension = true;
            r.ok = false;
            return r;
        }
    }
    r.pay_off = at;
    r.pay_len = b.size() - at;
    if (b[0] & 32) {
        if (r.pay_len == 0 || b.back() > r.pay_len) {
            r.padding = true;
        } else {
            r.vague = b.back() == 0;
            r.pay_len -= b.back();
        }
    }
    r.ok = !(r.size || r.version || r.csrc || r.extension || r.clock || r.padding);
    return r;
}

using Counters = std::array<unsigned, 9>;
Counters counters(const rtp::ParseStat& st) {
    return {st.success.count(), st.error.count(), st.invalid_size.count(), st.invalid_version.count(),
            st.invalid_csrc.count(), st.invalid_extension.count(), st.invalid_payload_type.count(),
            st.unknown_rtp_clock.count(), st.invalid_padding.count()};
}

struct World {
    std::vector<std::optional<uint32_t>> ref = std::vector<std::optional<uint32_t>>(128);
    std::unique_ptr<rtp::PayloadMap> map;
};

rtp::PayloadMap::InitPair item(unsigned pt, uint32_t rate) {
    return {rtp::PayloadType::from_uint8(static_cast<uint8_t>(pt)).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(rate)}};
}

World world(pbt::Src& s) {
    World w;
    // distinct payload types
    const unsigned a = s.below(128), b = (a + 1 + s.below(127)) % 128;
    const uint32_t ra = s.u32(), rb = s.u32();
    unsigned c = s.below(128);
    switch (s.below(4)) {
    case 0:
        w.map = std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{item(a, ra)});
        w.ref[a] = ra;
        break;
    case 1:
        w.map = std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{item(a, ra), item(b, rb)});
        w.ref[a] = ra;
        w.ref[b] = rb;
        break;
    case 2:
        if (c == a || c == b) {
            c = a;
            w.map = std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{item(b, rb), item(a, ra)});
        } else {
            w.map = std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{item(b, rb), item(c, 90000), item(a, ra)});
            w.ref[c] = 90000;
        }
        w.ref[a] = ra;
        w.ref[b] = rb;
        break;
    default:
        w.map = std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{});
    }
    return w;
}

void judge(pbt::Src& s, const World& w, const Bytes& b, rtp::ParseStat& stat) {
    const Ref r = decode(b, w.ref);
    const Counters before = counters(stat);
    // exactly as much memory as octets, at any alignment
    const size_t sh = s.below(8);
    std::unique_ptr<uint8_t[]> mem(new uint8_t[b.size() + sh]);
    if (!b.empty()) {
        std::memcpy(mem.get() + sh, b.data(), b.size());
    }
    const ConstBinaryView view(mem.get() + sh, b.size());
    const auto res = rtp::Packet::parse(view, *w.map, stat);
    const Counters after = counters(stat);
    s.note("packet ", b.size() > 80 ? pbt::hex(b.data(), 80) + "..." : pbt::hex(b), " (", b.size(), " octets): ",
           res.is_ok() ? "accepted" : res.unwrap_err().code().message());
    if (!r.vague) {
        REQUIRE_EQ(res.is_ok(), r.ok, "verdict on ", pbt::hex(b));
    } else {
        REQUIRE(!res.is_ok() || r.ok, "accepted: ", pbt::hex(b));
        s.label("zero padding count");
    }
    // counters
    REQUIRE_EQ(after[0] - before[0], unsigned(res.is_ok()), "success counter");
    REQUIRE_EQ(after[1] - before[1], unsigned(!res.is_ok()), "error counter");
    unsigned reasons = 0;
    const bool present[9] = {true, true, r.size, r.version, r.csrc, r.extension, false, r.clock, r.padding || r.vague};
    for (size_t i = 2; i < 9; ++i) {
        const unsigned d = after[i] - before[i];
        REQUIRE(d <= 1, "reason counter ", i, " moved by ", d);
        REQUIRE(d == 0 || present[i], "reason counter ", i, " moved without that fault: ", pbt::hex(b));
        reasons += d;
    }
    REQUIRE_EQ(reasons, unsigned(!res.is_ok()), "reasons counted for ", pbt::hex(b));
    if (res.is_err()) {
        const auto ec = res.unwrap_err().code();
        REQUIRE(static_cast<bool>(ec), "an error without code");
        using E = rtp::Error;
        if (ec.category() == rtp::rtp_error_category()) {
            const bool here = (ec == make_error_code(E::packet_is_too_short) && (r.size || r.csrc))
                || (ec == make_error_code(E::unknown_packet_version) && r.version)
                || (ec == make_error_code(E::unknown_rtp_clock) && r.clock)
                || (ec == make_error_code(E::invalid_extension_length) && r.extension)
                || (ec == make_error_code(E::invalid_packet_padding) && (r.padding || r.vague));
            REQUIRE(here, "the error is none of the faults: ", ec.message(), " for ", pbt::hex(b));
        }
        s.label("rejected");
        if (b.size() >= 12 && !r.version) {
            s.nontrivial();
        }
        return;
    }
    s.nontrivial();
    s.label("accepted");
    const auto p = res.unwrap();
    const auto& h = p.header;
    REQUIRE_EQ(static_cast<bool>(h.marker), r.marker, "marker");
    REQUIRE_EQ(unsigned(h.payload_type.value()), r.pt, "payload type");
    REQUIRE_EQ(unsigned(h.sequence.value()), r.seq, "sequence number");
    REQUIRE_EQ(h.timestamp.value(), r.ts, "timestamp");
    REQUIRE_EQ(h.ssrc.value(), r.ssrc, "SSRC");
    REQUIRE_EQ(h.csrcs.size(), r.csrcs.size(), "number of CSRCs");
    for (size_t i = 0; i < r.csrcs.size(); ++i) {
        REQUIRE_EQ(h.csrcs[i].value(), r.csrcs[i], "CSRC ", i);
    }
    REQUIRE_EQ(h.maybe_extension.is_some(), r.has_ext, "extension");
    if (r.has_ext) {
        const auto e = h.maybe_extension.unwrap();
        REQUIRE_EQ(unsigned(e.profile_defined), r.profile, "extension profile");
        REQUIRE_EQ(e.data.offset, r.ext_off, "extension offset");
        REQUIRE_EQ(e.data.count, r.ext_len, "extension length");
    }
    REQUIRE_EQ(p.payload.count, r.pay_len, "payload length");
    REQUIRE_EQ(p.payload.offset, r.pay_off, "payload offset");
    REQUIRE(view.contains(p.payload), "payload lies outside of the packet");
    const auto rate = w.map->rtp_clock_rate(h.payload_type);
    REQUIRE(rate.is_some() && rate.unwrap().count() == *w.ref[r.pt], "clock rate of payload type ", r.pt);
}

void put(Bytes& b, uint32_t v, size_t n) {
    for (size_t i = n; i-- > 0;) {
        b.push_back(static_cast<uint8_t>(v >> (8 * i)));
    }
}

Bytes encode(pbt::Src& s, const World& w) {
    unsigned pt = s.below(128);
    if (s.chance(9, 10)) {
        for (unsigned i = 0; i < 128 && !w.ref[pt]; ++i) {
            pt = (pt + 1) % 128;
        }
    }
    const unsigned cc = s.flip() ? 0 : s.below(16);
    const bool ext = s.flip(), pad = s.flip();
    Bytes b;
    b.push_back(static_cast<uint8_t>(0x80 | (pad ? 0x20 : 0) | (ext ? 0x10 : 0) | cc));
    b.push_back(static_cast<uint8_t>((s.flip() ? 0x80 : 0) | pt));
    put(b, s.u16(), 2);
    put(b, s.u32(), 4);
    put(b, s.u32(), 4);
    for (unsigned i = 0; i < cc; ++i) {
        put(b, s.u32(), 4);
    }
    if (ext) {
        size_t words = s.len(12);
        if (s.chance(1, 400)) {
            words = s.one_of<size_t>({255, 256, 16383, 16384, 32767, 32768, 65534, 65535});
        }
        put(b, s.u16(), 2);
        put(b, static_cast<uint32_t>(words), 2);
        if (words > 100) {
            b.resize(b.size() + 4 * words, static_cast<uint8_t>(s.u8()));
        } else {
            const auto d = s.bytes(4 * words);
            b.insert(b.end(), d.begin(), d.end());
        }
    }
    const auto pay = s.bytes(s.len(40));
    b.insert(b.end(), pay.begin(), pay.end());
    if (pad) {
        size_t n = 1 + s.len(20);
        if (s.chance(1, 20)) {
            n = s.one_of<size_t>({127, 128, 254, 255});
        }
        b.resize(b.size() + n - 1, static_cast<uint8_t>(s.u8()));
        b.push_back(static_cast<uint8_t>(n));
    }
    return b;
}

void spoil(pbt::Src& s, Bytes& b) {
    for (auto n = s.below(4); n > 0; --n) {
        switch (s.below(7)) {
        case 6: // a padding count around the end of the payload, the extension, the header
            if (!b.empty()) {
                b[0] |= 0x20;
                b.back() = static_cast<uint8_t>(s.below(std::min<size_t>(b.size() + 2, 256)));
            }
            break;
        case 0:
            b.resize(s.below(b.size() + 1));
            break;
        case 1:
            b.resize(b.size() + 1 + s.below(8), s.u8());
            break;
        case 2:
            if (!b.empty()) {
                b[s.below(b.size())] = s.u8();
            }
            break;
        case 3:
            if (!b.empty()) {
                b[0] ^= static_cast<uint8_t>(1u << s.below(8));
            }
            break;
        case 4:
            if (!b.empty()) {
                b.back() = static_cast<uint8_t>(s.flip() ? s.below(64) : s.u8());
            }
            break;
        default:
            if (b.size() >= 2) {
                b[1] ^= static_cast<uint8_t>(1u << s.below(8));
            }
        }
    }
}

}

PBT_TEST(encoded, 800000, 16000000) {
    const World w = world(s);
    rtp::ParseStat stat;
    judge(s, w, encode(s, w), stat);
}

PBT_TEST(spoiled, 800000, 16000000) {
    const World w = world(s);
    auto b = encode(s, w);
    spoil(s, b);
    rtp::ParseStat stat;
    judge(s, w, b, stat);
}

// Counters of one table over a history of packets.
PBT_TEST(histories, 40000, 800000) {
    const World w = world(s);
    rtp::ParseStat stat;
    const auto n = 1 + s.len(30);
    for (size_t i = 0; i < n; ++i) {
        auto b = encode(s, w);
        if (s.flip()) {
            spoil(s, b);
        }
        judge(s, w, b, stat);
    }
    const auto c = counters(stat);
    REQUIRE_EQ(c[0] + c[1], unsigned(n), "successes and errors against packets");
    REQUIRE_EQ(c[2] + c[3] + c[4] + c[5] + c[6] + c[7] + c[8], c[1], "reasons against errors");
}

// The two leading octets of a packet exhaustively, at three lengths.
PBT_EXHAUSTIVE(first_octets, 65536) {
    const auto v = s.below(65536);
    World w;
    w.map = std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{item(0, 8000), item(64, 1), item(127, 48000)});
    w.ref[0] = 8000;
    w.ref[64] = 1;
    w.ref[127] = 48000;
    rtp::ParseStat stat;
    for (size_t len : {2u, 12u, 16u, 24u, 71u, 72u, 76u, 80u, 200u}) {
        Bytes b(len, 0x01);
        b[0] = static_cast<uint8_t>(v >> 8);
        b[1] = static_cast<uint8_t>(v);
        b.back() = 5;
        judge(s, w, b, stat);
    }
}

PBT_FUZZ(octets, 400000, 8000000) {
    World w;
    w.map = std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{item(0, 8000), item(96, 90000), item(127, 48000)});
    w.ref[0] = 8000;
    w.ref[96] = 90000;
    w.ref[127] = 48000;
    Bytes b = s.bytes(s.len(120));
    if (!b.empty() && s.chance(3, 4)) {
        b[0] = static_cast<uint8_t>(0x80 | (b[0] & 0x3f));
    }
    rtp::ParseStat stat;
    judge(s, w, b, stat);
}
