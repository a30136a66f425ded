// Independent model of STUN messages (RFC 5389, RFC 8445 attributes, RFC 3489
// requests): encoder, decoder, CRC-32, HMAC-SHA1 and XOR mapping. Written from
// the RFCs, shares nothing with the code under test.
#pragma once

#include <algorithm>
#include <array>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include <openssl/evp.h>
#include <openssl/hmac.h>

#include "net/ip/ip_address.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_message.hpp"
#include "util/util_variant_overloaded.hpp"
#include "pbt.hpp"

namespace ref {

using Bytes = std::vector<uint8_t>;
namespace fw = freewebrtc;
namespace st = freewebrtc::stun;
using fw::util::ConstBinaryView;

enum : uint16_t {
    MAPPED = 0x0001, USERNAME = 0x0006, INTEGRITY = 0x0008, ERROR_CODE = 0x0009, UNKNOWN_ATTRS = 0x000A,
    XOR_MAPPED = 0x0020, PRIORITY = 0x0024, USE_CANDIDATE = 0x0025, SOFTWARE = 0x8022, ALTERNATE = 0x8023,
    FINGERPRINT = 0x8028, CONTROLLED = 0x8029, CONTROLLING = 0x802A
};

inline const std::array<uint16_t, 13>& known_types() {
    static const std::array<uint16_t, 13> t{MAPPED, USERNAME, INTEGRITY, ERROR_CODE, UNKNOWN_ATTRS, XOR_MAPPED,
        PRIORITY, USE_CANDIDATE, SOFTWARE, ALTERNATE, FINGERPRINT, CONTROLLED, CONTROLLING};
    return t;
}
inline bool is_known(uint16_t t) {
    const auto& k = known_types();
    return std::find(k.begin(), k.end(), t) != k.end();
}

inline void put(Bytes& b, uint64_t v, size_t n) {
    while (n-- > 0) {
        b.push_back(static_cast<uint8_t>(v >> (8 * n)));
    }
}
inline uint64_t get(const Bytes& b, size_t off, size_t n) {
    uint64_t v = 0;
    for (size_t i = 0; i < n; ++i) {
        v = (v << 8) | b[off + i];
    }
    return v;
}
inline void append(Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
inline Bytes bytes(std::string_view s) { return Bytes(s.begin(), s.end()); }
inline std::string text(const Bytes& b) { return std::string(b.begin(), b.end()); }
inline Bytes bytes(const ConstBinaryView& v) { return Bytes(v.begin(), v.end()); }

// A copy on the heap exactly as large as the content.
class Exact {
public:
    explicit Exact(const Bytes& b, size_t shift = 0)
        : m_mem(new uint8_t[b.size() + shift]), m_size(b.size()), m_shift(shift) {
        if (m_size != 0) {
            std::memcpy(m_mem.get() + shift, b.data(), m_size);
        }
    }
    ConstBinaryView view() const { return ConstBinaryView(m_mem.get() + m_shift, m_size); }
private:
    std::unique_ptr<uint8_t[]> m_mem;
    size_t m_size;
    size_t m_shift;
};

// Bit by bit, polynomial 0x04C11DB7 reflected.
inline uint32_t crc32(const uint8_t* p, size_t n) {
    uint32_t c = 0xffffffffu;
    for (size_t i = 0; i < n; ++i) {
        c ^= p[i];
        for (int k = 0; k < 8; ++k) {
            c = (c & 1) ? (c >> 1) ^ 0xedb88320u : c >> 1;
        }
    }
    return ~c;
}

inline Bytes hmac_sha1(const Bytes& key, const Bytes& data) {
    Bytes out(20);
    unsigned len = 0;
    static const uint8_t nothing = 0;
    ::HMAC(EVP_sha1(), key.empty() ? &nothing : key.data(), static_cast<int>(key.size()),
           data.empty() ? &nothing : data.data(), data.size(), out.data(), &len);
    return out;
}

inline Bytes sha1(const Bytes& data) {
    Bytes out(20);
    unsigned len = 0;
    EVP_Digest(data.data(), data.size(), out.data(), &len, EVP_sha1(), nullptr);
    return out;
}

// SHA-1 as the library takes it.
inline fw::crypto::SHA1Hash::Result sha1_func(const fw::crypto::SHA1Hash::Input& in) {
    Bytes all;
    for (const auto& v : in) {
        all.insert(all.end(), v.begin(), v.end());
    }
    const Bytes d = sha1(all);
    fw::crypto::SHA1Hash::Value v;
    std::copy(d.begin(), d.end(), v.begin());
    return fw::crypto::SHA1Hash(std::move(v));
}

inline st::IntegrityData integrity(const std::string& password) {
    return st::IntegrityData{
        st::Password::short_term(fw::precis::OpaqueString(password), fw::crypto::SHA1Hash::Func(sha1_func)).unwrap(),
        fw::crypto::SHA1Hash::Func(sha1_func)};
}

struct Addr {
    Bytes ip; // 4 or 16 octets
    uint16_t port = 0;
    bool operator==(const Addr&) const = default;
};

inline fw::net::ip::Address address(const Bytes& ip) {
    const ConstBinaryView v(ip.data(), ip.size());
    return ip.size() == 4 ? fw::net::ip::Address(fw::net::ip::AddressV4::from_view(v).unwrap())
                          : fw::net::ip::Address(fw::net::ip::AddressV6::from_view(v).unwrap());
}

// What the XOR mask is: the magic cookie followed by the transaction id.
inline Bytes mask(const Bytes& tid) {
    Bytes m{0x21, 0x12, 0xa4, 0x42};
    append(m, tid);
    m.resize(16);
    return m;
}

inline Bytes mapped(const Addr& a) {
    Bytes b;
    put(b, a.ip.size() == 4 ? 1 : 2, 2);
    put(b, a.port, 2);
    append(b, a.ip);
    return b;
}
inline Bytes xor_mapped(const Addr& a, const Bytes& tid) {
    Bytes b = mapped(a);
    b[2] ^= 0x21;
    b[3] ^= 0x12;
    const Bytes m = mask(tid);
    for (size_t i = 4; i < b.size(); ++i) {
        b[i] ^= m[i - 4];
    }
    return b;
}

struct Attr {
    uint16_t type;
    Bytes value;
    bool operator==(const Attr&) const = default;
};

inline uint16_t msg_type(unsigned cls, unsigned method) {
    return static_cast<uint16_t>((method & 0x000f) | ((method & 0x0070) << 1) | ((method & 0x0f80) << 2)
                                 | ((cls & 1) << 4) | ((cls & 2) << 7));
}

inline void put_attr(Bytes& b, const Attr& a, uint8_t pad = 0) {
    put(b, a.type, 2);
    put(b, a.value.size(), 2);
    append(b, a.value);
    while (b.size() % 4 != 0) {
        b.push_back(pad);
    }
}

inline void fix_len(Bytes& b, size_t extra = 0) {
    const size_t n = b.size() - 20 + extra;
    b[2] = static_cast<uint8_t>(n >> 8);
    b[3] = static_cast<uint8_t>(n);
}

inline Bytes header(uint16_t type, const Bytes& tid) {
    Bytes b;
    put(b, type, 2);
    put(b, 0, 2);
    if (tid.size() == 12) {
        put(b, 0x2112A442, 4);
    }
    append(b, tid);
    return b;
}

inline Bytes encode(uint16_t type, const Bytes& tid, const std::vector<Attr>& attrs, uint8_t pad = 0) {
    Bytes b = header(type, tid);
    for (const auto& a : attrs) {
        put_attr(b, a, pad);
    }
    fix_len(b);
    return b;
}

// Digest over the message so far, with the length it has once the attribute is added.
inline Bytes integrity_of(const Bytes& upto, const Bytes& key) {
    Bytes x = upto;
    fix_len(x, 24);
    return hmac_sha1(key, x);
}
inline void add_integrity(Bytes& b, const Bytes& key) {
    put_attr(b, Attr{INTEGRITY, integrity_of(b, key)});
    fix_len(b);
}
inline void add_fingerprint(Bytes& b) {
    fix_len(b, 8);
    Bytes v;
    put(v, crc32(b.data(), b.size()) ^ 0x5354554eu, 4);
    put_attr(b, Attr{FINGERPRINT, v});
    fix_len(b);
}

// Reasons to refuse a message.
enum Fault : unsigned {
    F_SIZE, F_TYPE, F_NOT_PADDED, F_LENGTH, F_COOKIE, F_ATTR, F_FP_NOT_LAST, F_FP_INVALID, F_FP_SIZE, F_MI_SIZE,
    F_MAPPED, F_XOR_MAPPED, F_FAMILY, F_ADDRESS, F_PRIORITY, F_CONTROLLING, F_CONTROLLED, F_USE_CANDIDATE,
    F_ERROR_CODE, F_UNKNOWN_ATTRS, F_COUNT
};

struct Decoded {
    bool faults[F_COUNT] = {};
    // Present, but a decoder may take it or leave it: duplicates that are
    // malformed, values longer than their type has.
    bool vague[F_COUNT] = {};
    unsigned cls = 0;
    unsigned method = 0;
    bool rfc3489 = false;
    Bytes tid;
    std::vector<Attr> attrs; // in order, without what follows MESSAGE-INTEGRITY
    std::optional<size_t> integrity_at;
    std::optional<size_t> fingerprint_at;

    bool ok() const { return std::none_of(faults, faults + F_COUNT, [](bool f) { return f; }); }
    bool is_vague() const { return std::any_of(vague, vague + F_COUNT, [](bool f) { return f; }); }
    const Attr* first(uint16_t type) const {
        for (const auto& a : attrs) {
            if (a.type == type) {
                return &a;
            }
        }
        return nullptr;
    }
    std::vector<uint16_t> unknown_required() const {
        std::vector<uint16_t> out;
        for (const auto& a : attrs) {
            if (!is_known(a.type) && a.type < 0x8000) {
                out.push_back(a.type);
            }
        }
        return out;
    }
};

inline void check_value(const Attr& a, bool duplicate, Decoded& d) {
    auto bad = [&](Fault f) { (duplicate ? d.vague : d.faults)[f] = true; };
    auto sized = [&](size_t n, Fault f) {
        if (a.value.size() < n) {
            bad(f);
        } else if (a.value.size() > n) {
            d.vague[f] = true;
        }
    };
    switch (a.type) {
    case MAPPED:
    case ALTERNATE:
    case XOR_MAPPED:
        if (a.value.size() < 4) {
            bad(a.type == XOR_MAPPED ? F_XOR_MAPPED : F_MAPPED);
        } else if (a.value[1] != 1 && a.value[1] != 2) {
            bad(F_FAMILY);
        } else if (a.value.size() != (a.value[1] == 1 ? 8u : 20u)) {
            bad(F_ADDRESS);
        }
        break;
    case INTEGRITY:
        if (a.value.size() != 20) {
            bad(F_MI_SIZE);
        }
        break;
    case FINGERPRINT:
        sized(4, F_FP_SIZE);
        break;
    case PRIORITY:
        sized(4, F_PRIORITY);
        break;
    case CONTROLLING:
        sized(8, F_CONTROLLING);
        break;
    case CONTROLLED:
        sized(8, F_CONTROLLED);
        break;
    case USE_CANDIDATE:
        if (!a.value.empty()) {
            bad(F_USE_CANDIDATE);
        }
        break;
    case ERROR_CODE:
        if (a.value.size() < 4) {
            bad(F_ERROR_CODE);
        }
        break;
    case UNKNOWN_ATTRS:
        if (a.value.size() % 2 != 0) {
            bad(F_UNKNOWN_ATTRS);
        }
        break;
    default:
        break;
    }
}

inline Decoded decode(const Bytes& b) {
    Decoded d;
    if (b.size() < 20) {
        d.faults[F_SIZE] = true;
        return d;
    }
    const auto type = static_cast<unsigned>(get(b, 0, 2));
    const auto len = static_cast<size_t>(get(b, 2, 2));
    d.faults[F_TYPE] = (type & 0xc000) != 0;
    d.cls = ((type >> 4) & 1) | ((type >> 7) & 2);
    d.method = (type & 0xf) | ((type >> 1) & 0x70) | ((type >> 2) & 0xf80);
    d.faults[F_NOT_PADDED] = len % 4 != 0;
    d.faults[F_LENGTH] = len != b.size() - 20;
    const bool cookie = get(b, 4, 4) == 0x2112A442;
    d.rfc3489 = !cookie && d.cls == 0;
    d.faults[F_COOKIE] = !cookie && d.cls != 0;
    d.tid = d.rfc3489 ? Bytes(b.begin() + 4, b.begin() + 20) : Bytes(b.begin() + 8, b.begin() + 20);
    size_t at = 20;
    while (at < b.size()) {
        if (b.size() - at < 4 || b.size() - at - 4 < get(b, at + 2, 2)) {
            d.faults[F_ATTR] = true;
            break;
        }
        const auto t = static_cast<uint16_t>(get(b, at, 2));
        const auto n = static_cast<size_t>(get(b, at + 2, 2));
        const size_t next = at + 4 + (n + 3) / 4 * 4;
        Attr a{t, Bytes(b.begin() + static_cast<long>(at + 4), b.begin() + static_cast<long>(at + 4 + n))};
        if (t == FINGERPRINT) {
            if (next < b.size()) {
                d.faults[F_FP_NOT_LAST] = true;
            } else {
                d.fingerprint_at = at;
                check_value(a, false, d);
                if (n >= 4 && get(a.value, 0, 4) != (crc32(b.data(), at) ^ 0x5354554eu)) {
                    d.faults[F_FP_INVALID] = true;
                }
                d.attrs.push_back(std::move(a));
            }
        } else if (!d.integrity_at) {
            check_value(a, d.first(t) != nullptr, d);
            if (t == INTEGRITY) {
                d.integrity_at = at;
            }
            d.attrs.push_back(std::move(a));
        }
        at = next;
    }
    return d;
}

inline unsigned cls_of(const st::Class& c) {
    switch (c.value()) {
    case st::Class::REQUEST: return 0;
    case st::Class::INDICATION: return 1;
    case st::Class::SUCCESS_RESPONSE: return 2;
    case st::Class::ERROR_RESPONSE: return 3;
    }
    return 99;
}
inline st::Class make_cls(unsigned c) {
    switch (c) {
    case 0: return st::Class::request();
    case 1: return st::Class::indication();
    case 2: return st::Class::success_response();
    default: return st::Class::error_response();
    }
}

inline Bytes ip_octets(const fw::net::ip::Address& a) { return bytes(a.view()); }

inline Addr addr_of(const Attr& a) {
    return Addr{Bytes(a.value.begin() + 4, a.value.end()), static_cast<uint16_t>(get(a.value, 2, 2))};
}
inline Addr unxor(const Attr& a, const Bytes& tid) {
    Addr x = addr_of(a);
    x.port ^= 0x2112;
    const Bytes m = mask(tid);
    for (size_t i = 0; i < x.ip.size(); ++i) {
        x.ip[i] ^= m[i];
    }
    return x;
}

// Every attribute the library shows against the decoded message.
inline void same_attributes(const st::Message& m, const Decoded& d) {
    const auto& s = m.attribute_set;
    auto present = [&](uint16_t t, bool is, const char* what) {
        REQUIRE_EQ(is, d.first(t) != nullptr, what, " present");
        return is;
    };
    if (present(USERNAME, s.username().is_some(), "USERNAME")) {
        REQUIRE(bytes(s.username().unwrap().get().value) == d.first(USERNAME)->value, "USERNAME differs");
    }
    if (present(SOFTWARE, s.software().is_some(), "SOFTWARE")) {
        REQUIRE(bytes(s.software().unwrap().get()) == d.first(SOFTWARE)->value, "SOFTWARE differs");
    }
    if (present(INTEGRITY, s.integrity().is_some(), "MESSAGE-INTEGRITY")) {
        REQUIRE(bytes(s.integrity().unwrap().get().value.view()) == d.first(INTEGRITY)->value, "MESSAGE-INTEGRITY differs");
    }
    if (present(PRIORITY, s.priority().is_some(), "PRIORITY")) {
        REQUIRE_EQ(uint64_t(s.priority().unwrap().get()), get(d.first(PRIORITY)->value, 0, 4), "PRIORITY");
    }
    if (present(CONTROLLING, s.ice_controlling().is_some(), "ICE-CONTROLLING")) {
        REQUIRE_EQ(s.ice_controlling().unwrap().get(), get(d.first(CONTROLLING)->value, 0, 8), "ICE-CONTROLLING");
    }
    if (present(CONTROLLED, s.ice_controlled().is_some(), "ICE-CONTROLLED")) {
        REQUIRE_EQ(s.ice_controlled().unwrap().get(), get(d.first(CONTROLLED)->value, 0, 8), "ICE-CONTROLLED");
    }
    present(USE_CANDIDATE, s.has_use_candidate(), "USE-CANDIDATE");
    present(FINGERPRINT, s.has_fingerprint(), "FINGERPRINT");
    if (present(ERROR_CODE, s.error_code().is_some(), "ERROR-CODE")) {
        const auto& e = s.error_code().unwrap().get();
        const auto& v = d.first(ERROR_CODE)->value;
        if (v[3] < 100) { // larger numbers are not valid, their meaning is not specified
            REQUIRE_EQ(e.code, unsigned(v[2] & 7) * 100 + v[3], "code of ERROR-CODE");
        }
        REQUIRE(e.reason_phrase.is_some() || v.size() == 4, "no reason phrase");
        if (e.reason_phrase.is_some()) {
            REQUIRE(bytes(e.reason_phrase.unwrap()) == Bytes(v.begin() + 4, v.end()), "reason phrase differs");
        }
    }
    if (present(UNKNOWN_ATTRS, s.unknown_attributes().is_some(), "UNKNOWN-ATTRIBUTES")) {
        const auto& l = s.unknown_attributes().unwrap().get().types;
        const auto& v = d.first(UNKNOWN_ATTRS)->value;
        REQUIRE_EQ(l.size(), v.size() / 2, "number of UNKNOWN-ATTRIBUTES");
        for (size_t i = 0; i < l.size(); ++i) {
            REQUIRE_EQ(uint64_t(l[i].value()), get(v, 2 * i, 2), "UNKNOWN-ATTRIBUTES at ", i);
        }
    }
    if (present(MAPPED, s.mapped().is_some(), "MAPPED-ADDRESS")) {
        const auto& a = s.mapped().unwrap().get();
        REQUIRE((Addr{ip_octets(a.addr), a.port.value()} == addr_of(*d.first(MAPPED))), "MAPPED-ADDRESS differs");
    }
    if (present(ALTERNATE, s.alternate_server().is_some(), "ALTERNATE-SERVER")) {
        const auto& a = s.alternate_server().unwrap().get();
        REQUIRE((Addr{ip_octets(a.addr), a.port.value()} == addr_of(*d.first(ALTERNATE))), "ALTERNATE-SERVER differs");
    }
    if (present(XOR_MAPPED, s.xor_mapped().is_some(), "XOR-MAPPED-ADDRESS")) {
        const auto& a = s.xor_mapped().unwrap().get();
        const Attr& raw = *d.first(XOR_MAPPED);
        REQUIRE(bytes(a.addr.view()) == Bytes(raw.value.begin() + 4, raw.value.end()), "octets of XOR-MAPPED-ADDRESS");
        REQUIRE_EQ(unsigned(a.addr.family().to_uint8()), unsigned(raw.value[1]), "family of XOR-MAPPED-ADDRESS");
        const Addr want = unxor(raw, d.tid.size() == 12 ? d.tid : Bytes(d.tid.begin(), d.tid.begin() + 12));
        REQUIRE_EQ(a.port.value(), want.port, "port of XOR-MAPPED-ADDRESS");
        if (d.tid.size() == 12 || want.ip.size() == 4) {
            REQUIRE(ip_octets(a.addr.to_address(m.header.transaction_id)) == want.ip, "address of XOR-MAPPED-ADDRESS");
        }
    }
    const auto u = s.unknown_comprehension_required();
    const auto want = d.unknown_required();
    REQUIRE_EQ(u.size(), want.size(), "number of unknown comprehension-required attributes");
    for (size_t i = 0; i < u.size(); ++i) {
        REQUIRE_EQ(u[i].value(), want[i], "unknown comprehension-required attribute ", i);
    }
}

// --- generators -----------------------------------------------------------

inline Addr gen_addr(pbt::Src& s) {
    return Addr{s.bytes(s.flip() ? 4 : 16), s.u16()};
}
inline Bytes gen_tid(pbt::Src& s, bool old = false) {
    Bytes t = s.bytes(old ? 16 : 12);
    if (old && get(t, 0, 4) == 0x2112A442) {
        t[0] ^= 1;
    }
    return t;
}
inline Bytes gen_text(pbt::Src& s, size_t max) {
    if (s.chance(1, 30)) { // no longer than RFC 5389 allows
        return s.filler(s.big(max < 20 ? 3 * max : 509));
    }
    return s.bytes(s.len(max));
}

inline Attr gen_good(pbt::Src& s, uint16_t type, const Bytes& tid) {
    Attr a{type, {}};
    switch (type) {
    case MAPPED:
    case ALTERNATE:
        a.value = mapped(gen_addr(s));
        break;
    case XOR_MAPPED:
        a.value = xor_mapped(gen_addr(s), Bytes(tid.begin(), tid.begin() + 12));
        break;
    case USERNAME:
    case SOFTWARE:
        a.value = gen_text(s, 60);
        break;
    case INTEGRITY:
        a.value = s.bytes(20);
        break;
    case FINGERPRINT:
    case PRIORITY:
        a.value = s.bytes(4);
        break;
    case CONTROLLED:
    case CONTROLLING:
        a.value = s.bytes(8);
        break;
    case USE_CANDIDATE:
        break;
    case ERROR_CODE:
        put(a.value, (uint64_t(s.below(8)) << 8) | s.below(100), 4);
        append(a.value, gen_text(s, 40));
        break;
    case UNKNOWN_ATTRS:
        a.value = s.chance(1, 20) ? s.filler(2 * s.big(400)) : s.bytes(2 * s.len(12));
        break;
    default:
        a.value = gen_text(s, 40);
    }
    return a;
}

inline uint16_t gen_type(pbt::Src& s) {
    if (s.chance(1, 4)) {
        // neighbours of the registered ones, the border of the ranges, anything
        switch (s.below(4)) {
        case 0: return static_cast<uint16_t>(s.pick(known_types()) + (s.flip() ? 1 : -1));
        case 1: return s.one_of<uint16_t>({0x7fff, 0x8000, 0xffff, 0, 0x0014, 0x0016, 0x7ffe, 0x8001});
        case 2: return static_cast<uint16_t>(s.pick(known_types()) ^ 0x8000);
        default: return s.u16();
        }
    }
    return s.pick(known_types());
}

inline st::IsRFC3489 rfc3489(bool v) { return st::IsRFC3489{v}; }

}
