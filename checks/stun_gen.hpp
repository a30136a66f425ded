// Generated attribute sets, as the library's values and as the octets they stand for.
#pragma once
#include "stun_ref.hpp"

namespace ref {

struct Plan {
    unsigned cls = 0, method = 1;
    Bytes tid;
    std::vector<st::Attribute::Value> values;
    std::vector<st::UnknownAttribute> unknown;
    std::vector<Attr> expected; // what must be in the message, FINGERPRINT and MESSAGE-INTEGRITY aside
    bool fingerprint = false;
    std::optional<std::string> password;

    st::TransactionId id() const { return st::TransactionId(ConstBinaryView(tid)); }
    st::Message message() const {
        return st::Message{
            st::Header{make_cls(cls), st::Method::from_msg_type(msg_type(0, method)), id()},
            st::AttributeSet::create(std::vector<st::Attribute::Value>(values), std::vector<st::UnknownAttribute>(unknown)),
            st::IsRFC3489{tid.size() == 16},
            fw::none()};
    }
    fw::Result<Bytes> build() const {
        if (password) {
            return message().build(integrity(*password));
        }
        return message().build();
    }
};

inline std::string gen_password(pbt::Src& s) {
    size_t n = s.len(40);
    if (s.chance(1, 5)) {
        n = s.one_of<size_t>({0, 63, 64, 65, 66, 127, 128, 200});
    }
    return text(s.bytes(n));
}

inline Plan gen_plan(pbt::Src& s, bool allow_old = true) {
    Plan p;
    p.cls = static_cast<unsigned>(s.below(4));
    p.method = s.flip() ? 1 : static_cast<unsigned>(s.below(4096));
    p.tid = gen_tid(s, allow_old && s.chance(1, 8));
    const st::TransactionId tid = p.id();
    auto expect = [&](uint16_t t, Bytes v) {
        for (const auto& a : p.expected) {
            if (a.type == t) {
                return; // the first one is kept
            }
        }
        p.expected.push_back(Attr{t, std::move(v)});
    };
    for (auto n = s.len(14); n > 0; --n) {
        switch (s.below(12)) {
        case 0: {
            const Addr a = gen_addr(s);
            if (a.ip.size() == 16 && p.tid.size() == 16) {
                break; // XOR-MAPPED-ADDRESS goes with 96-bit ids
            }
            p.values.push_back(st::XorMappedAddressAttribute{st::XoredAddress::from_address(address(a.ip), tid), fw::net::Port(a.port)});
            expect(XOR_MAPPED, xor_mapped(a, Bytes(p.tid.begin(), p.tid.begin() + 12)));
            break;
        }
        case 1: {
            const Addr a = gen_addr(s);
            p.values.push_back(st::MappedAddressAttribute{address(a.ip), fw::net::Port(a.port)});
            expect(MAPPED, mapped(a));
            break;
        }
        case 2: {
            const Bytes v = gen_text(s, 60);
            p.values.push_back(st::UsernameAttribute{fw::precis::OpaqueString(text(v))});
            expect(USERNAME, v);
            break;
        }
        case 3: {
            const Bytes v = gen_text(s, 60);
            p.values.push_back(st::SoftwareAttribute{text(v)});
            expect(SOFTWARE, v);
            break;
        }
        case 4: {
            const auto v = s.u32();
            p.values.push_back(st::PriorityAttribute{v});
            Bytes b;
            put(b, v, 4);
            expect(PRIORITY, b);
            break;
        }
        case 5: {
            const auto v = s.u64();
            p.values.push_back(st::IceControllingAttribute{v});
            Bytes b;
            put(b, v, 8);
            expect(CONTROLLING, b);
            break;
        }
        case 6: {
            const auto v = s.u64();
            p.values.push_back(st::IceControlledAttribute{v});
            Bytes b;
            put(b, v, 8);
            expect(CONTROLLED, b);
            break;
        }
        case 7:
            p.values.push_back(st::UseCandidateAttribute{});
            expect(USE_CANDIDATE, {});
            break;
        case 8: {
            st::UnknownAttributesAttribute a;
            Bytes b;
            for (auto k = s.len(8); k > 0; --k) {
                const auto t = s.u16();
                a.types.push_back(st::AttributeType::from_uint16(t));
                put(b, t, 2);
            }
            p.values.push_back(std::move(a));
            expect(UNKNOWN_ATTRS, b);
            break;
        }
        case 9: {
            const auto cls = static_cast<unsigned>(s.below(8)), num = static_cast<unsigned>(s.below(100));
            Bytes b;
            put(b, cls, 3);
            put(b, num, 1);
            st::ErrorCodeAttribute a{cls * 100 + num, fw::none()};
            if (s.flip()) {
                const Bytes reason = gen_text(s, 50);
                a.reason_phrase = text(reason);
                append(b, reason);
            }
            p.values.push_back(std::move(a));
            expect(ERROR_CODE, b);
            break;
        }
        case 10: {
            const Addr a = gen_addr(s);
            p.values.push_back(st::AlternateServerAttribute{address(a.ip), fw::net::Port(a.port)});
            expect(ALTERNATE, mapped(a));
            break;
        }
        default: {
            const auto t = static_cast<uint16_t>(gen_type(s));
            if (is_known(t)) {
                break;
            }
            const Bytes v = gen_text(s, 30);
            p.unknown.emplace_back(st::AttributeType::from_uint16(t), ConstBinaryView(v));
            p.expected.push_back(Attr{t, v});
        }
        }
    }
    p.fingerprint = s.flip();
    if (p.fingerprint) {
        p.values.insert(p.values.begin() + static_cast<long>(s.below(p.values.size() + 1)), st::FingerprintAttribute{s.u32()});
    }
    if (s.flip()) {
        p.password = gen_password(s);
    }
    return p;
}

inline std::string show(const Plan& p) {
    std::ostringstream os;
    os << "class " << p.cls << " method " << p.method << " id " << pbt::hex(p.tid);
    for (const auto& a : p.expected) {
        os << " attr 0x" << std::hex << a.type << std::dec << "=" << pbt::hex(a.value);
    }
    if (p.fingerprint) {
        os << " fingerprint";
    }
    if (p.password) {
        os << " password " << pbt::quote(*p.password);
    }
    return os.str();
}

// The message must consist of exactly the planned attributes, then
// MESSAGE-INTEGRITY, then FINGERPRINT, both right.
inline Decoded check_built(const Plan& p, const Bytes& b) {
    REQUIRE(b.size() >= 20, "shorter than a header: ", pbt::hex(b));
    Decoded d = decode(b);
    for (unsigned f = 0; f < F_COUNT; ++f) {
        const bool allowed = f == F_COOKIE && p.tid.size() == 16;
        REQUIRE(!d.faults[f] || allowed, "the built message has fault ", f, ": ", pbt::hex(b));
    }
    REQUIRE_EQ(get(b, 0, 2), uint64_t(msg_type(p.cls, p.method)), "message type");
    REQUIRE(Bytes(b.begin() + (p.tid.size() == 16 ? 4 : 8), b.begin() + 20) == p.tid, "transaction id");
    REQUIRE_EQ(get(b, 2, 2), uint64_t(b.size() - 20), "message length");
    std::vector<Attr> got = d.attrs;
    REQUIRE_EQ(d.fingerprint_at.has_value(), p.fingerprint, "FINGERPRINT");
    if (p.fingerprint) {
        REQUIRE(!got.empty() && got.back().type == FINGERPRINT && got.back().value.size() == 4, "FINGERPRINT is not last");
        got.pop_back();
    }
    REQUIRE_EQ(d.integrity_at.has_value(), p.password.has_value(), "MESSAGE-INTEGRITY");
    if (p.password) {
        REQUIRE(!got.empty() && got.back().type == INTEGRITY, "MESSAGE-INTEGRITY is not last");
        REQUIRE_EQ(*d.integrity_at + 24 + (p.fingerprint ? 8 : 0), b.size(), "something follows MESSAGE-INTEGRITY");
        const Bytes upto(b.begin(), b.begin() + static_cast<long>(*d.integrity_at));
        const Bytes& pw = bytes(*p.password);
        REQUIRE(got.back().value == integrity_of(upto, pw), "MESSAGE-INTEGRITY is ", pbt::hex(got.back().value), " expected ",
                pbt::hex(integrity_of(upto, pw)), " in ", pbt::hex(b));
        got.pop_back();
    }
    // the others in any order, but unknown ones of one type in theirs
    auto want = p.expected;
    auto less = [](const Attr& a, const Attr& c) { return a.type < c.type; };
    std::stable_sort(got.begin(), got.end(), less);
    std::stable_sort(want.begin(), want.end(), less);
    REQUIRE_EQ(got.size(), want.size(), "number of attributes in ", pbt::hex(b));
    for (size_t i = 0; i < got.size(); ++i) {
        REQUIRE_EQ(got[i].type, want[i].type, "type of an attribute in ", pbt::hex(b));
        REQUIRE(got[i].value == want[i].value, "attribute ", got[i].type, " is ", pbt::hex(got[i].value), " expected ",
                pbt::hex(want[i].value));
    }
    return d;
}

}
