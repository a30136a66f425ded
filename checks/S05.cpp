// S05: MESSAGE-INTEGRITY.
#include "stun_gen.hpp"

using namespace ref;

PBT_RULE("messages with MESSAGE-INTEGRITY built by the library and by an independent encoder are checked with the right "
         "and with other passwords, with any bit of what is covered flipped, with attributes and FINGERPRINT after it; "
         "the verdict is compared with an independent HMAC-SHA1; non-trivial: the message parses and carries "
         "MESSAGE-INTEGRITY");

namespace {

// What the library says about the message: none, wrong, right.
int verdict(pbt::Src& s, const Bytes& b, const std::string& password) {
    st::ParseStat stat;
    const Exact x(b, s.below(4));
    const auto r = st::Message::parse(x.view(), stat);
    REQUIRE(r.is_ok(), "refused: ", r.unwrap_err().code().message(), " ", pbt::hex(b));
    const auto v = r.unwrap().is_valid(x.view(), integrity(password));
    REQUIRE(v.is_ok(), "cannot be checked: ", v.unwrap_err().code().message());
    const auto mv = v.unwrap();
    return mv.is_some() ? (mv.unwrap() ? 2 : 1) : 0;
}

// The same by the reference.
int reference(const Bytes& b, const std::string& password) {
    const Decoded d = decode(b);
    if (!d.integrity_at) {
        return 0;
    }
    const Bytes upto(b.begin(), b.begin() + static_cast<long>(*d.integrity_at));
    return integrity_of(upto, bytes(password)) == d.first(INTEGRITY)->value ? 2 : 1;
}

std::string other(pbt::Src& s, const std::string& p) {
    std::string q = p;
    switch (s.below(5)) {
    case 0:
        q += static_cast<char>(1 + s.below(255));
        break;
    case 1:
        if (!q.empty()) {
            q[s.below(q.size())] ^= static_cast<char>(1u << s.below(8));
        }
        break;
    case 2:
        if (!q.empty()) {
            q.pop_back();
        }
        break;
    case 3:
        for (auto& c : q) {
            c = static_cast<char>(c ^ 0x20);
        }
        break;
    default:
        q = gen_password(s);
    }
    return q;
}

// HMAC keys of up to 64 octets are padded with zeros: such keys are one key.
Bytes norm(const std::string& p) {
    Bytes k = p.size() > 64 ? sha1(bytes(p)) : bytes(p);
    k.resize(64);
    return k;
}

}

PBT_TEST(built, 100000, 3000000) {
    Plan p = gen_plan(s);
    if (p.tid.size() == 16) {
        p.cls = 0;
    }
    if (!p.password) {
        p.password = gen_password(s);
    }
    const Bytes b = p.build().unwrap();
    check_built(p, b);
    s.note("message ", pbt::hex(b), " password ", pbt::quote(*p.password));
    REQUIRE_EQ(verdict(s, b, *p.password), 2, "verdict with the right password");
    const std::string q = other(s, *p.password);
    REQUIRE_EQ(verdict(s, b, q), norm(q) == norm(*p.password) ? 2 : 1, "verdict with password ", pbt::quote(q));
    s.nontrivial();
}

PBT_TEST(encoded, 120000, 4000000) {
    const Bytes tid = gen_tid(s, s.chance(1, 8));
    Bytes b = header(msg_type(tid.size() == 16 ? 0 : s.below(4), 1), tid);
    auto some = [&](size_t max) {
        for (auto n = s.len(max); n > 0; --n) {
            auto t = gen_type(s);
            if (t == FINGERPRINT || t == INTEGRITY) {
                t = SOFTWARE;
            }
            put_attr(b, gen_good(s, t, tid), s.u8());
        }
        fix_len(b);
    };
    some(6);
    const std::string password = gen_password(s);
    const bool has = s.chance(7, 8);
    if (has) {
        add_integrity(b, bytes(password));
        if (s.chance(1, 3)) {
            some(3);
        }
        if (s.chance(1, 5)) { // another one: to be ignored
            add_integrity(b, s.flip() ? bytes(password) : s.bytes(3));
        }
    }
    if (s.flip()) {
        add_fingerprint(b);
    }
    s.note("message ", pbt::hex(b), " password ", pbt::quote(password));
    REQUIRE_EQ(verdict(s, b, password), has ? 2 : 0, "verdict on ", pbt::hex(b));
    if (has) {
        const std::string q = other(s, password);
        REQUIRE_EQ(verdict(s, b, q), reference(b, q), "verdict with password ", pbt::quote(q), " on ", pbt::hex(b));
        s.nontrivial();
    }
}

PBT_TEST(tampered, 200000, 6000000) {
    Plan p = gen_plan(s, false);
    if (!p.password) {
        p.password = gen_password(s);
    }
    const bool fp = p.fingerprint;
    Bytes b = p.build().unwrap();
    const Bytes before = b;
    // the last octet of FINGERPRINT is made right afterwards: an attacker can
    const size_t end = b.size() - (fp ? 8 : 0);
    for (auto n = 1 + s.below(3); n > 0; --n) {
        size_t at = s.below(end);
        if (s.flip()) { // the digest itself, or what identifies the message
            at = s.flip() ? end - 1 - s.below(20) : s.below(20);
        }
        b[at] ^= static_cast<uint8_t>(s.flip() ? 1u << s.below(8) : 1 + s.below(255));
    }
    if (fp) {
        b.resize(end);
        add_fingerprint(b);
    }
    const Decoded d = decode(b);
    if (!d.ok() || d.is_vague()) {
        s.label("no longer a message");
        return;
    }
    s.note("message ", pbt::hex(b), " made of ", pbt::hex(before), " password ", pbt::quote(*p.password));
    const int v = verdict(s, b, *p.password);
    REQUIRE_EQ(v, reference(b, *p.password), "verdict on ", pbt::hex(b));
    if (d.integrity_at) {
        // the length is not covered (the digest is made for its own)
        Bytes x(b.begin(), b.begin() + static_cast<long>(end)), y(before.begin(), before.begin() + static_cast<long>(end));
        if (x != y) {
            REQUIRE(v != 2 || get(b, 2, 2) != get(before, 2, 2), "a changed message is taken as right");
        }
        s.nontrivial();
    }
}

// Long messages: the digest covers, and its length counts, all of them.
PBT_TEST(long_messages, 6000, 100000) {
    const Bytes tid = gen_tid(s, s.chance(1, 8));
    const unsigned cls = tid.size() == 16 ? 0 : static_cast<unsigned>(s.below(4));
    // sizes around the powers of two and up to the largest
    const size_t total = s.flip() ? (size_t{1} << (8 + s.below(8))) - 64 + 4 * s.below(32) : 4 * s.below(16370);
    const unsigned pieces = 1 + static_cast<unsigned>(s.below(4));
    const uint8_t octet = s.u8();
    const std::string password = gen_password(s);
    Plan p;
    p.cls = cls;
    p.tid = tid;
    p.password = password;
    Bytes b = header(msg_type(cls, 1), tid);
    size_t left = std::min<size_t>(total, 65480);
    for (unsigned i = 0; i < pieces && left > 4; ++i) {
        size_t n = i + 1 == pieces ? left - 4 : s.below(left - 4);
        left -= std::min(left, 4 + (n + 3) / 4 * 4);
        Bytes v(n, octet);
        if (n > 8) {
            v[n / 2] = static_cast<uint8_t>(octet + 1 + i);
        }
        const uint16_t type = static_cast<uint16_t>((i % 2 ? 0x7abc : 0x8abc) + i);
        put_attr(b, Attr{type, v});
        p.unknown.emplace_back(st::AttributeType::from_uint16(type), ConstBinaryView(v));
        p.expected.push_back(Attr{type, v});
    }
    fix_len(b);
    s.note("a message of ", b.size(), " octets, password ", pbt::quote(password));
    const size_t plain = b.size();
    if (s.flip() && tid.size() != 16) {
        p.fingerprint = s.flip();
        if (p.fingerprint) {
            p.values.push_back(st::FingerprintAttribute{});
        }
        b = p.build().unwrap();
        check_built(p, b);
    } else {
        add_integrity(b, bytes(password));
        if (s.chance(1, 3) && b.size() < 65000) {
            put_attr(b, Attr{SOFTWARE, Bytes(s.below(65500 - b.size()), 's')});
            fix_len(b);
        }
        if (s.flip()) {
            add_fingerprint(b);
        }
    }
    REQUIRE_EQ(verdict(s, b, password), 2, "verdict with the right password on ", b.size(), " octets");
    const std::string q = other(s, password);
    REQUIRE_EQ(verdict(s, b, q), norm(q) == norm(password) ? 2 : 1, "verdict with password ", pbt::quote(q));
    // one octet of a value or of the digest
    const auto d = decode(b);
    const size_t at = s.flip() ? plain + 4 + s.below(20) : plain > 28 ? 24 + s.below(plain - 28) : 0;
    if (at > 0 && !d.is_vague()) {
        Bytes c = b;
        c[at] ^= static_cast<uint8_t>(1u << s.below(8));
        if (d.fingerprint_at) {
            c.resize(c.size() - 8);
            add_fingerprint(c);
        }
        const Decoded e = decode(c);
        if (e.ok() && !e.is_vague()) {
            REQUIRE_EQ(verdict(s, c, password), reference(c, password), "verdict with octet ", at, " changed");
        }
    }
    s.label(b.size() > 16384 ? "over 16 KiB" : b.size() > 1024 ? "over 1 KiB" : "up to 1 KiB");
    s.nontrivial();
}

PBT_TEST(without, 30000, 600000) {
    Plan p = gen_plan(s, false);
    p.password.reset();
    const Bytes b = p.build().unwrap();
    s.note("message ", pbt::hex(b));
    REQUIRE_EQ(verdict(s, b, gen_password(s)), 0, "verdict on a message without MESSAGE-INTEGRITY");
}

// Whatever parses can be checked, and is found as the reference finds it.
PBT_FUZZ(octets, 100000, 2000000) {
    Bytes b = s.bytes(s.len(120));
    if (b.size() < 20) {
        pbt::discard();
    }
    b.resize(20 + (b.size() - 20) / 4 * 4);
    b[0] &= 0x3f;
    b[4] = 0x21;
    b[5] = 0x12;
    b[6] = 0xa4;
    b[7] = 0x42;
    fix_len(b);
    const Bytes key = s.bytes(s.below(4));
    if (s.flip()) {
        add_integrity(b, key);
        append(b, s.bytes(4 * s.below(4)));
        fix_len(b);
    }
    st::ParseStat stat;
    const Exact x(b);
    const auto r = st::Message::parse(x.view(), stat);
    s.note("message ", pbt::hex(b));
    if (r.is_err()) {
        return;
    }
    REQUIRE_EQ(verdict(s, b, text(key)), reference(b, text(key)), "verdict on ", pbt::hex(b));
    if (decode(b).integrity_at) {
        s.nontrivial();
    }
}

// A hash function that fails is reported, not taken for a verdict.
PBT_TEST(failing_hash, 20000, 200000) {
    Plan p = gen_plan(s, false);
    if (!p.password) {
        p.password = gen_password(s);
    }
    const Bytes b = p.build().unwrap();
    st::ParseStat stat;
    const Exact x(b);
    const auto m = st::Message::parse(x.view(), stat).unwrap();
    const auto when = s.below(4);
    unsigned calls = 0;
    const auto boom = std::make_error_code(std::errc::io_error);
    const fw::crypto::SHA1Hash::Func h = [&](const fw::crypto::SHA1Hash::Input& in) -> fw::crypto::SHA1Hash::Result {
        if (calls++ == when) {
            return boom;
        }
        return sha1_func(in);
    };
    s.note("hash fails at call ", when);
    auto id = integrity(*p.password);
    id.hash = h;
    const auto v = m.is_valid(x.view(), id);
    REQUIRE_EQ(v.is_err(), when < 2, "a failing hash while checking");
    if (v.is_err()) {
        REQUIRE(v.unwrap_err().code() == boom, "error of the hash");
    } else {
        REQUIRE(v.unwrap().unwrap(), "verdict");
    }
    calls = 0;
    const auto out = p.message().build(id);
    REQUIRE_EQ(out.is_err(), when < 2, "a failing hash while building");
    calls = 0;
    const auto pw = st::Password::short_term(fw::precis::OpaqueString(std::string(65, 'x')), h);
    REQUIRE(pw.is_err() || calls <= when, "a failing hash for a long password");
    REQUIRE(when > 0 || pw.is_err(), "a long password was not hashed");
    s.nontrivial();
}
