// K01: hash functions and HMAC.
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "node/openssl/node_openssl_hash.hpp"
#include "stun_ref.hpp"
#include <dlfcn.h>
#include <openssl/err.h>

using namespace ref;
namespace crypto = freewebrtc::crypto;

PBT_RULE("octet strings split into pieces (also empty ones) and keys of 0..300 octets, around the block size of 64, "
         "hashed and authenticated with MD5 and SHA-1 against one-shot libcrypto digests and HMAC; non-trivial: several "
         "pieces, or a key of more than 64 octets; and with the nth call to libcrypto failing, non-trivial: it was made");

// Failing calls to libcrypto: the countdown-th one made while a hash is computed.
namespace fault {
thread_local long countdown = 0;
thread_local bool raised = false;
thread_local bool reason = false;

bool now() {
    if (countdown == 0 || --countdown != 0) {
        return false;
    }
    raised = true;
    if (reason) {
        ERR_raise(ERR_LIB_EVP, ERR_R_MALLOC_FAILURE);
    }
    return true;
}

template<typename F>
F next(F, const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}

extern "C" {
EVP_MD_CTX* EVP_MD_CTX_new(void) {
    static const auto real = fault::next(&EVP_MD_CTX_new, "EVP_MD_CTX_new");
    return fault::now() ? nullptr : real();
}
int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* m, ENGINE* e) {
    static const auto real = fault::next(&EVP_DigestInit_ex, "EVP_DigestInit_ex");
    return fault::now() ? 0 : real(c, m, e);
}
int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) {
    static const auto real = fault::next(&EVP_DigestUpdate, "EVP_DigestUpdate");
    return fault::now() ? 0 : real(c, d, n);
}
int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* out, unsigned* n) {
    static const auto real = fault::next(&EVP_DigestFinal_ex, "EVP_DigestFinal_ex");
    return fault::now() ? 0 : real(c, out, n);
}
}

namespace {

struct Failing {
    Failing(long nth, bool reason) {
        fault::countdown = nth;
        fault::raised = false;
        fault::reason = reason;
    }
    ~Failing() {
        fault::countdown = 0;
    }
};

Bytes digest(const EVP_MD* md, const Bytes& b) {
    Bytes out(static_cast<size_t>(EVP_MD_get_size(md)));
    unsigned n = 0;
    EVP_Digest(b.data(), b.size(), out.data(), &n, md, nullptr);
    return out;
}

Bytes hmac(const EVP_MD* md, const Bytes& key, const Bytes& b) {
    static const uint8_t nothing = 0;
    Bytes out(static_cast<size_t>(EVP_MD_get_size(md)));
    unsigned n = 0;
    ::HMAC(md, key.empty() ? &nothing : key.data(), static_cast<int>(key.size()), b.empty() ? &nothing : b.data(), b.size(),
           out.data(), &n);
    return out;
}

struct Pieces {
    Bytes all;
    std::vector<std::unique_ptr<Exact>> mem;
    std::vector<ConstBinaryView> views;
};

Pieces pieces(pbt::Src& s) {
    Pieces p;
    for (auto n = s.len(8); n > 0; --n) {
        const Bytes b = s.bytes(s.len(s.chance(1, 8) ? 300 : 70));
        append(p.all, b);
        p.mem.push_back(std::make_unique<Exact>(b, s.below(4)));
        p.views.push_back(p.mem.back()->view());
    }
    return p;
}

size_t key_size(pbt::Src& s) {
    return s.flip() ? s.len(300) : s.one_of<size_t>({0, 1, 20, 32, 62, 63, 64, 65, 66, 127, 128, 129});
}

template<typename Hash>
void authenticate(const typename Hash::Func& h, const EVP_MD* md, const Bytes& key, const Pieces& p) {
    const Exact k(key);
    const auto i = crypto::hmac::IPadKey::from_key(k.view(), h);
    const auto o = crypto::hmac::OPadKey::from_key(k.view(), h);
    REQUIRE(i.is_ok() && o.is_ok(), "no key");
    const auto r = crypto::hmac::digest(p.views, o.unwrap(), i.unwrap(), h);
    REQUIRE(r.is_ok(), "no digest");
    const Bytes want = hmac(md, key, p.all);
    REQUIRE(bytes(r.unwrap().value.view()) == want, "digest is ", pbt::hex(bytes(r.unwrap().value.view())), " expected ",
            pbt::hex(want), " key ", pbt::hex(key), " of ", pbt::hex(p.all));
    // the padded keys: key, or its hash, with zeros, masked
    Bytes full = key.size() > 64 ? digest(md, key) : key;
    full.resize(64);
    const Bytes iv = bytes(i.unwrap().view()), ov = bytes(o.unwrap().view());
    REQUIRE(iv.size() == 64 && ov.size() == 64, "size of the padded keys");
    for (size_t n = 0; n < 64; ++n) {
        REQUIRE_EQ(unsigned(iv[n]), unsigned(full[n] ^ 0x36), "inner key at ", n);
        REQUIRE_EQ(unsigned(ov[n]), unsigned(full[n] ^ 0x5c), "outer key at ", n);
    }
    const auto copy = i.unwrap();
    REQUIRE(copy == i.unwrap(), "a copied key differs");
}

}

// Pieces, keys and numbers of pieces of any size.
PBT_TEST(large, 400, 6000) {
    Pieces p;
    const bool many = s.chance(1, 3);
    for (size_t n = many ? s.big(3000) : 1 + s.below(3); n > 0; --n) {
        const Bytes b = s.filler(many ? s.below(20) : s.big(3 << 20));
        append(p.all, b);
        p.mem.push_back(std::make_unique<Exact>(b, s.below(4)));
        p.views.push_back(p.mem.back()->view());
    }
    s.note(p.views.size(), " pieces of ", p.all.size(), " octets");
    auto same = [&](const auto& r, const EVP_MD* md, const char* what) {
        REQUIRE(r.is_ok(), "no ", what);
        REQUIRE(bytes(r.unwrap().view()) == digest(md, p.all), what, " of ", p.views.size(), " pieces of ", p.all.size(), " octets");
    };
    same(crypto::openssl::sha1(p.views), EVP_sha1(), "SHA-1");
    same(crypto::openssl::md5(p.views), EVP_md5(), "MD5");
    same(crypto::node_openssl::sha1(p.views), EVP_sha1(), "SHA-1 of the node library");
    same(crypto::node_openssl::md5(p.views), EVP_md5(), "MD5 of the node library");
    const Bytes key = s.filler(s.big(70000));
    authenticate<crypto::SHA1Hash>(crypto::SHA1Hash::Func(crypto::openssl::sha1), EVP_sha1(), key, p);
    s.nontrivial();
}

PBT_TEST(hashes, 200000, 4000000) {
    const Pieces p = pieces(s);
    s.note(p.views.size(), " pieces of ", pbt::hex(p.all));
    const auto a = crypto::openssl::sha1(p.views);
    const auto b = crypto::openssl::md5(p.views);
    REQUIRE(a.is_ok() && b.is_ok(), "no hash");
    REQUIRE(bytes(a.unwrap().view()) == digest(EVP_sha1(), p.all), "SHA-1 of ", pbt::hex(p.all));
    REQUIRE(bytes(b.unwrap().view()) == digest(EVP_md5(), p.all), "MD5 of ", pbt::hex(p.all));
    const auto na = crypto::node_openssl::sha1(p.views);
    const auto nb = crypto::node_openssl::md5(p.views);
    REQUIRE(na.is_ok() && nb.is_ok(), "no hash from the node library");
    REQUIRE(bytes(na.unwrap().view()) == digest(EVP_sha1(), p.all), "SHA-1 of the node library of ", pbt::hex(p.all));
    REQUIRE(bytes(nb.unwrap().view()) == digest(EVP_md5(), p.all), "MD5 of the node library of ", pbt::hex(p.all));
    if (p.views.size() > 1) {
        s.nontrivial();
    }
}

PBT_TEST(hmacs, 200000, 4000000) {
    const Pieces p = pieces(s);
    const Bytes key = s.bytes(key_size(s));
    s.note("key ", pbt::hex(key), ", ", p.views.size(), " pieces of ", pbt::hex(p.all));
    if (s.flip()) {
        authenticate<crypto::SHA1Hash>(crypto::SHA1Hash::Func(crypto::openssl::sha1), EVP_sha1(), key, p);
    } else {
        authenticate<crypto::MD5Hash>(crypto::MD5Hash::Func(crypto::openssl::md5), EVP_md5(), key, p);
    }
    if (p.views.size() > 1 || key.size() > 64) {
        s.nontrivial();
    }
}

// A failing call to libcrypto is reported, and no digest of something else is returned; the next one works.
PBT_TEST(failures, 100000, 2000000) {
    const Pieces p = pieces(s);
    const long nth = static_cast<long>(1 + s.below(12));
    const bool reason = s.flip();
    const bool sha = s.flip();
    const bool node = s.flip();
    s.note(node ? "node " : "", sha ? "SHA-1" : "MD5", ", call ", nth, " of libcrypto fails, ", p.views.size(), " pieces of ",
           pbt::hex(p.all));
    auto run = [&]<typename Hash>(auto&& func, const EVP_MD* md) {
        auto r = [&] {
            const Failing f(nth, reason);
            return func(p.views);
        }();
        if (fault::raised) {
            s.nontrivial();
            s.label("failed");
            REQUIRE(r.is_err(), "a failure of libcrypto gave the digest ", pbt::hex(bytes(r.unwrap().view())));
        } else {
            REQUIRE(r.is_ok(), "no failure, and no digest");
            REQUIRE(bytes(r.unwrap().view()) == digest(md, p.all), "digest without a failure");
        }
        const auto again = func(p.views);
        REQUIRE(again.is_ok(), "no digest after an earlier failure");
        REQUIRE(bytes(again.unwrap().view()) == digest(md, p.all), "digest after an earlier failure");
    };
    if (sha) {
        run.template operator()<crypto::SHA1Hash>(node ? crypto::node_openssl::sha1 : crypto::openssl::sha1, EVP_sha1());
    } else {
        run.template operator()<crypto::MD5Hash>(node ? crypto::node_openssl::md5 : crypto::openssl::md5, EVP_md5());
    }
}

// The same below an authentication code: a failing hash gives no code and no key.
PBT_TEST(failing_hmacs, 100000, 2000000) {
    const Pieces p = pieces(s);
    const Bytes key = s.bytes(key_size(s));
    const Exact k(key);
    const long nth = static_cast<long>(1 + s.below(24));
    const bool node = s.flip();
    const crypto::SHA1Hash::Func h = node ? crypto::node_openssl::sha1 : crypto::openssl::sha1;
    s.note(node ? "node " : "", "call ", nth, " of libcrypto fails, key ", pbt::hex(key), " ", p.views.size(), " pieces of ",
           pbt::hex(p.all));
    const Failing f(nth, s.flip());
    const auto i = crypto::hmac::IPadKey::from_key(k.view(), h);
    if (fault::raised) {
        REQUIRE(i.is_err(), "an inner key from a failed hash");
    }
    REQUIRE(i.is_ok() || fault::raised, "no inner key");
    if (i.is_ok()) {
        const auto o = crypto::hmac::OPadKey::from_key(k.view(), h);
        if (fault::raised) {
            REQUIRE(o.is_err(), "an outer key from a failed hash");
        }
        REQUIRE(o.is_ok() || fault::raised, "no outer key");
        if (o.is_ok()) {
            const auto r = crypto::hmac::digest(p.views, o.unwrap(), i.unwrap(), h);
            fault::countdown = 0;
            if (fault::raised) {
                REQUIRE(r.is_err(), "an authentication code from a failed hash");
            } else {
                REQUIRE(r.is_ok(), "no authentication code");
                REQUIRE(bytes(r.unwrap().value.view()) == hmac(EVP_sha1(), key, p.all), "authentication code");
            }
        }
    }
    if (fault::raised) {
        s.nontrivial();
        s.label(i.is_err() ? "key" : "code");
    }
}

PBT_EXHAUSTIVE(key_sizes, 300) {
    const auto n = s.below(300);
    Pieces p;
    p.all = Bytes(100, 0xdd);
    p.views.push_back(ConstBinaryView(p.all));
    Bytes key(n);
    for (size_t i = 0; i < n; ++i) {
        key[i] = static_cast<uint8_t>(i * 7 + 1);
    }
    s.note("key of ", n, " octets");
    authenticate<crypto::SHA1Hash>(crypto::SHA1Hash::Func(crypto::openssl::sha1), EVP_sha1(), key, p);
    authenticate<crypto::MD5Hash>(crypto::MD5Hash::Func(crypto::openssl::md5), EVP_md5(), key, p);
    s.nontrivial(n);
}

// Passwords and digests as values.
PBT_TEST(values, 100000, 2000000) {
    const Bytes a = s.bytes(s.len(80));
    Bytes b = s.flip() ? a : s.bytes(s.len(80));
    const crypto::SHA1Hash::Func h = crypto::openssl::sha1;
    const auto x = st::Password::short_term(fw::precis::OpaqueString(text(a)), h).unwrap();
    const auto y = st::Password::short_term(fw::precis::OpaqueString(text(b)), h).unwrap();
    auto norm = [](Bytes k) {
        if (k.size() > 64) {
            k = sha1(k);
        }
        k.resize(64);
        return k;
    };
    s.note("passwords ", pbt::hex(a), " and ", pbt::hex(b));
    REQUIRE_EQ(x == y, norm(a) == norm(b), "equality of passwords");
    const auto i = crypto::hmac::IPadKey::from_key(ConstBinaryView(a), h).unwrap();
    REQUIRE(x.ipad() == i, "inner key of the password");
    REQUIRE(x.opad() == crypto::hmac::OPadKey::from_key(ConstBinaryView(a), h).unwrap(), "outer key of the password");
    const Bytes d = s.bytes(s.chance(3, 4) ? 20 : s.below(40));
    Bytes e = d;
    if (s.flip() && !e.empty()) {
        e[s.below(e.size())] ^= static_cast<uint8_t>(1u << s.below(8));
    }
    const auto u = crypto::SHA1Hash::from_view(Exact(d).view());
    const auto v = crypto::SHA1Hash::from_view(Exact(e).view());
    REQUIRE_EQ(u.is_some(), d.size() == 20, "a digest of ", d.size(), " octets");
    REQUIRE_EQ(crypto::MD5Hash::from_view(Exact(d).view()).is_some(), d.size() == 16, "an MD5 digest of ", d.size(), " octets");
    REQUIRE_EQ(crypto::SHA256Hash::from_view(Exact(d).view()).is_some(), d.size() == 32, "a SHA-256 digest of ", d.size());
    if (u.is_some()) {
        REQUIRE(bytes(u.unwrap().view()) == d, "octets of a digest");
        REQUIRE_EQ(u.unwrap() == v.unwrap(), d == e, "equality of digests");
    }
    if (a != b) {
        s.nontrivial();
    }
}
