// H01: hashes are functions of the value alone and keep distinct values apart.
#include <array>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>

#include "net/ip/ip_address_hash.hpp"
#include "net/net_path_hash.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "util/util_hash_murmur.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
using util::ConstBinaryView;

PBT_RULE("octet strings of 0..200 octets hashed with random and boundary seeds at every alignment against an "
         "independent MurmurHash64A, alone and chained; addresses, address pairs and transaction ids: equal values "
         "hash alike, values of one size that differ in one octet do not; non-trivial: a pair of values that differ");

namespace {

// MurmurHash64A by Austin Appleby, over octets in little-endian order.
uint64_t reference(const uint8_t* p, size_t n, uint64_t seed) {
    const uint64_t m = 0xc6a4a7935bd1e995ull;
    uint64_t h = seed ^ (uint64_t(n) * m);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t k = 0;
        for (int j = 7; j >= 0; --j) {
            k = (k << 8) | p[i + size_t(j)];
        }
        k *= m;
        k ^= k >> 47;
        k *= m;
        h ^= k;
        h *= m;
    }
    if (i < n) {
        for (size_t j = 0; i + j < n; ++j) {
            h ^= uint64_t(p[i + j]) << (8 * j);
        }
        h *= m;
    }
    h ^= h >> 47;
    h *= m;
    h ^= h >> 47;
    return h;
}

using Bytes = std::vector<uint8_t>;

// A copy on the heap, exactly as large as its content, shifted by `shift`.
struct Exact {
    std::unique_ptr<uint8_t[]> mem;
    size_t n;
    size_t shift;
    Exact(const Bytes& b, size_t sh) : mem(new uint8_t[b.size() + sh]), n(b.size()), shift(sh) {
        if (n != 0) {
            std::memcpy(mem.get() + sh, b.data(), n);
        }
    }
    ConstBinaryView view() const { return ConstBinaryView(mem.get() + shift, n); }
};

net::ip::Address address(const Bytes& b) {
    const ConstBinaryView v(b.data(), b.size());
    return b.size() == 4 ? net::ip::Address(net::ip::AddressV4::from_view(v).unwrap())
                         : net::ip::Address(net::ip::AddressV6::from_view(v).unwrap());
}

void touch(pbt::Src& s, Bytes& b) {
    b[s.below(b.size())] ^= static_cast<uint8_t>(1 + s.below(255));
}


template<int N>
struct Seeded {
    size_t operator()() { return static_cast<size_t>(N) * 0x9e3779b97f4a7c15ull; }
};

}

// Any number of octets.
PBT_TEST(many_octets, 400, 8000) {
    const Bytes b = s.filler(s.big(1 << 20));
    const uint64_t seed = s.u64();
    s.note(b.size(), " octets, seed ", seed);
    const Exact x(b, s.below(16));
    REQUIRE_EQ(uint64_t(util::hash::murmur(x.view(), seed)), reference(b.data(), b.size(), seed), "hash of ", b.size(), " octets");
    s.nontrivial();
}

PBT_TEST(octets, 800000, 6000000) {
    const Bytes b = s.bytes(s.len(200));
    const uint64_t seed = s.u64();
    const auto a = s.below(16);
    s.note("octets ", pbt::hex(b), " seed ", seed, " alignment ", a);
    const Exact x(b, a);
    const auto h = util::hash::murmur(x.view(), seed);
    REQUIRE_EQ(uint64_t(h), reference(b.data(), b.size(), seed), "hash of ", pbt::hex(b));
    REQUIRE_EQ(util::hash::murmur(Exact(b, s.below(16)).view(), seed), h, "hash of the same octets elsewhere");
    if (!b.empty()) {
        Bytes c = b;
        touch(s, c);
        REQUIRE(util::hash::murmur(Exact(c, a).view(), seed) != h, "one octet changed, same hash: ", pbt::hex(c));
        const uint64_t seed2 = seed ^ (1ull << s.below(64));
        REQUIRE(util::hash::murmur(x.view(), seed2) != h, "seed changed, same hash");
        s.nontrivial();
    }
}

PBT_TEST(chains, 500000, 3000000) {
    const Bytes a = s.bytes(s.len(40)), b = s.bytes(s.len(40)), c = s.bytes(s.len(40));
    const uint64_t seed = s.u64();
    const Exact x(a, s.below(8)), y(b, s.below(8)), z(c, s.below(8));
    const auto h = util::hash::murmur<3>(std::array<ConstBinaryView, 3>{x.view(), y.view(), z.view()}, seed);
    uint64_t e = reference(a.data(), a.size(), seed);
    e = reference(b.data(), b.size(), e);
    e = reference(c.data(), c.size(), e);
    s.note("chain of ", a.size(), ", ", b.size(), ", ", c.size());
    REQUIRE_EQ(uint64_t(h), e, "chained hash");
    if (!a.empty() && !b.empty() && !c.empty()) {
        s.nontrivial();
    }
}

PBT_TEST(addresses, 800000, 4000000) {
    const Bytes a = s.bytes(s.flip() ? 4 : 16);
    Bytes b = a;
    const bool other = s.flip();
    if (other) {
        touch(s, b);
    }
    s.note("addresses ", pbt::hex(a), " and ", pbt::hex(b));
    const auto x = address(a), y = address(b);
    net::ip::AddressHash h;
    REQUIRE_EQ(h(x) == h(y), !other, "hashes of ", pbt::hex(a), " and ", pbt::hex(b));
    REQUIRE_EQ(x == y, !other, "equality");
    if (other) {
        s.nontrivial();
    }
}

PBT_TEST(paths, 800000, 4000000) {
    Bytes a = s.bytes(s.flip() ? 4 : 16), b = s.bytes(s.flip() ? 4 : 16);
    const net::Path p{address(a), address(b)};
    const net::PathHash h;
    REQUIRE_EQ(h(p), h(net::Path{address(a), address(b)}), "hash of an equal path");
    Bytes a2 = a, b2 = b;
    const auto what = s.below(3);
    if (what == 0) {
        touch(s, a2);
    } else if (what == 1) {
        touch(s, b2);
    } else {
        std::swap(a2, b2); // the way back
    }
    const net::Path q{address(a2), address(b2)};
    const bool same = a == a2 && b == b2;
    s.note("path ", pbt::hex(a), "->", pbt::hex(b), " and ", pbt::hex(a2), "->", pbt::hex(b2));
    REQUIRE_EQ(p == q, same, "equality of paths");
    REQUIRE_EQ(h(p) == h(q), same, "hashes of ", pbt::hex(a), "->", pbt::hex(b), " and ", pbt::hex(a2), "->", pbt::hex(b2));
    // used as the key of a table, each path keeps its entry
    std::unordered_map<net::Path, int, net::PathHash> t;
    t.emplace(p, 1);
    t.emplace(q, 2);
    REQUIRE_EQ(t.size(), size_t(same ? 1 : 2), "entries");
    REQUIRE_EQ(t.at(p), 1, "entry");
    REQUIRE_EQ(t.at(q), same ? 1 : 2, "entry");
    if (!same) {
        s.nontrivial();
    }
}

PBT_TEST(transaction_ids, 800000, 4000000) {
    const Bytes a = s.bytes(s.flip() ? 12 : 16);
    Bytes b = a;
    const bool other = s.flip();
    if (other) {
        touch(s, b);
    }
    s.note("ids ", pbt::hex(a), " and ", pbt::hex(b));
    const stun::TransactionId x(Exact(a, s.below(8)).view()), y(Exact(b, s.below(8)).view());
    REQUIRE(x.view() == ConstBinaryView(a), "octets of the id");
    REQUIRE_EQ(x == y, !other, "equality of ids");
    const auto h0 = stun::MurmurTransactionIdHash<>::create();
    const auto h1 = stun::MurmurTransactionIdHash<Seeded<1>>::create();
    const auto h2 = stun::MurmurTransactionIdHash<Seeded<2>>::create();
    for (const auto& h : {h0, h1, h2}) {
        REQUIRE_EQ(h(x) == h(y), !other, "hashes of ", pbt::hex(a), " and ", pbt::hex(b));
        REQUIRE_EQ(h(x), h(stun::TransactionId(x)), "hash of a copy");
    }
    REQUIRE(h1(x) != h2(x) && h0(x) != h1(x), "the seed does not take part in the hash");
    REQUIRE_EQ(stun::MurmurTransactionIdHash<Seeded<1>>::create()(x), h1(x), "hash by another instance of one kind");
    std::unordered_map<stun::TransactionId, int, stun::TransactionIdHash> t(8, s.flip() ? h1 : h0);
    t.emplace(x, 1);
    t.emplace(y, 2);
    REQUIRE_EQ(t.size(), size_t(other ? 2 : 1), "entries");
    REQUIRE_EQ(t.at(stun::TransactionId(ConstBinaryView(b))), other ? 2 : 1, "entry");
    if (other) {
        s.nontrivial();
    }
}

namespace {
// A random source that gives the words of a list, then mixed numbers.
struct Words {
    using result_type = uint32_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    std::vector<uint32_t> l;
    size_t n = 0;
    result_type operator()() {
        if (n == l.size()) {
            l.push_back(static_cast<uint32_t>(pbt::mix(n + 1)));
        }
        return l[n++];
    }
};
}

// Generated ids: as long as the format says, and different random draws give
// different ids.
PBT_TEST(generated_ids, 150000, 2000000) {
    const bool old = s.flip();
    const size_t size = old ? 16 : 12;
    auto generate = [&](Words& r) {
        r.n = 0;
        const auto id = old ? stun::TransactionId::generate_rfc3489(r) : stun::TransactionId::generate(r);
        REQUIRE_EQ(id.view().size(), size, "size of a generated id");
        return Bytes(id.view().begin(), id.view().end());
    };
    Words a;
    for (size_t i = 0; i < size / 4; ++i) {
        a.l.push_back(s.u32());
    }
    const Bytes first = generate(a);
    REQUIRE(a.n * 4 >= size, "an id of ", size, " octets from ", a.n, " words of 32 bits");
    REQUIRE(generate(a) == first, "the same draws give another id");
    Words b = a;
    // one drawn word is another one: one bit, or anything
    const size_t at = s.below(size / 4);
    b.l[at] = s.flip() ? b.l[at] ^ (1u << s.below(32)) : s.flip() ? ~b.l[at] : s.u32();
    s.note("words ", pbt::hex(a.l.data(), 4 * a.l.size()), " and word ", at, " ", b.l[at]);
    if (a.l[at] == b.l[at]) {
        return;
    }
    REQUIRE(generate(b) != first, "different draws give one id ", pbt::hex(first));
    s.nontrivial();
}
