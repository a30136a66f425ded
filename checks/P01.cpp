// P01: the work done for an input grows with its length, not faster.
#include "work.hpp"
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_port.hpp"
#include "net/net_path_hash.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "stun/details/stun_client_udp_rto.hpp"
#include "stun/stun_server_stateless.hpp"
#include "util/util_flat.hpp"
#include "util/util_hash_murmur.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"
#include "stun_client.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "stun/stun_client_udp_handle.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include <list>
#include <unordered_map>
#include <unordered_set>

using namespace ref;
namespace crypto = freewebrtc::crypto;
namespace sv = freewebrtc::util::string_view;

PBT_RULE("inputs are made of a beginning, a piece repeated many times, and an end (STUN attributes, pieces of candidate lines, "
         "host names and addresses, RTP packets, tokens, octets to hash) up to 64 KB, and histories of up to 16000 transactions or "
         "paths; branches taken, octets allocated and octets moved are counted for an input and for one about 32 times as long; "
         "non-trivial: the long input is longer than 8000 octets, or the long history than 2000 steps");

namespace {

// Three times in proportion, and some for each octet or step.
constexpr double SLACK = 3;

struct Case {
    const char* what;
    double size;            // octets, or steps
    work::Count count;
};

void compare(pbt::Src& s, const Case& few, const Case& many, double each) {
    const double factor = SLACK * many.size / few.size;
    auto judge = [&](const char* name, uint64_t a, uint64_t b) {
        const double allowed = factor * static_cast<double>(a) + each * many.size;
        s.note(few.what, ": ", name, ": ", a, " for ", few.size, ", ", b, " for ", many.size);
        REQUIRE(static_cast<double>(b) <= allowed, few.what, ": ", b, " ", name, " for ", many.size, " octets or steps, ", a, " for ", few.size);
    };
    judge("branches", few.count.branches, many.count.branches);
    judge("octets allocated", few.count.allocated, many.count.allocated);
    judge("octets moved", few.count.moved, many.count.moved);
    s.label(few.what);
}

constexpr double OCTET = 150;   // whatever is done for one octet
constexpr double STEP = 1000;    // or one step of a history

// ---- messages
struct Pumped {
    Bytes tid;
    std::vector<Attr> begin, unit, end;
    unsigned cls = 0;
    bool old = false;
    std::optional<std::string> password;
    bool fingerprint = false;
    int torn = 0;           // octets missing in the end
    Bytes make(size_t n) const {
        std::vector<Attr> l = begin;
        for (; n > 0; --n) {
            l.insert(l.end(), unit.begin(), unit.end());
        }
        l.insert(l.end(), end.begin(), end.end());
        Bytes b = encode(msg_type(cls, 1), tid, l);
        if (password) {
            add_integrity(b, bytes(*password));
        }
        if (fingerprint) {
            add_fingerprint(b);
        }
        if (torn) {
            put(b, 0x8030, 2);
            put(b, 1000, 2);
            fix_len(b);
        }
        return b;
    }
    size_t unit_size() const {
        return encode(0, tid, unit).size() - encode(0, tid, {}).size();
    }
};

Attr gen_attr(pbt::Src& s, const Bytes& tid) {
    switch (s.below(5)) {
    case 0: return Attr{s.one_of<uint16_t>({0x8030, 0x9000, 0xfffe}), {}};
    case 1: return Attr{s.one_of<uint16_t>({0x0030, 0x7fff, 0x1000}), {}};
    case 2: return Attr{static_cast<uint16_t>(s.below(65536)), Bytes(s.len(40), 'x')};
    case 3: return gen_good(s, s.one_of<uint16_t>({SOFTWARE, USERNAME, ERROR_CODE, 0x000a, XOR_MAPPED, MAPPED, ALTERNATE}), tid);
    default: return Attr{SOFTWARE, gen_text(s, 60)};
    }
}

Pumped gen_message(pbt::Src& s) {
    Pumped p;
    p.tid = gen_tid(s, s.chance(1, 12));
    p.cls = s.chance(2, 3) ? 0 : static_cast<unsigned>(s.below(4));
    for (auto n = s.len(3); n > 0; --n) {
        p.begin.push_back(gen_attr(s, p.tid));
    }
    for (auto n = 1 + s.len(2); n > 0; --n) {
        p.unit.push_back(gen_attr(s, p.tid));
    }
    for (auto n = s.len(2); n > 0; --n) {
        p.end.push_back(gen_attr(s, p.tid));
    }
    if (s.flip()) {
        p.password = gen_password(s);
    }
    p.fingerprint = s.chance(1, 3);
    p.torn = s.chance(1, 10);
    return p;
}

template<typename F>
void messages(pbt::Src& s, const char* what, const Pumped& p, F&& f) {
    const size_t many = 60000 / p.unit_size();
    const size_t few = std::max<size_t>(1, many / 32);
    Case c[2] = {{what, 0, {}}, {what, 0, {}}};
    for (int i : {0, 1}) {
        const Bytes b = p.make(i ? many : few);
        const Exact x(b);
        c[i].size = static_cast<double>(b.size());
        c[i].count = f(x.view());
    }
    s.note(what, " of ", many, " times ", pbt::hex(encode(0, p.tid, p.unit)));
    compare(s, c[0], c[1], OCTET);
    s.nontrivial();
}

}

PBT_TEST(read_message, 1000, 60000) {
    const Pumped p = gen_message(s);
    messages(s, "parse", p, [&](const ConstBinaryView& v) {
        st::ParseStat stat;
        return work::of([&] { const auto r = st::Message::parse(v, stat); });
    });
}

PBT_TEST(check_and_write_message, 1000, 60000) {
    const Pumped p = gen_message(s);
    const st::IntegrityData key = integrity(p.password.value_or("x"));
    const bool sign = s.flip();
    messages(s, "integrity", p, [&](const ConstBinaryView& v) {
        st::ParseStat stat;
        const auto r = st::Message::parse(v, stat);
        return r.is_ok() ? work::of([&] { const auto x = r.unwrap().is_valid(v, key); }) : work::Count{};
    });
    messages(s, "build", p, [&](const ConstBinaryView& v) {
        st::ParseStat stat;
        const auto r = st::Message::parse(v, stat);
        return r.is_ok() ? work::of([&] { const auto x = sign ? r.unwrap().build(key) : r.unwrap().build(); }) : work::Count{};
    });
}

PBT_TEST(serve_message, 1000, 60000) {
    Pumped p = gen_message(s);
    if (s.chance(3, 4)) {
        p.cls = 0;
        if (p.password) {
            p.begin.push_back(Attr{USERNAME, bytes("user")});
        }
    }
    const bool known = s.chance(3, 4);
    const fw::net::Endpoint from{fw::net::UdpEndpoint{address(gen_addr(s).ip), fw::net::Port(9)}};
    messages(s, "server", p, [&](const ConstBinaryView& v) {
        st::server::Stateless server(fw::crypto::SHA1Hash::Func(sha1_func), st::server::Stateless::Settings{true});
        if (known) {
            server.add_user(fw::precis::OpaqueString("user"),
                            st::Password::short_term(fw::precis::OpaqueString(p.password.value_or("x")), fw::crypto::SHA1Hash::Func(sha1_func)).unwrap());
        }
        return work::of([&] {
            const auto r = server.process(from, v);
            if (const auto* a = std::get_if<st::server::Stateless::Respond>(&r)) {
                const auto out = a->response.build(a->maybe_integrity);
            }
        });
    });
}

PBT_TEST(take_response, 1000, 60000) {
    Pumped p = gen_message(s);
    p.tid = gen_tid(s);
    p.cls = 2 + s.below(2);
    if (p.cls == 3) {
        p.begin.push_back(error_code(s.one_of<unsigned>({300, 400, 420, 500})));
    } else {
        p.begin.push_back(Attr{XOR_MAPPED, xor_mapped(gen_addr(s), p.tid)});
    }
    messages(s, "client", p, [&](const ConstBinaryView& v) {
        Client client{Settings{}};
        size_t at = 0;
        Dev dev{[&] { const auto r = get(p.tid, at, 4); at += 4; return static_cast<uint32_t>(r); }};
        const auto now = Time::epoch();
        REQUIRE(client.create(dev, now, make(path(0), p.password)).is_ok(), "create failed");
        client.next(now);
        return work::of([&] {
            const auto r = client.response(now.advance(us(1000)), v);
            const auto e = client.next(now.advance(us(2000)));
        });
    });
}

namespace {

// ---- texts
struct Text {
    std::string begin, unit, end;
    std::string make(size_t n) const {
        std::string t = begin;
        for (; n > 0; --n) {
            t += unit;
        }
        return t + end;
    }
};

Text gen_pumped(pbt::Src& s, std::initializer_list<const char*> begins, std::initializer_list<const char*> pieces) {
    auto word = [&] {
        std::string t;
        for (auto n = 1 + s.len(3); n > 0; --n) {
            t += s.chance(1, 4) ? s.str("a0.:- /\xff", 1) : std::string(s.one_of(pieces));
        }
        return t;
    };
    return Text{s.one_of(begins) + (s.flip() ? word() : std::string()), word(), s.flip() ? word() : std::string()};
}

template<typename F>
void texts(pbt::Src& s, const char* what, const Text& t, F&& f) {
    const size_t many = 64000 / t.unit.size();
    const size_t few = std::max<size_t>(1, many / 32);
    Case c[2] = {{what, 0, {}}, {what, 0, {}}};
    for (int i : {0, 1}) {
        const std::string x = t.make(i ? many : few);
        c[i].size = static_cast<double>(x.size());
        const std::unique_ptr<char[]> exact(new char[x.size()]);
        std::copy(x.begin(), x.end(), exact.get());
        c[i].count = work::of([&] { f(std::string_view(exact.get(), x.size())); });
    }
    s.note(what, ": ", pbt::quote(t.begin), " ", many, " times ", pbt::quote(t.unit), " ", pbt::quote(t.end));
    compare(s, c[0], c[1], OCTET);
    s.nontrivial();
}

}

PBT_TEST(read_texts, 3000, 200000) {
    switch (s.below(6)) {
    case 0:
    case 1: {
        const Text t = gen_pumped(s, {"candidate:1 1 UDP 1 10.0.0.1 9 typ host ", "candidate:1 1 UDP 1 10.0.0.1 9 typ srflx raddr 1.2.3.4 rport 1 ", "candidate:", "candidate:1 1 UDP 1 ",
                                      "candidate:1 1 tcp 1 a.b 9 typ host ", "candidate:1 1 UDP 1 10.0.0.1 9 "},
                                  {"a b ", "raddr 10.0.0.1 ", "rport 9 ", "typ ", "x", " ", "raddr ", "generation 0 ", "host "});
        texts(s, "candidate", t, [](std::string_view v) { const auto r = fw::ice::candidate::parse_sdp_attr(v); });
        break;
    }
    case 2: {
        const Text t = gen_pumped(s, {"", "a.", "a"}, {"a", "a.", "-", "a-", "0", "A0-b.", ".", "_"});
        texts(s, "host name", t, [](std::string_view v) {
            const auto r = fw::net::Fqdn::from_string(v);
            const auto q = fw::net::Fqdn::parse(v);
        });
        break;
    }
    case 3: {
        const Text t = gen_pumped(s, {"", "1.2.3.4", "::", "fe80::1", "0"}, {"0", ":", "0:", "1.", ".", "f", "::", "0.0", "%"});
        texts(s, "address", t, [](std::string_view v) { const auto r = fw::net::ip::Address::from_string(v); });
        texts(s, "port", t, [](std::string_view v) { const auto r = fw::net::Port::from_string(v); });
        break;
    }
    case 4: {
        const Text t = gen_pumped(s, {"", ",", "a"}, {",", "a,", ",,", "abc", " "});
        texts(s, "split", t, [](std::string_view v) {
            const auto r = sv::split_all(v, ',');
            const auto l = sv::split_all<std::list>(v, ',');
            const auto j = sv::join(r, ", ");
            const auto one = sv::split(v, ',');
            const auto all = fw::util::flat_vec(std::vector<std::vector<std::string_view>>{r, r, {}, r});
            const auto ones = fw::util::flat_vec(std::vector<std::vector<std::string_view>>(r.size(), {v, ""}));
        });
        texts(s, "tokens", t, [](std::string_view v) {
            fw::util::TokenStream ts(sv::split_all(v, ','));
            for (size_t n = v.size(); n > 0; --n) {
                if (n % 2) {
                    (void)ts.optional();
                } else {
                    (void)ts.required();
                }
            }
        });
        break;
    }
    default: {
        const Text t = gen_pumped(s, {"", "a"}, {"a", "b", "abcdefgh"});
        texts(s, "hash", t, [](std::string_view v) { (void)fw::util::hash::murmur(ConstBinaryView(v.data(), v.size()), 17); });
        const size_t piece = 1 + s.below(64);
        texts(s, "digest", t, [&](std::string_view v) {
            std::vector<ConstBinaryView> l;
            for (size_t at = 0; at < v.size(); at += piece) {
                l.emplace_back(v.data() + at, std::min(piece, v.size() - at));
            }
            const crypto::SHA1Hash::Func sha1(crypto::openssl::sha1);
            const auto h = sha1(l);
            const ConstBinaryView key(v.data(), v.size());
            const auto o = crypto::hmac::OPadKey::from_key(key, sha1);
            const auto i = crypto::hmac::IPadKey::from_key(key, sha1);
            const auto d = crypto::hmac::digest(l, o.unwrap(), i.unwrap(), sha1);
        });
    }
    }
}

PBT_TEST(read_packet, 1000, 50000) {
    const unsigned cc = static_cast<unsigned>(s.below(16));
    const int kind = static_cast<int>(s.below(3)); // what is long: extension, padding and payload, payload
    const bool torn = s.chance(1, 8);
    const unsigned pad = kind == 1 ? 1 + static_cast<unsigned>(s.below(255)) : 0;
    auto make_packet = [&](size_t n) {
        Bytes b{static_cast<uint8_t>(0x80 | cc | (kind == 0 ? 0x10 : 0) | (kind == 1 ? 0x20 : 0)), 96};
        put(b, 7, 2);
        put(b, 8, 4);
        put(b, 9, 4);
        b.resize(b.size() + 4 * cc, 1);
        if (kind == 0) {
            put(b, 0xbede, 2);
            put(b, n / 4, 2);
            b.resize(b.size() + n / 4 * 4 - (torn ? 1 : 0), 2);
        } else {
            b.resize(b.size() + n, 3);
            b.back() = static_cast<uint8_t>(pad);
        }
        return b;
    };
    const fw::rtp::PayloadMap map({{fw::rtp::PayloadType::from_uint8(96).unwrap(), fw::rtp::PayloadMapItem{fw::rtp::ClockRate(90000)}}});
    Case c[2] = {{"packet", 0, {}}, {"packet", 0, {}}};
    for (int i : {0, 1}) {
        const Bytes b = make_packet(i ? 64000 : 2000);
        const Exact x(b);
        c[i].size = static_cast<double>(b.size());
        fw::rtp::ParseStat stat;
        c[i].count = work::of([&] { const auto r = fw::rtp::Packet::parse(x.view(), map, stat); });
    }
    compare(s, c[0], c[1], OCTET);
    s.nontrivial();
}

namespace {

fw::net::Path many_paths(size_t i) {
    auto a = [](size_t n) {
        return address(Bytes{10, static_cast<uint8_t>(n >> 16), static_cast<uint8_t>(n >> 8), static_cast<uint8_t>(n)});
    };
    return {a(1), a(i)};
}

}

// A client with many transactions under way.
PBT_TEST(transactions, 24, 400) {
    const bool answered = s.chance(3, 4);
    const unsigned order = static_cast<unsigned>(s.below(3));
    const bool paths = s.flip();
    const uint32_t seed = s.u32();
    Case c[2] = {{"transactions", 0, {}}, {"transactions", 0, {}}};
    for (int i : {0, 1}) {
        const size_t n = i ? 16000 : 500;
        Client client{Settings{}};
        uint32_t x = seed;
        Dev dev{[&] { x = x * 1664525u + 1013904223u; return x ^ (x >> 16); }};
        Time now = Time::epoch();
        std::vector<Bytes> answers;
        c[i].size = static_cast<double>(n);
        c[i].count = work::of([&] {
            for (size_t k = 0; k < n; ++k) {
                REQUIRE(client.create(dev, now, make(paths ? many_paths(k) : path(0))).is_ok(), "create failed");
                now = now.advance(us(1));
            }
        });
        while (true) {
            const auto e = client.next(now);
            const auto* d = std::get_if<Client::SendData>(&e);
            if (!d) {
                break;
            }
            const Bytes b = bytes(d->message_view);
            answers.push_back(success(Bytes(b.begin() + 8, b.begin() + 20)));
        }
        REQUIRE_EQ(answers.size(), n, "requests sent");
        if (order == 1) {
            std::reverse(answers.begin(), answers.end());
        } else if (order == 2) {
            for (size_t k = n; k > 1; --k) {
                std::swap(answers[k - 1], answers[dev() % k]);
            }
        }
        const auto rest = work::of([&] {
            if (answered) {
                now = now.advance(us(100));
                for (const auto& a : answers) {
                    REQUIRE(client.response(now, ConstBinaryView(a.data(), a.size())).is_ok(), "response refused");
                }
            }
            size_t ended = 0;
            for (size_t steps = 0; ended < n; ++steps) {
                const auto e = client.next(now);
                if (is_terminal(e)) {
                    ++ended;
                } else if (const auto* w = std::get_if<Client::Sleep>(&e)) {
                    now = now.advance(w->sleep);
                }
                REQUIRE(steps < 40 * n, "no end");
            }
        });
        c[i].count.branches += rest.branches;
        c[i].count.allocated += rest.allocated;
        c[i].count.moved += rest.moved;
    }
    compare(s, c[0], c[1], STEP);
    s.nontrivial();
}

// The history of many paths.
PBT_TEST(histories, 48, 1500) {
    using Calc = st::details::ClientUDPRtoCalculator;
    const uint32_t seed = s.u32();
    const bool outdate = s.flip();
    Case c[2] = {{"histories", 0, {}}, {"histories", 0, {}}};
    for (int i : {0, 1}) {
        const size_t n = i ? 16000 : 500;
        Calc::Settings settings;
        Calc calc(settings);
        uint32_t x = seed;
        Time now = Time::epoch();
        c[i].size = static_cast<double>(2 * n);
        c[i].count = work::of([&] {
            for (size_t k = 0; k < 2 * n; ++k) {
                x = x * 1664525u + 1013904223u;
                const auto p = many_paths((x >> 8) % n);
                now = now.advance(us(1 + x % 5));
                if (x & 0x10000) {
                    calc.new_rtt(now, p, us(x % 100000));
                } else {
                    calc.backoff(now, p, us(x % 100000));
                }
                (void)calc.rto(p);
                if (outdate && k == n) {
                    now = now.advance(settings.history_duration);
                }
            }
        });
    }
    compare(s, c[0], c[1], STEP);
    s.nontrivial();
}

namespace {

// How many of n different keys have one hash, or share a bucket of a table of them
template<typename Hash, typename Make>
void spread(pbt::Src& s, const char* what, Hash h, Make make) {
    constexpr size_t n = 4096;
    constexpr size_t alike = 12;
    constexpr size_t bucket = 40;
    std::vector<size_t> hashes;
    std::unordered_map<size_t, size_t> count;
    for (size_t i = 0; i < n; ++i) {
        hashes.push_back(h(make(i)));
        ++count[hashes.back()];
    }
    size_t most = 0;
    for (const auto& c : count) {
        most = std::max(most, c.second);
    }
    REQUIRE(most <= alike, most, " of ", n, " different ", what, " have the same hash");
    std::unordered_set<size_t> t;
    t.reserve(n);
    std::unordered_map<size_t, size_t> load;
    for (auto v : hashes) {
        ++load[v % t.bucket_count()];
    }
    for (const auto& l : load) {
        REQUIRE(l.second <= bucket, l.second, " of ", n, " different ", what, " fall into one bucket of ", t.bucket_count());
    }
    s.label(what);
}

}

// Tables of what peers choose stay tables: keys which differ in few places are spread by their hashes.
PBT_TEST(tables, 300, 6000) {
    // where the keys differ: i is written at one or two places of a common pattern
    const unsigned a = static_cast<unsigned>(s.below(16)), b = static_cast<unsigned>(s.below(16));
    const Bytes pattern = s.bytes(32);
    const unsigned shift = static_cast<unsigned>(s.below(5));
    auto octets = [&](size_t i, size_t n, size_t from) {
        Bytes o(pattern.begin() + static_cast<long>(from), pattern.begin() + static_cast<long>(from + n));
        const size_t p = a % n, q = b % n == p ? (p + 1) % n : b % n;
        o[p] ^= static_cast<uint8_t>(i);
        o[q] ^= static_cast<uint8_t>((i >> 8) << shift);
        return o;
    };
    s.note("places ", a, " and ", b, ", shift ", shift);
    const bool v6 = s.flip();
    auto addr = [&](size_t i, size_t from) { return address(octets(i, v6 ? 16 : 4, from)); };
    spread(s, "addresses", fw::net::ip::AddressHash(), [&](size_t i) { return addr(i, 0); });
    spread(s, "paths to different targets", fw::net::PathHash(), [&](size_t i) { return fw::net::Path{addr(0, 0), addr(i, 16)}; });
    spread(s, "paths from different sources", fw::net::PathHash(), [&](size_t i) { return fw::net::Path{addr(i, 0), addr(0, 16)}; });
    spread(s, "paths of equal ends", fw::net::PathHash(), [&](size_t i) { return fw::net::Path{addr(i, 0), addr(i, 0)}; });
    spread(s, "transaction ids", st::MurmurTransactionIdHash<>::create(), [&](size_t i) {
        const Bytes o = octets(i, 12, 0);
        return st::TransactionId(ConstBinaryView(o.data(), o.size()));
    });
    spread(s, "handles", st::client_udp::HandleHash(), [&](size_t i) { return st::client_udp::Handle{static_cast<unsigned>(i)}; });
    const std::string name = s.str("abcxyz@.", s.len(20));
    spread(s, "user names", fw::precis::OpaqueStringHash(), [&](size_t i) { return fw::precis::OpaqueString(name + std::to_string(i)); });
    spread(s, "user names with one end", fw::precis::OpaqueStringHash(), [&](size_t i) { return fw::precis::OpaqueString(std::to_string(i) + name); });
    spread(s, "attribute types", std::hash<st::AttributeType>(), [&](size_t i) { return st::AttributeType::from_uint16(static_cast<uint16_t>(i << shift)); });
    s.nontrivial();
}
