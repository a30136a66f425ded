// T01: what a call does depends on its own objects and arguments only.
#include "clock/clock_std.hpp"
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_path_hash.hpp"
#include "net/net_port.hpp"
#include "node/openssl/node_openssl_hash.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "stun/stun_server_stateless.hpp"
#include "util/util_flat.hpp"
#include "util/util_hash_murmur.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"
#include "stun_client.hpp"
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>

using namespace ref;
namespace crypto = freewebrtc::crypto;
namespace sv = freewebrtc::util::string_view;
using Server = st::server::Stateless;

PBT_RULE("2..4 scripts of up to 24 steps, each with a client, a server, counters and token streams of its own, which read, check, answer and "
         "write messages, candidates, names, addresses, packets and digests; run one script after the other, step by step in a generated "
         "order, and each in a thread of its own under ThreadSanitizer; what every step gives has to be the same each time; and points "
         "in time read in threads that take turns; non-trivial: two scripts have a kind of step in common");

namespace {

// What a script works on; nothing of it is shared.
struct State {
    std::optional<Client> client;
    std::optional<Server> server;
    st::ParseStat stat;
    fw::rtp::ParseStat rtp_stat;
    std::optional<fw::util::TokenStream> tokens;
    Time now = Time::epoch();
    uint32_t random = 1;
    std::optional<Bytes> last; // request sent
    std::ostringstream out;

    void put(const std::error_code& e) { out << " error " << e.category().name() << " " << e.value() << " " << e.message(); }
    void put(const fw::Error& e) { put(e.code()); }
    void put(const Bytes& b) { out << " " << pbt::hex(b); }
    void put(std::string_view v) { out << " " << v; }
    template<typename T, typename F>
    void put(const fw::Result<T>& r, F&& f) {
        if (r.is_ok()) {
            f(r.unwrap());
        } else {
            put(r.unwrap_err());
        }
    }
    void put(const fw::net::Endpoint& e) { (void)e; }
    void put(const Client::Effect& e) {
        out << " " << show(e);
        std::visit(fw::util::overloaded {
            [&](const Client::SendData& x) {
                last = bytes(x.message_view);
                put(*last);
            },
            [&](const Client::TransactionOk& x) { out << " " << x.result.address.to_string().unwrap() << ":" << x.result.port.value(); },
            [&](const Client::TransactionFailed& x) {
                if (const auto* c = std::get_if<Client::TransactionFailed::ErrorCode>(&x.reason)) {
                    out << " " << c->attr.code;
                }
            },
            [](const auto&) {}}, e);
    }
};

struct Step {
    unsigned kind;
    std::function<void(State&)> f;
};

fw::net::Endpoint endpoint(const Addr& a) { return fw::net::UdpEndpoint{address(a.ip), fw::net::Port(a.port)}; }

Step gen_step(pbt::Src& s) {
    const unsigned kind = static_cast<unsigned>(s.below(12));
    switch (kind) {
    case 0: { // a message, read and written again
        Plan p = gen_plan(s);
        const auto whole = p.build();
        REQUIRE(whole.is_ok(), "not built");
        Bytes b = whole.unwrap();
        if (s.chance(1, 3)) {
            b[s.below(b.size())] = s.u8();
        }
        const bool right = s.chance(3, 4);
        const std::string password = right && p.password ? *p.password : "other";
        return {kind, [b, password](State& t) {
            const ConstBinaryView v(b.data(), b.size());
            const auto r = st::Message::parse(v, t.stat);
            t.put(r, [&](const st::Message& m) {
                const auto key = integrity(password);
                t.put(m.is_valid(v, key), [&](const auto& valid) { t.out << (valid.is_some() ? valid.unwrap() ? " valid" : " wrong" : " unsigned"); });
                t.put(m.build(key), [&](const auto& x) { t.put(Bytes(x.begin(), x.end())); });
                t.put(m.build(), [&](const auto& x) { t.put(Bytes(x.begin(), x.end())); });
            });
            t.out << " " << t.stat.success.count() << "/" << t.stat.error.count();
        }};
    }
    case 1: { // a server
        const Bytes tid = gen_tid(s);
        const std::string user = s.one_of<const char*>({"a", "user", "nobody"});
        Bytes b = encode(msg_type(static_cast<unsigned>(s.weighted({8, 1, 1})), 1), tid,
                         {Attr{USERNAME, bytes(user)}, gen_good(s, gen_type(s), tid)});
        if (s.chance(3, 4)) {
            add_integrity(b, bytes(s.chance(3, 4) ? user : "other"));
        }
        const Addr from = gen_addr(s);
        return {kind, [b, from](State& t) {
            if (!t.server) {
                t.server.emplace(fw::crypto::SHA1Hash::Func(sha1_func), Server::Settings{true});
                for (const char* u : {"a", "user"}) {
                    t.server->add_user(fw::precis::OpaqueString(u),
                                       st::Password::short_term(fw::precis::OpaqueString(u), fw::crypto::SHA1Hash::Func(sha1_func)).unwrap());
                }
            }
            const auto r = t.server->process(endpoint(from), ConstBinaryView(b.data(), b.size()));
            t.out << " " << r.index();
            if (const auto* a = std::get_if<Server::Respond>(&r)) {
                t.put(a->response.build(a->maybe_integrity), [&](const auto& x) { t.put(Bytes(x.begin(), x.end())); });
            } else if (const auto* e = std::get_if<Server::Error>(&r)) {
                t.put(e->error);
            }
        }};
    }
    case 2:
    case 3: { // a client begins
        const unsigned where = static_cast<unsigned>(s.below(5));
        const auto password = s.flip() ? std::optional<std::string>("secret") : std::nullopt;
        return {2, [where, password](State& t) {
            if (!t.client) {
                t.client.emplace(Settings{});
            }
            Dev dev{[&] { t.random = t.random * 1664525u + 1013904223u; return t.random; }};
            t.put(t.client->create(dev, t.now, make(path(where), password)), [&](const auto& h) { t.out << " handle " << h.value; });
            t.put(t.client->next(t.now));
        }};
    }
    case 4:
    case 5: { // a client goes on
        const auto d = us(static_cast<int64_t>(s.below(s.flip() ? 10 * SEC : MS)));
        return {4, [d](State& t) {
            t.now = t.now.advance(d);
            if (t.client) {
                t.put(t.client->next(t.now));
            }
        }};
    }
    case 6:
    case 7: { // a client gets an answer
        const unsigned what = static_cast<unsigned>(s.below(4));
        const auto password = s.flip() ? std::optional<std::string>("secret") : std::nullopt;
        const auto d = us(static_cast<int64_t>(s.below(MS)));
        return {6, [=](State& t) {
            t.now = t.now.advance(d);
            if (!t.client || !t.last) {
                return;
            }
            const Bytes tid(t.last->begin() + 8, t.last->begin() + 20);
            const Bytes b = what == 0 ? response(3, tid, {error_code(401, "no")}, password)
                : what == 1 ? response(3, tid, {error_code(500)}, password) : success(tid, password);
            const auto r = t.client->response(t.now, ConstBinaryView(b.data(), b.size()));
            if (r.is_err()) {
                t.put(r.unwrap_err());
            }
            t.put(t.client->next(t.now));
        }};
    }
    case 8: { // texts
        std::string x = s.one_of<const char*>({"candidate:1 1 UDP 1 10.0.0.1 9 typ host", "candidate:1 1 UDP 5 fe80::1 9 typ srflx raddr 1.2.3.4 rport 1",
                                               "10.1.2.3", "2001:db8::7", "example.com", "a,b,,c", "77"});
        if (s.chance(1, 3)) {
            x += s.str("a0.:- ,", 6);
        }
        return {kind, [x](State& t) {
            t.put(fw::ice::candidate::parse_sdp_attr(x), [&](const auto& r) { t.out << " outcome " << r.index(); });
            t.put(fw::net::ip::Address::from_string(x), [&](const auto& a) {
                t.put(a.to_string(), [&](const std::string& v) { t.put(std::string_view(v)); });
            });
            t.put(fw::net::Port::from_string(x), [&](const auto& p) { t.out << " " << p.value(); });
            t.out << (fw::net::Fqdn::from_string(x).is_ok() ? " name" : " no name");
            const auto l = sv::split_all(x, ',');
            t.put(std::string_view(sv::join(l, ";")));
        }};
    }
    case 9: { // packets
        Bytes b{static_cast<uint8_t>(0x80 | s.below(64)), 96};
        append(b, s.bytes(s.len(60)));
        return {kind, [b](State& t) {
            const fw::rtp::PayloadMap map({{fw::rtp::PayloadType::from_uint8(96).unwrap(), fw::rtp::PayloadMapItem{fw::rtp::ClockRate(90000)}}});
            t.put(fw::rtp::Packet::parse(ConstBinaryView(b.data(), b.size()), map, t.rtp_stat), [&](const auto& p) {
                t.out << " " << p.header.ssrc.value() << " " << p.header.sequence.value();
                t.out << " " << p.payload.offset << "+" << p.payload.count;
            });
        }};
    }
    case 10: { // digests
        const Bytes d = s.bytes(s.len(300)), k = s.bytes(s.len(100));
        return {kind, [d, k](State& t) {
            const std::vector<ConstBinaryView> l{ConstBinaryView(d.data(), d.size() / 2), ConstBinaryView(d.data() + d.size() / 2, d.size() - d.size() / 2)};
            auto all = [&](auto sha1, auto md5) {
                const crypto::SHA1Hash::Func f(sha1);
                const auto o = crypto::hmac::OPadKey::from_key(ConstBinaryView(k.data(), k.size()), f);
                const auto i = crypto::hmac::IPadKey::from_key(ConstBinaryView(k.data(), k.size()), f);
                t.put(crypto::hmac::digest(l, o.unwrap(), i.unwrap(), f), [&](const auto& x) { t.put(bytes(x.value.view())); });
                t.put(md5(l), [&](const auto& x) { t.put(bytes(x.view())); });
                t.put(sha1(l), [&](const auto& x) { t.put(bytes(x.view())); });
            };
            all(crypto::openssl::sha1, crypto::openssl::md5);
            all(crypto::node_openssl::sha1, crypto::node_openssl::md5);
        }};
    }
    default: { // hashes and tokens
        const Bytes d = s.bytes(s.len(40));
        const auto seed = s.u64();
        const unsigned where = static_cast<unsigned>(s.below(6));
        return {kind, [=](State& t) {
            t.out << " " << fw::util::hash::murmur(ConstBinaryView(d.data(), d.size()), seed);
            static const std::string words = "some words to be read one by one";
            if (!t.tokens) {
                t.tokens.emplace(sv::split_all(words, ' '));
            }
            t.put(t.tokens->required(), [&](const auto& v) { t.put(std::string_view(v)); });
            const auto p = path(where);
            t.out << " " << fw::net::PathHash()(p);
        }};
    }
    }
}

}

PBT_TEST(scripts, 6000, 150000) {
    const size_t n = 2 + s.below(3);
    std::vector<std::vector<Step>> scripts(n);
    std::vector<std::set<unsigned>> kinds(n);
    for (size_t i = 0; i < n; ++i) {
        for (auto k = 1 + s.len(23); k > 0; --k) {
            scripts[i].push_back(gen_step(s));
            kinds[i].insert(scripts[i].back().kind);
        }
        if (i > 0 && std::any_of(kinds[i].begin(), kinds[i].end(), [&](unsigned k) { return kinds[0].count(k) > 0; })) {
            s.nontrivial();
        }
    }
    std::vector<size_t> order;
    for (size_t i = 0; i < n; ++i) {
        order.insert(order.end(), scripts[i].size(), i);
    }
    for (size_t i = order.size(); i > 1; --i) {
        std::swap(order[i - 1], order[s.below(i)]);
    }
    auto outs = [&](const std::vector<State>& l) {
        std::vector<std::string> r;
        for (const auto& x : l) {
            r.push_back(x.out.str());
        }
        return r;
    };
    // In threads first: the races a first call has are in it, too.
    std::vector<State> in_threads(n);
    {
        std::vector<std::thread> threads;
        std::atomic<size_t> ready{0};
        for (size_t i = 0; i < n; ++i) {
            threads.emplace_back([&, i] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < n) {
                    std::this_thread::yield();
                }
                for (const auto& step : scripts[i]) {
                    step.f(in_threads[i]);
                }
            });
        }
        for (auto& t : threads) {
            t.join();
        }
    }
    std::vector<State> alone(n), mixed(n);
    for (size_t i = 0; i < n; ++i) {
        for (const auto& step : scripts[i]) {
            step.f(alone[i]);
        }
    }
    std::vector<size_t> at(n, 0);
    for (const size_t i : order) {
        scripts[i][at[i]++].f(mixed[i]);
    }
    const auto a = outs(alone), b = outs(mixed), c = outs(in_threads);
    for (size_t i = 0; i < n; ++i) {
        s.note("script ", i, " of ", scripts[i].size(), " steps: ", pbt::quote(a[i].substr(0, 300)));
        REQUIRE_EQ(b[i], a[i], "script ", i, " step by step with others, and alone");
        REQUIRE_EQ(c[i], a[i], "script ", i, " in a thread, and alone");
    }
}

// A point in time that was read first is not later than one read after it, in whichever threads.
PBT_TEST(points_in_time, 300, 6000) {
    const size_t n = 2 + s.below(4);
    std::vector<size_t> turns;
    for (auto k = 2 + s.len(60); k > 0; --k) {
        turns.push_back(s.below(n));
    }
    std::vector<Time> points;
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::thread> threads;
    for (size_t i = 0; i < n; ++i) {
        threads.emplace_back([&, i] {
            std::unique_lock l(m);
            for (;;) {
                cv.wait(l, [&] { return points.size() == turns.size() || turns[points.size()] == i; });
                if (points.size() == turns.size()) {
                    return;
                }
                points.push_back(fw::clock::steady_clock_now());
                cv.notify_all();
            }
        });
    }
    for (auto& t : threads) {
        t.join();
    }
    for (size_t k = 1; k < points.size(); ++k) {
        REQUIRE(!points[k - 1].is_after(points[k]), "point ", k, " read in thread ", turns[k], " is ", (points[k - 1] - points[k]).count(),
                "us before the one before, read in thread ", turns[k - 1]);
        if (turns[k] != turns[k - 1]) {
            s.nontrivial();
        }
    }
}

// Threads that read the time at once.
PBT_TEST(time_at_once, 300, 6000) {
    const size_t n = 2 + s.below(3), reads = 1 + s.below(40);
    std::vector<std::thread> threads;
    std::vector<int> bad(n, 0);
    for (size_t i = 0; i < n; ++i) {
        threads.emplace_back([&, i] {
            Time last = fw::clock::steady_clock_now();
            for (size_t k = 0; k < reads; ++k) {
                const Time t = fw::clock::steady_clock_now();
                bad[i] += last.is_after(t);
                last = t;
            }
        });
    }
    for (auto& t : threads) {
        t.join();
    }
    REQUIRE(std::count(bad.begin(), bad.end(), 0) == static_cast<long>(n), "time went back in a thread");
    s.nontrivial();
}
