// P02: what is over leaves nothing behind.
#include "work.hpp"
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "node/openssl/node_openssl_hash.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_port.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "stun/stun_server_stateless.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"
#include "stun_client.hpp"

using namespace ref;
namespace crypto = freewebrtc::crypto;
using Server = st::server::Stateless;

PBT_RULE("a client goes through 12 rounds of 10..60 (or 100..500) transactions on paths of their own, each answered at once, after retransmissions, refused, "
         "told to try again or never answered, with the history duration between the rounds; octets on the heap after the last round are "
         "compared with those after the first ones; calls which keep nothing by nature (messages, texts, packets, digests, a server's answers) are repeated, "
         "and the heap has to be the same; non-trivial: two different ways to end in a round, or the call did something");

namespace {

fw::net::Path nth_path(size_t i) {
    return {address(Bytes{10, 0, 0, 1}), address(Bytes{11, static_cast<uint8_t>(i >> 16), static_cast<uint8_t>(i >> 8), static_cast<uint8_t>(i)})};
}

enum Way : uint8_t { AT_ONCE, LATE, REFUSED, AGAIN, NEVER, UNKNOWN_ATTR, WAYS };

}

PBT_TEST(rounds, 2500, 60000) {
    const size_t n = s.chance(1, 30) ? 100 + s.below(400) : 10 + s.below(51);
    std::vector<Way> ways(n);
    const unsigned only = static_cast<unsigned>(s.below(3)); // all kinds; two; one
    const Way one = static_cast<Way>(s.below(WAYS)), two = static_cast<Way>(s.below(WAYS));
    for (size_t k = 0; k < n; ++k) {
        ways[k] = only == 0 ? static_cast<Way>(s.below(WAYS)) : only == 1 && s.flip() ? two : one;
    }
    const bool same_paths = s.chance(1, 4);
    const std::optional<std::string> password = s.flip() ? std::optional<std::string>("secret") : std::nullopt;
    Settings settings;
    Rtx rtx;
    rtx.server_error_timeout = us(50 * MS);
    rtx.server_error_max_retransmits = static_cast<unsigned>(s.below(4));
    rtx.request_count = 2 + static_cast<unsigned>(s.below(6));
    settings.retransmit = rtx;
    settings.rto_settings.history_duration = us(s.one_of<int64_t>({10 * SEC, 3600 * SEC}));
    uint32_t x = s.u32() | 1;
    Dev dev{[&] { x = x * 1664525u + 1013904223u; return x ^ (x >> 15); }};
    s.note(n, " transactions, the first ", int(ways[0]), ", history ", settings.rto_settings.history_duration.count());

    Client client(settings);
    Time now = Time::epoch();
    size_t next_path = 0;
    // What of the round is still to be answered, by handle.
    struct Open { Way way; unsigned sent; };
    auto answer = [&](Way w, const Bytes& tid) {
        switch (w) {
        case REFUSED: return response(3, tid, {error_code(401, "no")}, password);
        case AGAIN: return response(3, tid, {error_code(500, "later")}, password);
        case UNKNOWN_ATTR: return response(2, tid, {Attr{0x0030, {}}, Attr{XOR_MAPPED, xor_mapped(Addr{{10, 1, 2, 3}, 4567}, tid)}}, password);
        default: return success(tid, password);
        }
    };
    auto round = [&](size_t count, auto way_of) {
        std::map<unsigned, Open> open;
        for (size_t k = 0; k < count; ++k) {
            const auto r = client.create(dev, now, make(nth_path(same_paths ? k : next_path++), password));
            REQUIRE(r.is_ok(), "create failed");
            open[r.unwrap().value] = Open{way_of(k), 0};
        }
        for (size_t steps = 0; !open.empty(); ++steps) {
            REQUIRE(steps < 2000 * (count + 1), "no end");
            const auto e = client.next(now);
            if (const auto* d = std::get_if<Client::SendData>(&e)) {
                auto& o = open.at(d->handle.value);
                ++o.sent;
                if (o.way == NEVER || (o.way == LATE && o.sent < 2)) {
                    continue;
                }
                const Bytes b = bytes(d->message_view);
                now = now.advance(us(100));
                const Bytes a = answer(o.way, Bytes(b.begin() + 8, b.begin() + 20));
                (void)client.response(now, ConstBinaryView(a.data(), a.size()));
            } else if (is_terminal(e)) {
                open.erase(*handle_of(e));
            } else if (const auto* w = std::get_if<Client::Sleep>(&e)) {
                now = now.advance(w->sleep);
            } else {
                pbt::fail("idle with transactions open");
            }
        }
    };
    auto settle = [&] {
        // everything the timeline still knows runs out, and the history is outdated
        for (int k = 0; k < 2000 && !std::holds_alternative<Client::Idle>(client.next(now)); ++k) {
            now = now.advance(us(SEC));
        }
        now = now.advance(settings.rto_settings.history_duration).advance(us(SEC));
    };
    const uint64_t before = work::live();
    uint64_t used[12] = {};
    for (int r = 0; r < 12; ++r) {
        round(n, [&](size_t k) { return ways[k]; });
        settle();
        // One answered now, whichever way: histories of the others are outdated by then.
        round(1, [&](size_t) { return ways[0] == LATE || (r % 2) ? LATE : AT_ONCE; });
        settle();
        used[r] = work::live() - before;
    }
    const uint64_t first = std::max(used[0], used[1]);
    REQUIRE(used[11] <= 2 * first + 2048, "octets on the heap after each of the rounds of ", n, ": ", used[0], " ", used[1], " ... ", used[10], " ", used[11]);
    for (size_t k = 1; k < n; ++k) {
        if (ways[k] != ways[0]) {
            s.nontrivial();
        }
    }
}

namespace {

// The call is made three times; from the second on nothing may stay.
template<typename F>
void nothing_stays(pbt::Src& s, const char* what, F&& f) {
    f();
    const uint64_t before = work::live();
    f();
    f();
    REQUIRE_EQ(work::live(), before, "octets on the heap before and after ", what);
    s.label(what);
}

}

PBT_TEST(calls, 12000, 400000) {
    switch (s.below(6)) {
    case 0:
    case 1: {
        const Bytes tid = gen_tid(s);
        std::vector<Attr> l;
        for (auto n = s.len(8); n > 0; --n) {
            l.push_back(gen_good(s, gen_type(s), tid));
        }
        const bool user = s.flip();
        if (user) {
            l.push_back(Attr{USERNAME, bytes("user")});
        }
        Bytes b = encode(msg_type(static_cast<unsigned>(s.below(4)), 1), tid, l);
        if (s.flip()) {
            add_integrity(b, bytes(s.chance(3, 4) ? "secret" : "other"));
        }
        if (s.flip()) {
            add_fingerprint(b);
        }
        if (s.chance(1, 3)) {
            for (auto n = 1 + s.len(3); n > 0; --n) {
                b[s.below(b.size())] = s.u8();
            }
        }
        const st::IntegrityData key = integrity("secret");
        nothing_stays(s, "a message", [&] {
            st::ParseStat stat;
            const auto r = st::Message::parse(ConstBinaryView(b.data(), b.size()), stat);
            if (r.is_ok()) {
                const auto v = r.unwrap().is_valid(ConstBinaryView(b.data(), b.size()), key);
                const auto o = r.unwrap().build(key);
            }
        });
        const fw::net::Endpoint from{fw::net::UdpEndpoint{address(gen_addr(s).ip), fw::net::Port(9)}};
        Server server(fw::crypto::SHA1Hash::Func(sha1_func), Server::Settings{s.flip()});
        server.add_user(fw::precis::OpaqueString("user"),
                        st::Password::short_term(fw::precis::OpaqueString("secret"), fw::crypto::SHA1Hash::Func(sha1_func)).unwrap());
        nothing_stays(s, "a server", [&] {
            const auto r = server.process(from, ConstBinaryView(b.data(), b.size()));
            if (const auto* a = std::get_if<Server::Respond>(&r)) {
                const auto out = a->response.build(a->maybe_integrity);
            }
        });
        Client client{Settings{}};
        Dev dev{[&] { return 77u; }};
        REQUIRE(client.create(dev, Time::epoch(), make(path(0))).is_ok(), "create failed");
        nothing_stays(s, "a client, of unknown responses", [&] {
            (void)client.response(Time::epoch(), ConstBinaryView(b.data(), b.size()));
        });
        nothing_stays(s, "a client", [&] {
            Client c{Settings{}};
            (void)c.create(dev, Time::epoch(), make(path(0), std::string("p")));
            (void)c.next(Time::epoch());
        });
        s.nontrivial();
        break;
    }
    case 2: {
        std::string t = s.one_of<const char*>({"candidate:1 1 UDP 1 10.0.0.1 9 typ host", "candidate:1 1 UDP 1 ::1 9 typ srflx raddr 1.2.3.4 rport 1", "candidate:", "x"});
        for (auto n = s.len(6); n > 0; --n) {
            t += s.one_of<const char*>({" a b", " raddr", " rport 9", " typ", " generation 0", " ", "a.example-of-a-long-name"});
        }
        nothing_stays(s, "a candidate", [&] {
            const auto r = fw::ice::candidate::parse_sdp_attr(t);
            const auto q = fw::net::Fqdn::from_string(t);
            const auto a = fw::net::ip::Address::from_string(t);
            const auto p = fw::net::Port::from_string(t);
            fw::util::TokenStream ts(fw::util::string_view::split_all(t, ' '));
            (void)ts.required("x");
        });
        s.nontrivial();
        break;
    }
    case 3: {
        Bytes b{static_cast<uint8_t>(0x80 | s.below(64)), static_cast<uint8_t>(s.flip() ? 96 : s.u8())};
        append(b, s.bytes(s.len(60)));
        const fw::rtp::PayloadMap map({{fw::rtp::PayloadType::from_uint8(96).unwrap(), fw::rtp::PayloadMapItem{fw::rtp::ClockRate(90000)}}});
        nothing_stays(s, "a packet", [&] {
            fw::rtp::ParseStat stat;
            const auto r = fw::rtp::Packet::parse(ConstBinaryView(b.data(), b.size()), map, stat);
        });
        s.nontrivial();
        break;
    }
    default: {
        const Bytes d = s.bytes(s.len(200)), k = s.bytes(s.len(200));
        const size_t cut = s.below(d.size() + 1);
        auto all = [&](auto sha1, auto md5) {
            const std::vector<ConstBinaryView> l{ConstBinaryView(d.data(), cut), ConstBinaryView(d.data() + cut, d.size() - cut)};
            const auto h = sha1(l);
            const auto m = md5(l);
            const crypto::SHA1Hash::Func f(sha1);
            const auto o = crypto::hmac::OPadKey::from_key(ConstBinaryView(k.data(), k.size()), f);
            const auto i = crypto::hmac::IPadKey::from_key(ConstBinaryView(k.data(), k.size()), f);
            const auto x = crypto::hmac::digest(l, o.unwrap(), i.unwrap(), f);
        };
        nothing_stays(s, "digests", [&] { all(crypto::openssl::sha1, crypto::openssl::md5); });
        nothing_stays(s, "digests of the node library", [&] { all(crypto::node_openssl::sha1, crypto::node_openssl::md5); });
        s.nontrivial();
    }
    }
}
