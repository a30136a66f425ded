// B03: the STUN client as JavaScript uses it, on a clock the check moves.
#include <time.h>

#include <chrono>
#include <cstdlib>
#include <map>
#include <set>
#include <tuple>

#include "js.hpp"
#include "stun_client.hpp"

#include "clock/clock_std.hpp"
#include "node/node_stun/node_stun_client_udp.hpp"

using namespace ref;

PBT_RULE("histories of 1..40 calls (create, next, response; waiting as long as told, longer, or not at all) to a client made "
         "through the binding, next to the library's client given the same requests, the same moments and the same responses "
         "with its own ids; every object is compared with the library's effect; the clock is moved by the check; non-trivial: "
         "a transaction ended");

namespace {
thread_local bool g_virtual = false;
thread_local int64_t g_now_ns = 1000000000; // never moves back
}

// Replaces that of the C++ library: the binding asks it for the time.
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    if (g_virtual) {
        return time_point(duration(g_now_ns));
    }
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(duration(int64_t(t.tv_sec) * 1000000000 + t.tv_nsec));
}

namespace {

struct Frozen {
    Frozen() { g_virtual = true; }
    ~Frozen() { g_virtual = false; }
};

struct Known {
    Bytes tid, core_tid;
    std::optional<std::string> password;
};

struct World {
    pbt::Src& s;
    js::Env env;
    js::Value klass, self;
    bool fingerprint;
    std::unique_ptr<Client> core;
    std::map<Bytes, Bytes> ids; // of the library's client, by those of the binding
    std::map<int64_t, Known> sent; // by handle
    int64_t sleep_ms = -1;
    uint32_t serial = 0;
    std::map<int64_t, std::tuple<std::optional<std::string>, std::string>> auth;

    explicit World(pbt::Src& s)
        : s(s), klass(fw::node_stun::client_udp_class(env, "Client").unwrap()), self(js::undefined()), fingerprint(true) {
        js::Value options = js::object({});
        if (s.flip()) {
            fingerprint = s.flip();
            options = js::object({{"use_fingerprint", js::boolean(fingerprint)}});
        }
        auto r = craftnapi::js_new(env, klass, {options});
        REQUIRE(r.is_ok(), "no client was made: ", r.unwrap_err().message());
        self = r.unwrap();
        Settings settings;
        settings.use_fingerprint = Settings::UseFingerprint{fingerprint};
        core = std::make_unique<Client>(settings);
        s.note("fingerprint ", fingerprint);
    }

    js::R call(const char* name, std::vector<js::Value> args) {
        const Frozen f;
        return craftnapi::js_call(env, klass, self, name, std::move(args));
    }
    Time now() const {
        const Frozen f;
        return fw::clock::steady_clock_now();
    }

    void create() {
        static const std::vector<std::string> sources{"127.0.0.1", "192.168.0.1", "fe80::1"}, targets{"10.0.0.1", "10.0.0.2", "2001:db8::1"};
        const auto src = s.pick(sources), dst = s.pick(targets);
        std::optional<std::string> pw;
        std::string user;
        std::vector<std::pair<std::string, js::Value>> o{{"source", js::string(src)}, {"target", js::string(dst)}};
        if (s.chance(1, 3)) {
            pw = gen_password(s);
            user = text(gen_text(s, 20));
            o.emplace_back("auth", js::object({{"username", js::string(user)}, {"password", js::string(*pw)}}));
        }
        if (s.chance(1, 8)) {
            wrong_create(o, pw.has_value());
            return;
        }
        const auto r = call("create", {js::object(o)});
        REQUIRE(r.is_ok(), "no transaction: ", r.unwrap_err().message());
        const auto h = static_cast<int64_t>(js::get(*r.unwrap().node(), "value", js::Node::number).num);
        Dev dev{[&] { return ++serial * 2654435761u; }};
        const auto c = core->create(dev, now(), make({fw::net::ip::Address::from_string(src).unwrap(), fw::net::ip::Address::from_string(dst).unwrap()}, pw, user));
        REQUIRE_EQ(h, int64_t(c.unwrap().value), "handle");
        s.note("create ", src, " ", dst, " ", pw ? "with credentials" : "", " -> handle ", h);
        auth[h] = {pw, user};
    }

    void wrong_create(std::vector<std::pair<std::string, js::Value>> o, bool with_auth) {
        const char* what = "";
        js::R r = js::R(js::undefined());
        switch (s.below(with_auth ? 6 : 4)) {
        case 0:
            what = "nothing";
            r = s.flip() ? call("create", {}) : call("create", {js::string("x")});
            break;
        case 1:
            what = "no address";
            o[s.below(2)].second = js::string(s.one_of<const char*>({"", "x", "1.2.3", "1.2.3.4.5", ":::"}));
            r = call("create", {js::object(o)});
            break;
        case 2:
            what = "address of another type";
            o[s.below(2)].second = js::wrong(s, js::Node::string);
            r = call("create", {js::object(o)});
            break;
        case 3:
            what = "address missing";
            o.erase(o.begin() + static_cast<long>(s.below(2)));
            r = call("create", {js::object(o)});
            break;
        case 4:
            what = "credentials missing";
            o[2].second.node()->props.erase(o[2].second.node()->props.begin() + static_cast<long>(s.below(2)));
            r = call("create", {js::object(o)});
            break;
        default:
            what = "credentials of another type";
            o[2].second.node()->props[s.below(2)].second = js::wrong(s, js::Node::string).node();
            r = call("create", {js::object(o)});
        }
        s.label(what);
        REQUIRE(r.is_err(), "created with ", what);
    }

    void next() {
        const auto r = call("next", {});
        const auto e = core->next(now());
        REQUIRE(r.is_ok(), "no effect: ", r.unwrap_err().message(), " expected ", show(e));
        const js::Node& o = *r.unwrap().node();
        s.note("next -> ", js::show(r.unwrap().node()), " ", show(e));
        sleep_ms = -1;
        std::visit(fw::util::overloaded {
            [&](const Client::SendData& d) {
                js::is_string(o, "type", "send_data");
                const Bytes b = js::get(o, "message", js::Node::buffer).bytes;
                request(b, bytes(d.message_view), int64_t(d.handle.value));
                s.label("send");
            },
            [&](const Client::TransactionOk& t) {
                js::is_string(o, "type", "transaction_ok");
                const js::Node& res = js::get(o, "result", js::Node::object);
                REQUIRE(js::octets(js::get(res, "addr", js::Node::string).str) == ip_octets(t.result.address), "address");
                js::is_number(res, "port", t.result.port.value());
                REQUIRE_EQ(js::find(o, "rtt_us") != nullptr, t.round_trip.is_some(), "rtt_us");
                if (t.round_trip.is_some()) {
                    const auto rtt = std::chrono::duration_cast<std::chrono::microseconds>(t.round_trip.unwrap()).count();
                    const auto got = js::get(o, "rtt_us", js::Node::number).num;
                    if (!(rtt > INT32_MAX && got == static_cast<double>(static_cast<int32_t>(rtt)) && pbt::known_finding("B03-rtt-over-int32"))) {
                        REQUIRE(got == static_cast<double>(rtt), "rtt_us is ", got, " expected ", rtt);
                    }
                }
                const js::Node& h = js::get(js::get(o, "response", js::Node::object), "header", js::Node::object);
                js::is_string(h, "class", "success_response");
                const auto it = ids.find(js::get(h, "transaction", js::Node::buffer).bytes);
                REQUIRE(it != ids.end() && it->second == bytes(t.response.header.transaction_id.view()), "response of another transaction");
                forget(it->first);
                s.label("ok");
                s.nontrivial();
            },
            [&](const Client::TransactionFailed& f) {
                js::is_string(o, "type", "transaction_fail");
                js::is_number(js::get(o, "handle", js::Node::object), "value", f.handle.value);
                const auto reason = js::get(o, "reason", js::Node::string).str;
                auto has = [&](const std::string& x) {
                    REQUIRE(reason.find(x) != std::string::npos, "reason ", pbt::quote(reason), " without ", pbt::quote(x));
                    s.label(x);
                };
                std::visit(fw::util::overloaded {
                    [&](const Client::TransactionFailed::Timeout&) { has("timeout"); },
                    [&](const Client::TransactionFailed::AlternateServer&) { has("alternate server"); },
                    [&](const Client::TransactionFailed::UnknownAttributeReported&) { has("reported"); },
                    [&](const Client::TransactionFailed::UnknownComprehensionRequiredAttribute&) { has("comprehension"); },
                    [&](const Client::TransactionFailed::ErrorCode& c) {
                        has(std::to_string(c.attr.code));
                        if (c.attr.reason_phrase.is_some()) {
                            REQUIRE(reason.find(c.attr.reason_phrase.unwrap()) != std::string::npos, "reason phrase is lost");
                        }
                    },
                    [&](const Client::TransactionFailed::Error& x) { has(x.code.message()); },
                }, f.reason);
                sent.erase(int64_t(f.handle.value));
                s.nontrivial();
            },
            [&](const Client::Sleep& w) {
                js::is_string(o, "type", "sleep");
                const auto ms = js::get(o, "timeout_ms", js::Node::number).num;
                const auto want = std::chrono::duration_cast<std::chrono::microseconds>(w.sleep).count();
                REQUIRE(ms * 1000 >= static_cast<double>(want), "sleep of ", ms, " ms, too short for ", want, " us");
                REQUIRE(ms * 1000 < static_cast<double>(want + 1000), "sleep of ", ms, " ms, too long for ", want, " us");
                sleep_ms = static_cast<int64_t>(ms);
                s.label("sleep");
            },
            [&](const Client::Idle&) {
                js::is_string(o, "type", "idle");
            },
        }, e);
    }
    void forget(const Bytes& tid) {
        for (auto it = sent.begin(); it != sent.end(); ++it) {
            if (it->second.tid == tid) {
                sent.erase(it);
                return;
            }
        }
    }

    // The binding's request: what was asked for, and that of the library's client but for the id.
    void request(const Bytes& b, const Bytes& c, int64_t h) {
        const Decoded d = decode(b), e = decode(c);
        REQUIRE(d.ok() && d.cls == 0 && d.method == 1 && d.tid.size() == 12, "not a right request: ", pbt::hex(b));
        REQUIRE(e.ok(), "not a right request by the library");
        const auto& [pw, user] = auth.at(h);
        REQUIRE_EQ(d.integrity_at.has_value(), pw.has_value(), "MESSAGE-INTEGRITY");
        REQUIRE_EQ(d.first(USERNAME) != nullptr, pw.has_value(), "USERNAME");
        if (pw) {
            REQUIRE(d.first(USERNAME)->value == bytes(user), "USERNAME is ", pbt::hex(d.first(USERNAME)->value));
            REQUIRE(d.first(INTEGRITY)->value == integrity_of(Bytes(b.begin(), b.begin() + static_cast<long>(*d.integrity_at)), bytes(*pw)),
                    "MESSAGE-INTEGRITY of ", pbt::hex(b));
        }
        REQUIRE_EQ(d.fingerprint_at.has_value(), fingerprint, "FINGERPRINT");
        REQUIRE_EQ(b.size(), c.size(), "size of the request");
        const auto [it, fresh] = ids.emplace(d.tid, e.tid);
        REQUIRE(it->second == e.tid, "the id of another transaction");
        sent[h] = Known{d.tid, e.tid, pw};
        (void)fresh;
    }

    void respond() {
        if (sent.empty()) {
            return;
        }
        const auto it = std::next(sent.begin(), static_cast<long>(s.below(sent.size())));
        const Known k = it->second;
        const Addr a = gen_addr(s);
        const unsigned kind = static_cast<unsigned>(s.below(7)), code = s.one_of<unsigned>({300, 400, 401, 420, 438, 500, 699});
        const std::string phrase = s.chance(1, 15) ? s.filler("abc xyz", s.big(760)) : s.str("abc xyz", s.len(12));
        const size_t more = s.chance(1, 12) ? s.big(60000) : 0;
        const bool spoil = s.chance(1, 6);
        const auto bit = s.below(512), pw = s.below(8);
        auto make_one = [&](const Bytes& tid) {
            const auto key = pw == 0 ? std::optional<std::string>("another") : k.password;
            Bytes b;
            auto with_more = [&](std::vector<Attr> l) {
                if (more != 0) {
                    l.push_back(Attr{0x8030, Bytes(more, 'm')});
                }
                return l;
            };
            switch (kind) {
            case 0: b = response(3, tid, with_more({error_code(code, phrase)}), key); break;
            case 1: b = response(2, tid, with_more({Attr{MAPPED, mapped(a)}}), key); break;
            case 2: b = response(2, tid, with_more({Attr{XOR_MAPPED, xor_mapped(a, tid)}, Attr{0x0031, {}}}), key); break;
            case 3: b = response(2, tid, with_more({}), key); break;
            default: b = response(2, tid, with_more({Attr{XOR_MAPPED, xor_mapped(a, tid)}}), key, true); break;
            }
            if (spoil) {
                b.resize(bit % b.size());
            }
            return b;
        };
        const Bytes b = make_one(k.tid), c = make_one(k.core_tid);
        const auto r = call("response", {js::buffer(b)});
        const Exact x(c);
        const auto rv = core->response(now(), x.view());
        s.note("response ", pbt::hex(b), " -> ", r.is_ok(), " ", rv.is_ok());
        // whether a response that is not accepted is reported as an error to JavaScript is not specified
        REQUIRE(r.is_ok() || rv.is_err(), "an error for a right response: ", r.unwrap_err().message());
        REQUIRE(call("response", {js::wrong(s, js::Node::buffer)}).is_err(), "a response out of no buffer");
    }

    void wait() {
        int64_t us = 0;
        switch (s.below(5)) {
        case 0: us = sleep_ms >= 0 ? sleep_ms * 1000 : 0; break;
        case 1: us = sleep_ms >= 0 ? sleep_ms * 1000 : 0; break;
        case 2: us = sleep_ms > 0 ? static_cast<int64_t>(s.below(static_cast<uint64_t>(sleep_ms) * 1000)) : 0; break;
        case 3: us = static_cast<int64_t>(s.below(3000000)); break;
        default: us = static_cast<int64_t>(s.below(s.chance(1, 10) ? 5000ull * SEC : 100ull * SEC)); break;
        }
        g_now_ns += us * 1000;
        s.note("wait ", us, "us");
    }
};

}

PBT_FUZZ(histories, 60000, 1500000) {
    World w(s);
    w.create();
    for (auto n = 1 + s.len(39); n > 0; --n) {
        switch (s.weighted({1, 6, 3, 3})) {
        case 0: w.create(); break;
        case 1: w.next(); break;
        case 2: w.wait(); break;
        default: w.respond(); break;
        }
    }
}

// A program that waits as long as it is told sends as often as it should, and
// never asks again in vain.
PBT_TEST(as_told, 4000, 40000) {
    World w(s);
    w.create();
    const auto lag = s.below(3) == 0 ? 0 : static_cast<int64_t>(s.below(20000)); // timers of node fire late
    unsigned sends = 0, sleeps = 0;
    for (unsigned i = 0; i < 40; ++i) {
        const auto r = w.call("next", {});
        REQUIRE(r.is_ok(), "no effect");
        const js::Node& o = *r.unwrap().node();
        const auto type = js::get(o, "type", js::Node::string).str;
        if (type == "send_data") {
            ++sends;
        } else if (type == "sleep") {
            ++sleeps;
            g_now_ns += static_cast<int64_t>(js::get(o, "timeout_ms", js::Node::number).num) * 1000000 + lag * 1000;
        } else if (type == "transaction_fail") {
            js::is_string(o, "reason", "timeout");
            break;
        } else {
            // a request refused by create leaves nothing to do
            REQUIRE(type == "idle" && i == 0, "effect ", type);
            return;
        }
    }
    s.note("lag ", lag, " sends ", sends, " sleeps ", sleeps);
    REQUIRE_EQ(sends, 7u, "requests sent");
    REQUIRE_EQ(sleeps, 7u, "times slept");
    s.nontrivial();
}

// Ids are taken from all 2^96 ones and cannot be foretold from those of another
// run of the program.
PBT_TEST(ids, 40, 400) {
    auto run = [&](unsigned n) {
        World w(s);
        std::vector<Bytes> out;
        for (unsigned i = 0; i < n; ++i) {
            REQUIRE(w.call("create", {js::object({{"source", js::string("127.0.0.1")}, {"target", js::string("10.0.0.1")}})}).is_ok(), "create");
            const auto r = w.call("next", {});
            js::is_string(*r.unwrap().node(), "type", "send_data");
            out.push_back(decode(js::get(*r.unwrap().node(), "message", js::Node::buffer).bytes).tid);
        }
        return out;
    };
    // what a program starts with
    srand(1);
    srandom(1);
    const auto first = run(70);
    srand(1);
    srandom(1);
    const auto second = run(70);
    std::set<Bytes> all(first.begin(), first.end());
    all.insert(second.begin(), second.end());
    REQUIRE_EQ(all.size(), size_t(140), "different ids of two clients");
    for (unsigned bit = 0; bit < 96; ++bit) {
        unsigned ones = 0;
        for (const auto& id : all) {
            ones += (id[bit / 8] >> (bit % 8)) & 1u;
        }
        // chance of a false alarm: 2^-132 or so
        REQUIRE(ones != 0 && ones != all.size(), "bit ", bit, " of the ids is always ", ones != 0);
    }
    s.nontrivial();
}
