// S09: every client transaction ends exactly once, and nothing follows the end.
#include "stun_client.hpp"
#include <set>

using namespace ref;

PBT_RULE("histories of 3..60 operations on one client: transactions with colliding random ids, responses right, wrong, "
         "late, repeated, unsigned or foreign, parsed beforehand or not, time steps of any size, effects taken at once or "
         "left queued; non-trivial: at least two responses or one time step while effects are queued");

namespace {

struct Trans {
    Bytes tid, octets;
    std::vector<fw::util::ConstBinaryView> views; // of its requests, in memory of the client
    bool ended = false;
    bool sent = false;
    unsigned sends = 0;
    unsigned errors5xx = 0;
    bool may_ok = false;      // an acceptable success response was given
    bool may_fail = false;    // something that fails it was given
    bool must_end = false;    // the result is known: no waiting before it is told
    bool ok_first = false;
    bool loose = false;       // its time might have been over before the response
    std::optional<std::string> password;
};

class World {
public:
    World(pbt::Src& s, const Settings& settings) : s(s), m_settings(settings), client(settings) {}

    void create() {
        const bool narrow = s.chance(3, 4); // ids that collide
        Dev dev{[&]() -> uint32_t { return narrow ? static_cast<uint32_t>(s.below(2)) : s.u32() & 0x7fffffff; }};
        std::optional<std::string> pw;
        if (s.chance(1, 3)) {
            pw = s.flip() ? "secret" : gen_password(s);
        }
        if (all.size() - ended > 5) {
            return; // with ids of 3 bits a free one must be left
        }
        auto r = client.create(dev, now, make(path(static_cast<unsigned>(s.below(4))), pw));
        REQUIRE(r.is_ok(), "create failed: ", r.unwrap_err().code().message());
        const unsigned h = r.unwrap().value;
        s.note("create -> handle ", h);
        REQUIRE(!all.count(h), "handle ", h, " given twice");
        all[h].password = pw;
        idle = false;
    }

    void take(const Client::Effect& e) {
        s.note("next at ", us_now(), " -> ", show(e));
        if (is_waiting(e)) {
            for (const auto& [h, t] : all) {
                REQUIRE(t.sent || t.ended, "waiting while the request of handle ", h, " is not sent");
                REQUIRE(!t.must_end || t.ended, "waiting while the result of handle ", h, " is known");
            }
            if (std::holds_alternative<Client::Idle>(e)) {
                REQUIRE_EQ(ended, all.size(), "idle while transactions are pending");
            } else {
                REQUIRE(std::get<Client::Sleep>(e).sleep.count() > 0, "sleep for ", std::get<Client::Sleep>(e).sleep.count());
            }
            return;
        }
        const unsigned h = *handle_of(e);
        const auto it = all.find(h);
        REQUIRE(it != all.end(), show(e), ": no such transaction");
        Trans& t = it->second;
        REQUIRE(!t.ended, show(e), " after the transaction has ended");
        if (const auto* d = std::get_if<Client::SendData>(&e)) {
            const Bytes b = bytes(d->message_view);
            t.views.push_back(d->message_view);
            if (!t.sent) {
                t.sent = true;
                t.octets = b;
                const Decoded m = decode(b);
                REQUIRE(m.ok() && m.cls == 0 && m.method == 1, "not a binding request: ", pbt::hex(b));
                t.tid = m.tid;
                for (const auto& [g, o] : all) {
                    REQUIRE(g == h || o.ended || o.tid != t.tid, "transactions ", g, " and ", h, " share an id");
                }
            } else {
                REQUIRE(t.octets == b, "retransmission differs: ", pbt::hex(b), " was ", pbt::hex(t.octets));
            }
            ++t.sends;
            const auto& rtx = std::get<Rtx>(m_settings.retransmit);
            REQUIRE(t.sends <= rtx.request_count + (rtx.server_error_timeout.is_some() ? rtx.server_error_max_retransmits : 0),
                    "handle ", h, " sent ", t.sends, " times");
            return;
        }
        t.ended = true;
        ++ended;
        if (std::holds_alternative<Client::TransactionOk>(e)) {
            REQUIRE(t.may_ok, show(e), " without a success response");
            REQUIRE(!t.must_end || t.ok_first, show(e), " but it had failed before");
        } else {
            const auto& f = std::get<Client::TransactionFailed>(e);
            REQUIRE(!t.must_end || !t.ok_first || t.loose, show(e), " but it had succeeded before");
            REQUIRE(t.may_fail || is_reason<Client::TransactionFailed::Timeout>(f), show(e), " with nothing to fail it");
            if (is_reason<Client::TransactionFailed::Timeout>(f)) {
                REQUIRE(!t.must_end || t.loose, show(e), " though it was answered in time");
            }
        }
    }

    // false: waiting
    bool next() {
        const auto e = client.next(now);
        take(e);
        if (const auto* z = std::get_if<Client::Sleep>(&e)) {
            sleep = z->sleep.count();
        }
        idle = std::holds_alternative<Client::Idle>(e);
        maybe_timeout = !is_waiting(e);
        return maybe_timeout;
    }

    void respond() {
        Bytes tid;
        Trans* t = nullptr;
        std::vector<Trans*> known;
        for (auto& [h, x] : all) {
            if (x.sent && (!x.ended || s.chance(1, 4))) {
                known.push_back(&x);
            }
        }
        if (!known.empty() && !s.chance(1, 10)) {
            t = s.pick(known);
            tid = t->tid;
        } else {
            tid = s.bytes(12);
            tid[11] = 0xee; // nobody's
        }
        if (t) { // an id may be used again once free
            for (auto& [h, x] : all) {
                if (x.sent && !x.ended && x.tid == tid) {
                    t = &x;
                }
            }
            for (auto& [h, x] : all) {
                if (!x.sent && t->ended) {
                    return; // may have this id as well
                }
            }
        }
        std::optional<std::string> pw = t ? t->password : std::nullopt;
        bool accepted = t && !t->ended;
        const auto kind = s.below(12);
        if (s.chance(1, 6)) {
            pw = s.flip() ? std::nullopt : std::optional<std::string>("wrong");
        }
        if (t && t->password && pw != t->password) {
            accepted = false;
        }
        Bytes b;
        bool ok = false, fails = false;
        switch (kind) {
        case 0: case 1: case 2: case 3:
            b = success(tid, pw);
            ok = accepted;
            break;
        case 4:
            b = response(2, tid, {}, pw);
            fails = accepted;
            break;
        case 5:
            b = response(3, tid, {error_code(400 + static_cast<unsigned>(s.below(100)))}, pw);
            fails = accepted;
            break;
        case 6:
            b = response(3, tid, {error_code(300)}, pw);
            fails = accepted || (t && !t->ended && !pw && m_settings.allow_unauthenticated_alternate);
            break;
        case 7: case 8: {
            b = response(3, tid, {error_code(500 + static_cast<unsigned>(s.below(100)))}, pw);
            const auto& rtx = std::get<Rtx>(m_settings.retransmit);
            if (accepted && !t->must_end && rtx.server_error_timeout.is_some()) {
                accepted = t->errors5xx++ >= rtx.server_error_max_retransmits; // it is sent again, a limited number of times
            }
            fails = accepted;
            break;
        }
        case 9:
            b = response(3, tid, {}, pw);
            fails = accepted;
            break;
        case 10:
            b = encode(msg_type(static_cast<unsigned>(s.below(2)), 1), tid, {});
            break;
        default:
            b = success(tid, pw);
            b.resize(s.below(b.size()));
        }
        s.note("response at ", us_now(), ": ", pbt::hex(b), ok ? " (success)" : fails ? " (failure)" : "");
        ++responses;
        {
            const Exact x(b);
            fw::Maybe<st::Message> m = fw::none();
            if (s.chance(1, 3)) {
                st::ParseStat stat;
                auto r = st::Message::parse(x.view(), stat);
                if (r.is_ok()) {
                    m = std::move(r.unwrap());
                }
            }
            (void)client.response(now, x.view(), std::move(m));
        }
        if (t && (ok || fails)) {
            t->may_ok |= ok;
            t->may_fail |= fails;
            if (!t->must_end) {
                t->must_end = true;
                t->ok_first = ok;
                t->loose = maybe_timeout;
            }
        }
    }

    // The octets of a request stay where they are until the end of its transaction is told.
    void views() const {
        for (const auto& [h, t] : all) {
            if (!t.ended) {
                for (const auto& v : t.views) {
                    REQUIRE(v.size() == t.octets.size() && std::equal(v.begin(), v.end(), t.octets.begin()),
                            "a request of handle ", h, " has changed before the end");
                }
            }
        }
    }

    // To the end: every transaction gets its result.
    void finish() {
        for (unsigned steps = 0; !idle; ++steps) {
            REQUIRE(steps < 5000, "no end after ", steps, " steps");
            views();
            if (!next() && !idle) {
                now = now.advance(us(sleep));
            }
        }
        REQUIRE_EQ(ended, all.size(), "transactions that have ended");
    }

    pbt::Src& s;
    Settings m_settings;
    Client client;
    Time now = Time::epoch();
    std::map<unsigned, Trans> all;
    size_t ended = 0;
    int64_t sleep = 0;
    unsigned responses = 0;
    bool maybe_timeout = false;
    bool idle = false;

    int64_t us_now() const { return (now - Time::epoch()).count(); }
};

Settings gen_settings(pbt::Src& s) {
    Settings x = s.chance(1, 4) ? Settings{.maybe_tid_hash = same_hash()} : Settings{};
    x.use_fingerprint = Settings::UseFingerprint{s.flip()};
    Rtx r;
    r.request_count = 1 + static_cast<unsigned>(s.below(s.chance(1, 8) ? 24 : 8));
    r.retransmission_multiplier = 1 + static_cast<unsigned>(s.below(17));
    if (s.chance(1, 4)) {
        r.max_rto = us(MS * (1 + static_cast<int64_t>(s.below(10000))));
    }
    if (s.flip()) {
        r.server_error_timeout = us(MS * (1 + static_cast<int64_t>(s.below(3000))));
        r.server_error_max_retransmits = static_cast<unsigned>(s.below(6));
    }
    x.retransmit = r;
    x.rto_settings.initial_rto = us(MS * (1 + static_cast<int64_t>(s.below(1000))));
    x.rto_settings.history_duration = us(MS * static_cast<int64_t>(s.below(100000)));
    x.allow_unauthenticated_alternate = s.chance(1, 4);
    return x;
}

void history(pbt::Src& s) {
    World w(s, gen_settings(s));
    unsigned behind = 0; // time moved while effects might be queued
    for (auto n = 3 + s.len(57); n > 0; --n) {
        switch (s.weighted({3, 5, 6, 3, 2, 2})) {
        case 0:
            w.create();
            break;
        case 1:
            w.next();
            break;
        case 2:
            w.respond();
            break;
        case 3:
            while (w.next()) {
            }
            break;
        case 4:
            behind += w.maybe_timeout;
            w.now = w.now.advance(us(w.sleep));
            break;
        default: {
            behind += w.maybe_timeout;
            const int64_t unit = s.one_of<int64_t>({1, 100, MS, 100 * MS, SEC, 60 * SEC});
            w.now = w.now.advance(us(unit * static_cast<int64_t>(s.below(100))));
        }
        }
        w.views();
    }
    w.finish();
    // ended ids are unknown
    for (const auto& [h, t] : w.all) {
        const Bytes b = success(t.tid, t.password);
        const Exact x(b);
        const auto r = w.client.response(w.now, x.view());
        REQUIRE(r.is_err() && r.unwrap_err().code() == make_error_code(st::ClientError::transaction_not_found),
                "response for the ended transaction ", h, " accepted");
    }
    REQUIRE(!w.next() && w.idle, "something to do after the end");
    if (w.responses >= 2 || behind > 0) {
        s.nontrivial();
    }
    s.label(w.all.size() > 1 ? "several transactions" : "one transaction");
}

}

PBT_FUZZ(histories, 300000, 8000000) {
    history(s);
}

// A long life: hundreds of transactions on one client, some of which stay while all others pass.
PBT_TEST(many, 1500, 20000) {
    Settings x;
    Rtx r;
    r.request_count = 1 + static_cast<unsigned>(s.below(8));
    x.retransmit = r;
    x.rto_settings.initial_rto = us(s.one_of<int64_t>({MS, 500 * MS, 60 * SEC}));
    Client client(x);
    Time now = Time::epoch();
    struct T {
        Bytes tid, octets;
        bool ended = false, answered = false;
        unsigned sends = 0;
    };
    std::map<unsigned, T> all;
    std::map<Bytes, unsigned> pending; // by id
    size_t ended = 0;
    int64_t sleep = 0;
    uint64_t seed = s.u64();
    Dev dev{[&] { return static_cast<uint32_t>((seed = seed * 6364136223846793005u + 1442695040888963407u) >> 33); }};
    const auto drain = [&] {
        for (unsigned steps = 0;; ++steps) {
            REQUIRE(steps < 100000, "no end of effects");
            const auto e = client.next(now);
            if (is_waiting(e)) {
                const auto* z = std::get_if<Client::Sleep>(&e);
                sleep = z ? z->sleep.count() : 0;
                REQUIRE(z || ended == all.size(), "idle while transactions are pending");
                return;
            }
            const unsigned h = *handle_of(e);
            const auto it = all.find(h);
            REQUIRE(it != all.end(), show(e), ": no such transaction");
            T& t = it->second;
            REQUIRE(!t.ended, show(e), " after the transaction has ended");
            if (const auto* d = std::get_if<Client::SendData>(&e)) {
                const Bytes b = bytes(d->message_view);
                if (t.sends++ == 0) {
                    t.octets = b;
                    t.tid.assign(b.begin() + 8, b.begin() + 20);
                    REQUIRE(pending.emplace(t.tid, h).second, "transaction ", h, " shares its id with ", pending[t.tid]);
                }
                REQUIRE(b == t.octets, "retransmission differs");
                REQUIRE(t.sends <= r.request_count, "sent ", t.sends, " times");
                continue;
            }
            REQUIRE_EQ(std::holds_alternative<Client::TransactionOk>(e), t.answered, show(e), " but answered");
            t.ended = true;
            ++ended;
            pending.erase(t.tid);
        }
    };
    const bool busy = s.chance(1, 8);
    const unsigned crowd = 1 + static_cast<unsigned>(s.below(busy ? 600 : 40));
    const unsigned n = crowd + 50 + static_cast<unsigned>(s.below(1000));
    const unsigned batch = s.chance(1, 4) ? 1 + static_cast<unsigned>(s.below(200)) : 1; // effects are taken that often
    const unsigned patience = static_cast<unsigned>(s.below(4)); // of the answering side
    for (unsigned i = 0; i < n; ++i) {
        const auto c = client.create(dev, now, make(path(i % 9)));
        REQUIRE(c.is_ok(), "create failed");
        const unsigned h = c.unwrap().value;
        REQUIRE(!all.count(h), "handle ", h, " given twice, to the transactions ", all.size(), " and an earlier one");
        all[h];
        if (i % batch != 0) {
            continue;
        }
        drain();
        if (dev() % 4 < patience) {
            now = now.advance(us(std::min<int64_t>(sleep, dev() % (100 * MS))));
            drain();
        }
        while (pending.size() > crowd) { // not the first: it stays
            auto it = pending.lower_bound(Bytes{static_cast<uint8_t>(dev())});
            if (it == pending.end()) {
                it = pending.begin();
            }
            if (it->second == all.begin()->first) {
                it = std::next(it) == pending.end() ? pending.begin() : std::next(it);
            }
            all[it->second].answered = true;
            const Exact b(success(it->first));
            REQUIRE(client.response(now, b.view()).is_ok(), "the right response rejected");
            drain();
        }
    }
    drain();
    for (unsigned steps = 0; ended != all.size(); ++steps) {
        REQUIRE(steps < 100000, "no end");
        now = now.advance(us(sleep));
        drain();
    }
    s.label(n > 500 ? "over 500 transactions" : "up to 500 transactions");
    s.nontrivial();
}

// A few or some thousand transactions outlive tens of thousands.
PBT_TEST(long_life, 8, 60) {
    Settings x;
    Rtx r;
    r.request_count = 1;
    x.retransmit = r;
    x.rto_settings.initial_rto = us(3600 * SEC);
    Client client(x);
    Time now = Time::epoch();
    uint64_t seed = s.u64();
    Dev dev{[&] { return static_cast<uint32_t>((seed = seed * 6364136223846793005u + 1442695040888963407u) >> 33); }};
    std::vector<std::pair<unsigned, Bytes>> stay; // handle and id of the long ones
    std::vector<st::client_udp::SendData> views;
    std::vector<Bytes> octets;
    const auto begin = [&] {
        const auto c = client.create(dev, now, make(path(static_cast<unsigned>(stay.size() % 700))));
        REQUIRE(c.is_ok(), "create failed");
        const unsigned h = c.unwrap().value;
        const auto e = client.next(now);
        const auto* d = std::get_if<Client::SendData>(&e);
        REQUIRE(d && d->handle.value == h, show(e), " instead of the request of handle ", h);
        return std::make_tuple(h, bytes(d->message_view.subview(8, 12).unwrap()), *d);
    };
    const auto end = [&](unsigned h, const Bytes& tid) {
        const Exact b(success(tid));
        REQUIRE(client.response(now, b.view()).is_ok(), "the right response rejected");
        const auto e = client.next(now);
        REQUIRE(std::holds_alternative<Client::TransactionOk>(e) && handle_of(e) == h, show(e), " instead of the success of handle ", h);
    };
    std::set<unsigned> handles;
    std::set<Bytes> ids;
    for (auto n = 1 + (s.flip() ? s.below(4) : 1000 + s.below(4000)); n > 0; --n) {
        const auto [h, tid, d] = begin();
        REQUIRE(handles.insert(h).second, "handle ", h, " given twice");
        REQUIRE(ids.insert(tid).second, "id given twice");
        stay.emplace_back(h, tid);
        views.push_back(d);
        octets.push_back(bytes(d.message_view));
    }
    const unsigned many = s.one_of<unsigned>({300, 5000, 66000, 66000});
    s.note(stay.size(), " transactions stay, ", many, " pass");
    for (unsigned i = 0; i < many; ++i) {
        const auto [h, tid, d] = begin();
        REQUIRE(!handles.contains(h), "handle ", h, " given twice");
        REQUIRE(!ids.contains(tid), "id given twice");
        end(h, tid);
        now = now.advance(us(1));
    }
    for (size_t i = 0; i < stay.size(); ++i) {
        REQUIRE(bytes(views[i].message_view) == octets[i], "a request of handle ", stay[i].first, " has changed before the end");
        end(stay[i].first, stay[i].second);
    }
    const auto e = client.next(now);
    REQUIRE(!is_terminal(e) && !std::holds_alternative<Client::SendData>(e), show(e), " after the end of all");
    s.nontrivial();
}
