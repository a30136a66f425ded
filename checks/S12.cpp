// S12: the retransmission timeout a path's history gives.
#include "stun_client.hpp"

using namespace ref;

PBT_RULE("histories of 2..50 transactions one after another or overlapping on 1..5 paths, answered after any round trip, "
         "answered after retransmissions, refused or never answered, with pauses around the history duration; the first "
         "retransmission of every transaction that gets one is compared with RFC 6298 / Karn in floating point; "
         "non-trivial: a retransmission whose timeout came from history");

namespace {

struct Hist {
    bool measured = false;
    double srtt = 0, rttvar = 0;
    std::optional<double> backoff;
};

// What the history of a path may be; more than one where a stale entry may be kept or dropped.
struct PathModel {
    std::vector<Hist> maybe{Hist{}};
    bool exists = false;
    int64_t last = 0;
};

struct Open {
    unsigned path = 0;
    int64_t created = 0;
    Bytes tid;
    unsigned sends = 0;
    std::vector<double> predicted;
    bool from_history = false;
    std::optional<int64_t> rto;  // seen
};

struct World {
    pbt::Src& s;
    int64_t initial, history;
    unsigned rc, rm;
    Settings settings;
    Client client;
    int64_t now = 0;
    std::vector<PathModel> paths;
    std::map<unsigned, Open> open;
    bool used = false;

    static Settings make_settings(int64_t initial, int64_t history, unsigned rc, unsigned rm) {
        Settings x;
        Rtx r;
        if (rc != 7) { // else as it is when nobody sets it
            r.request_count = rc;
        }
        if (rm != 16) {
            r.retransmission_multiplier = rm;
        }
        x.retransmit = r;
        if (initial != 500 * MS) {
            x.rto_settings.initial_rto = us(initial);
        }
        x.rto_settings.history_duration = us(history);
        return x;
    }
    World(pbt::Src& s, int64_t i, int64_t h, unsigned rc, unsigned rm, unsigned n)
        : s(s), initial(i), history(h), rc(rc), rm(rm), settings(make_settings(i, h, rc, rm)), client(settings), paths(n) {}

    Time time() const { return Time::epoch().advance(us(now)); }

    double rto(const Hist& h) const {
        return h.backoff ? *h.backoff : h.measured ? h.srtt + 4 * h.rttvar : double(initial);
    }

    void create(unsigned p) {
        Dev dev{[&] { return s.u32(); }};
        const auto r = client.create(dev, time(), make(path(p)));
        REQUIRE(r.is_ok(), "create failed");
        Open o;
        o.path = p;
        o.created = now;
        for (const auto& h : paths[p].maybe) {
            o.predicted.push_back(rto(h));
        }
        if (paths[p].exists && now - paths[p].last >= history) {
            o.predicted.push_back(double(initial)); // may be forgotten at any moment
        }
        o.from_history = paths[p].exists;
        open[r.unwrap().value] = o;
        s.note("create handle ", r.unwrap().value, " path ", p, " at ", now, " expect rto ", o.predicted.front(),
               o.predicted.size() > 1 ? " or another" : "");
        drain();
    }

    // All that is due now; how long to sleep, 0: idle.
    int64_t drain() {
        while (true) {
            const auto e = client.next(time());
            if (const auto* z = std::get_if<Client::Sleep>(&e)) {
                REQUIRE(z->sleep.count() > 0, "sleep of ", z->sleep.count());
                return z->sleep.count();
            }
            if (std::holds_alternative<Client::Idle>(e)) {
                return 0;
            }
            s.note("next at ", now, " -> ", show(e));
            const auto it = open.find(*handle_of(e));
            REQUIRE(it != open.end(), show(e), " for no open transaction");
            Open& o = it->second;
            if (is_terminal(e)) {
                open.erase(it);
                continue;
            }
            ++o.sends;
            if (o.sends == 1) {
                o.tid = bytes(std::get<Client::SendData>(e).message_view.subview(8, 12).unwrap());
            } else if (o.sends == 2) {
                o.rto = now - o.created;
                REQUIRE(*o.rto > 0, "request sent again in the instant it was sent, on path ", o.path);
                const bool match = std::any_of(o.predicted.begin(), o.predicted.end(), [&](double x) {
                    return std::abs(double(*o.rto) - x) <= 64 + x * 1e-9;
                });
                REQUIRE(match, "first retransmission on path ", o.path, " after ", *o.rto, "us, expected ", o.predicted.front(), "us",
                        o.predicted.size() > 1 ? " or " + std::to_string(o.predicted.back()) : "");
                if (o.from_history) {
                    used = true;
                    s.nontrivial();
                }
            }
        }
    }

    // Drives the client promptly until `t`.
    void advance_to(int64_t t) {
        for (unsigned steps = 0; now < t; ++steps) {
            REQUIRE(steps < 3000, "too many steps");
            const auto z = drain();
            now = z == 0 ? t : std::min(t, now + z);
        }
        drain();
    }

    void limit(PathModel& p) {
        if (p.maybe.size() > 8) {
            pbt::discard();
        }
    }

    // The history of a path is updated: others too old are dropped.
    void touch(unsigned p, bool certainly) {
        auto& m = paths[p];
        if (m.exists && now - m.last >= history) {
            m.maybe.push_back(Hist{}); // its own was too old
            limit(m);
        }
        m.exists = true;
        m.last = now;
        for (unsigned q = 0; q < paths.size(); ++q) {
            auto& o = paths[q];
            if (q == p || !o.exists || now - o.last < history) {
                continue;
            }
            if (certainly && now - o.last > history) {
                o = PathModel{};
            } else {
                o.maybe.push_back(Hist{});
                limit(o);
            }
        }
    }

    void answer(unsigned h) {
        Open o = open.at(h);
        const Exact x(success(o.tid));
        s.note("success for handle ", h, " at ", now);
        REQUIRE(client.response(time(), x.view()).is_ok(), "response rejected");
        if (o.sends == 1) {
            const double rtt = double(now - o.created);
            touch(o.path, true);
            for (auto& m : paths[o.path].maybe) {
                m.backoff.reset();
                if (!m.measured) {
                    m.measured = true;
                    m.srtt = rtt;
                    m.rttvar = rtt / 2;
                } else {
                    m.rttvar = 0.75 * m.rttvar + 0.25 * std::abs(m.srtt - rtt);
                    m.srtt = 0.875 * m.srtt + 0.125 * rtt;
                }
            }
        } else {
            touch(o.path, false);
            const double last = o.sends == rc ? double(*o.rto) * rm : double(*o.rto) * double(1u << (o.sends - 1));
            for (auto& m : paths[o.path].maybe) {
                m.backoff = last;
            }
        }
        drain();
        REQUIRE(!open.count(h), "transaction is still open");
    }

    void refuse(unsigned h) {
        const Exact x(response(3, open.at(h).tid, {error_code(400)}));
        s.note("refusal for handle ", h, " at ", now);
        REQUIRE(client.response(time(), x.view()).is_ok(), "response rejected");
        drain();
        REQUIRE(!open.count(h), "transaction is still open");
    }
};

}

PBT_FUZZ(histories, 250000, 6000000) {
    const int64_t initial = s.chance(1, 3) ? 500 * MS : MS * (1 + static_cast<int64_t>(s.below(1000)));
    const int64_t history = s.one_of<int64_t>({3600 * SEC, 3600 * SEC, 10 * SEC, SEC, 100 * MS});
    World w(s, initial, history, 2 + static_cast<unsigned>(s.below(6)), 1 + static_cast<unsigned>(s.below(20)),
            1 + static_cast<unsigned>(s.below(5)));
    s.note("initial rto ", initial, "us, history for ", history, "us, ", w.rc, " requests, last x", w.rm);
    for (auto n = 6 + s.len(60); n > 0; --n) {
        switch (s.weighted({w.open.size() > 3 ? 0u : 6u, 4, 5, 1, 1, 1})) {
        case 0:
            w.create(static_cast<unsigned>(s.below(w.paths.size())));
            break;
        case 1: { // an answer, now or after a round trip
            if (w.open.empty()) {
                break;
            }
            const unsigned h = std::next(w.open.begin(), static_cast<long>(s.below(w.open.size())))->first;
            const auto expected = static_cast<uint64_t>(w.open.at(h).predicted.front());
            if (!s.chance(1, 15)) { // else in no time
                w.advance_to(w.now + 1 + static_cast<int64_t>(s.below(std::min<uint64_t>(expected + 1, 10 * SEC))));
            }
            if (w.open.count(h)) {
                w.answer(h);
            }
            break;
        }
        case 2: { // until it is sent again, then perhaps an answer or a refusal
            if (w.open.empty()) {
                break;
            }
            const unsigned h = std::next(w.open.begin(), static_cast<long>(s.below(w.open.size())))->first;
            const unsigned sends = w.open.at(h).sends + 1 + static_cast<unsigned>(s.len(3));
            for (unsigned steps = 0; w.open.count(h) && w.open.at(h).sends < sends; ++steps) {
                REQUIRE(steps < 3000, "too many steps");
                const auto z = w.drain();
                REQUIRE(z > 0 || !w.open.count(h), "idle though a transaction is open");
                w.now += z;
                w.drain();
            }
            if (w.open.count(h)) {
                if (s.chance(2, 3)) {
                    w.advance_to(w.now + static_cast<int64_t>(s.below(100)));
                    if (w.open.count(h)) {
                        s.flip() ? w.answer(h) : w.refuse(h);
                    }
                }
            }
            break;
        }
        case 3: { // a pause
            const int64_t d = s.chance(1, 2) ? static_cast<int64_t>(s.below(static_cast<uint64_t>(w.initial) * 4 + 1))
                : std::max<int64_t>(0, w.history + s.one_of<int64_t>({-2, -1, 0, 1, 2, -1000, 1000}));
            w.advance_to(w.now + d);
            break;
        }
        case 4:
            if (!w.open.empty()) {
                w.refuse(std::next(w.open.begin(), static_cast<long>(s.below(w.open.size())))->first);
            }
            break;
        default: // all to the end
            for (unsigned steps = 0; !w.open.empty(); ++steps) {
                REQUIRE(steps < 3000, "no end");
                w.now += w.drain();
            }
        }
    }
}

// A client that knows many paths, or one for long, forgets none of it before its time.
PBT_TEST(many, 1500, 30000) {
    const int64_t initial = MS * (1 + static_cast<int64_t>(s.below(1000)));
    const unsigned n = s.flip() ? 1 + static_cast<unsigned>(s.below(3)) : 5 + static_cast<unsigned>(s.big(295));
    World w(s, initial, 3600 * SEC, 7, 16, n);
    for (auto rounds = n < 5 ? s.big(300) : 1 + s.below(3); rounds > 0; --rounds) {
        for (unsigned p = 0; p < n; ++p) {
            w.create(p);
            const unsigned h = w.open.begin()->first;
            const auto expected = static_cast<uint64_t>(w.open.at(h).predicted.front());
            w.advance_to(w.now + 1 + static_cast<int64_t>(s.below(std::min<uint64_t>(expected + 1, SEC))));
            if (w.open.count(h)) {
                w.answer(h);
            }
        }
    }
    if (w.now >= 3600 * SEC) {
        pbt::discard();
    }
    for (unsigned i = 0; i < 6; ++i) {
        w.create(static_cast<unsigned>(s.below(n)));
        const unsigned h = w.open.begin()->first;
        for (unsigned steps = 0; w.open.count(h) && w.open.at(h).sends < 2; ++steps) {
            REQUIRE(steps < 3000, "too many steps");
            w.now += w.drain();
            w.drain();
        }
        if (w.open.count(h)) {
            w.refuse(h);
        }
    }
    s.label(n < 5 ? "long known" : n < 60 ? "some paths" : "many paths");
}
