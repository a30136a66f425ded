// S11: when a client request is sent again, and when it is given up.
#include "stun_client.hpp"
#include <deque>

using namespace ref;

PBT_RULE("1..6 transactions on paths of their own with any initial timeout, request count, last multiplier and largest "
         "interval, driven exactly on time, late by any amount or called needlessly, some answered, compared with a "
         "schedule model; 5xx answers at any moment of a transaction; non-trivial: at least one retransmission");

namespace {

struct Sched {
    Settings settings;
    int64_t rto, max = 0; // 0: no limit
    unsigned rc, rm;
};

Sched gen_sched(pbt::Src& s) {
    Sched p;
    if (s.chance(1, 10)) { // nothing set: the values of RFC 8489
        p.rto = 500 * MS;
        p.rc = 7;
        p.rm = 16;
        return p;
    }
    const int64_t unit = s.one_of<int64_t>({MS, MS, 10 * MS, 1, SEC});
    p.rto = s.chance(1, 4) ? 500 * MS : unit * (1 + static_cast<int64_t>(s.below(1000)));
    p.rc = s.chance(1, 4) ? 7 : 1 + static_cast<unsigned>(s.below(s.chance(1, 8) ? 24 : 10));
    p.rm = s.chance(1, 4) ? 16 : 1 + static_cast<unsigned>(s.below(s.chance(1, 8) ? 400 : 40));
    if (s.chance(1, 3)) {
        p.max = p.rto * (1 + static_cast<int64_t>(s.below(40))) + static_cast<int64_t>(s.below(1000));
    }
    Rtx r;
    if (p.max != 0) {
        r.max_rto = us(p.max);
    }
    r.request_count = p.rc;
    r.retransmission_multiplier = p.rm;
    p.settings.retransmit = r;
    p.settings.rto_settings.initial_rto = us(p.rto);
    return p;
}

// How long after the k-th request (from 1) something happens.
int64_t interval(const Sched& p, unsigned k) {
    const int64_t v = k < p.rc ? p.rto << (k - 1) : p.rto * p.rm;
    return p.max != 0 && k > 1 ? std::min(v, p.max) : v;
}

struct Model {
    struct Trans {
        unsigned sends = 0;
        int64_t due = 0;
        bool finished = false; // its result is queued or taken
        std::deque<char> queue; // S: request, T: timed out, O: success
        Bytes tid;
    };
    const Sched& plan;
    std::map<unsigned, Trans> all;
    std::vector<int64_t> dues; // all there have been

    explicit Model(const Sched& p) : plan(p) {}

    void send(Trans& t, int64_t now) {
        t.queue.push_back('S');
        ++t.sends;
        t.due = now + interval(plan, t.sends);
        dues.push_back(t.due);
    }
    void tick(int64_t now) {
        for (auto& [h, t] : all) {
            if (!t.finished && t.due <= now) {
                if (t.sends == plan.rc) {
                    t.finished = true;
                    t.queue.push_back('T');
                } else {
                    send(t, now);
                }
            }
        }
    }
};

}

PBT_FUZZ(schedule, 250000, 6000000) {
    const Sched plan = gen_sched(s);
    Client client(plan.settings);
    Model m(plan);
    int64_t now = 0;
    const auto time = [&] { return Time::epoch().advance(us(now)); };
    s.note("rto ", plan.rto, "us, ", plan.rc, " requests, last x", plan.rm, plan.max ? ", at most " + std::to_string(plan.max) + "us" : "");
    int64_t sleep_until = 0;
    unsigned resent = 0;
    bool idle = true;

    auto next = [&] {
        m.tick(now);
        const auto e = client.next(time());
        s.note("next at ", now, " -> ", show(e));
        idle = std::holds_alternative<Client::Idle>(e);
        if (is_waiting(e)) {
            int64_t due = INT64_MAX;
            for (const auto& [h, t] : m.all) {
                REQUIRE(t.queue.empty(), "waiting at ", now, " while handle ", h, " has ", t.queue.front(), " to do");
                if (!t.finished) {
                    due = std::min(due, t.due);
                }
            }
            if (const auto* z = std::get_if<Client::Sleep>(&e)) {
                const auto d = z->sleep.count();
                REQUIRE(d > 0, "sleep of ", d);
                REQUIRE(now + d <= due || due == INT64_MAX, "sleep until ", now + d, " but something is due at ", due);
                REQUIRE(std::count(m.dues.begin(), m.dues.end(), now + d) != 0, "sleep until ", now + d, ", nothing has ever been due then");
                sleep_until = now + d;
            } else {
                REQUIRE(due == INT64_MAX, "idle but something is due at ", due);
            }
            return false;
        }
        const unsigned h = *handle_of(e);
        REQUIRE(m.all.count(h), "unknown handle ", h);
        auto& t = m.all.at(h);
        REQUIRE(!t.queue.empty(), show(e), " at ", now, " though not due before ", t.due);
        const char want = t.queue.front();
        t.queue.pop_front();
        char got = 'S';
        if (const auto* d = std::get_if<Client::SendData>(&e)) {
            t.tid = bytes(d->message_view.subview(8, 12).unwrap());
        } else if (const auto* f = std::get_if<Client::TransactionFailed>(&e)) {
            REQUIRE(is_reason<Client::TransactionFailed::Timeout>(*f), "failed for another reason than time: ", f->reason.index());
            got = 'T';
        } else {
            got = 'O';
        }
        REQUIRE_EQ(got, want, "effect for handle ", h, " at ", now, " after ", t.sends, " requests");
        resent += got == 'S' && t.sends > 1;
        return true;
    };

    unsigned created = 0;
    const unsigned crowd = s.chance(1, 12) ? 80 : 6;
    for (auto n = 4 + s.len(crowd > 6 ? 160 : 60); n > 0; --n) {
        switch (s.weighted({created == 0 ? 100u : crowd > 6 ? 8u : 2u, 4, 3, 6, 3, 1})) {
        case 0: {
            if (created == crowd) {
                break;
            }
            Dev dev{[&] { return s.u32(); }};
            const auto r = client.create(dev, time(), make(path(created)));
            REQUIRE(r.is_ok(), "create failed");
            s.note("create at ", now);
            ++created;
            m.send(m.all[r.unwrap().value], now);
            idle = false;
            break;
        }
        case 1:
            next();
            break;
        case 2:
            while (next()) {
            }
            break;
        case 3: // on time
            while (next()) {
            }
            now = std::max(now, sleep_until);
            break;
        case 4: // early, late, very late
            switch (s.below(4)) {
            case 0: now += static_cast<int64_t>(s.below(static_cast<uint64_t>(plan.rto) + 1)); break;
            case 1: now = std::max(now, sleep_until - 1); break;
            case 2: now = std::max(now, sleep_until) + static_cast<int64_t>(s.below(3)); break;
            default: now += plan.rto * static_cast<int64_t>(s.below(50));
            }
            break;
        default: {
            std::vector<unsigned> open;
            for (const auto& [h, t] : m.all) {
                if (!t.finished && !t.tid.empty()) {
                    open.push_back(h);
                }
            }
            if (open.empty()) {
                break;
            }
            auto& t = m.all.at(s.pick(open));
            const Exact x(success(t.tid));
            s.note("response at ", now);
            REQUIRE(client.response(time(), x.view()).is_ok(), "response rejected");
            t.finished = true;
            t.queue.push_back('O');
        }
        }
    }
    for (unsigned steps = 0; !idle; ++steps) {
        REQUIRE(steps < 8000, "no end");
        if (!next() && !idle) {
            now = sleep_until;
        }
    }
    if (resent > 0) {
        s.nontrivial();
    }
}

// One transaction and server errors that ask for another try.
PBT_FUZZ(server_errors, 150000, 4000000) {
    Sched plan = gen_sched(s);
    auto& rtx = std::get<Rtx>(plan.settings.retransmit);
    const int64_t wait = s.one_of<int64_t>({1, MS, 100 * MS, plan.rto, 10 * plan.rto}) * (1 + static_cast<int64_t>(s.below(20)));
    const unsigned limit = static_cast<unsigned>(s.below(s.chance(1, 8) ? 30 : 6));
    rtx.server_error_timeout = us(wait);
    if (limit != 4) { // else as it is when nobody sets it
        rtx.server_error_max_retransmits = limit;
    }
    Client client(plan.settings);
    int64_t now = static_cast<int64_t>(s.below(1000));
    const auto time = [&] { return Time::epoch().advance(us(now)); };
    Dev dev{[&] { return s.u32(); }};
    s.note("rto ", plan.rto, "us, ", plan.rc, " requests, last x", plan.rm, ", after 5xx ", wait, "us at most ", limit, " times");
    REQUIRE(client.create(dev, time(), make(path(0))).is_ok(), "create failed");
    Bytes tid;
    unsigned sends = 0, errors = 0;
    int64_t due = now, at_5xx = -1;
    bool exact = true; // the time of the next request is known
    for (unsigned steps = 0;; ++steps) {
        REQUIRE(steps < 500, "no end");
        const auto e = client.next(time());
        s.note("next at ", now, " -> ", show(e));
        if (const auto* d = std::get_if<Client::SendData>(&e)) {
            tid = bytes(d->message_view.subview(8, 12).unwrap());
            ++sends;
            REQUIRE(!exact || now == due, "request ", sends, " sent at ", now, " due at ", due);
            REQUIRE(sends <= plan.rc + errors, "request sent ", sends, " times, after ", errors, " server errors");
            exact = errors == 0;
            due = now + (exact ? interval(plan, sends) : 0);
            at_5xx = -1;
        } else if (const auto* z = std::get_if<Client::Sleep>(&e)) {
            const int64_t until = now + z->sleep.count();
            REQUIRE(until > now, "sleep of ", z->sleep.count());
            REQUIRE(!exact || until <= due, "sleep until ", until, " but something is due at ", due);
            if (errors <= limit && s.chance(1, 3)) {
                now += static_cast<int64_t>(s.below(static_cast<uint64_t>(until - now)));
                const Exact x(response(3, tid, {error_code(500 + static_cast<unsigned>(s.below(100)))}));
                s.note("server error at ", now);
                REQUIRE(client.response(time(), x.view()).is_ok(), "response rejected");
                if (errors == limit) {
                    const auto f = client.next(time());
                    const auto* g = std::get_if<Client::TransactionFailed>(&f);
                    REQUIRE(g && is_reason<Client::TransactionFailed::ErrorCode>(*g), show(f), " after ", errors + 1, " server errors");
                    s.label("given up");
                    s.nontrivial();
                    return;
                }
                ++errors;
                exact = true;
                due = now + wait;
                at_5xx = now;
            } else {
                now = until;
            }
        } else {
            const auto* g = std::get_if<Client::TransactionFailed>(&e);
            REQUIRE(g && is_reason<Client::TransactionFailed::Timeout>(*g), show(e));
            REQUIRE_EQ(sends, plan.rc + errors, "requests sent before it timed out");
            REQUIRE(!exact || (now == due && at_5xx < 0), "timed out at ", now, " due at ", due);
            break;
        }
    }
    if (errors > 0) {
        s.nontrivial();
        s.label("timed out after server errors");
    }
}

// Many transactions, each with server errors of its own.
PBT_FUZZ(errors_in_a_crowd, 8000, 200000) {
    Sched plan = gen_sched(s);
    auto& rtx = std::get<Rtx>(plan.settings.retransmit);
    const int64_t wait = s.one_of<int64_t>({1, MS, 100 * MS, plan.rto, 10 * plan.rto}) * (1 + static_cast<int64_t>(s.below(20)));
    const unsigned limit = static_cast<unsigned>(s.below(s.chance(1, 8) ? 30 : 6));
    rtx.server_error_timeout = us(wait);
    rtx.server_error_max_retransmits = limit;
    if (plan.rc > 8) {
        rtx.request_count = plan.rc = 8;
    }
    Client client(plan.settings);
    int64_t now = static_cast<int64_t>(s.below(1000));
    const auto time = [&] { return Time::epoch().advance(us(now)); };
    Dev dev{[&] { return s.u32(); }};
    struct T {
        Bytes tid;
        unsigned sends = 0, errors = 0;
        int64_t due = 0;
        bool exact = true, ended = false, given_up = false;
    };
    std::map<unsigned, T> all;
    std::vector<unsigned> open; // sent and not ended
    const unsigned crowd = 2 + static_cast<unsigned>(s.below(s.flip() ? 4 : 60));
    unsigned to_create = crowd, total_errors = 0;
    s.note("rto ", plan.rto, "us, ", plan.rc, " requests, last x", plan.rm, ", after 5xx ", wait, "us at most ", limit, " times, ", crowd, " transactions");
    for (unsigned steps = 0;; ++steps) {
        REQUIRE(steps < 30000, "no end");
        if (to_create > 0 && (all.empty() || s.chance(1, 3))) {
            --to_create;
            const auto r = client.create(dev, time(), make(path(to_create)));
            REQUIRE(r.is_ok(), "create failed");
            all[r.unwrap().value].due = now;
        }
        const auto e = client.next(time());
        s.note("next at ", now, " -> ", show(e));
        if (const auto* z = std::get_if<Client::Sleep>(&e)) {
            const int64_t until = now + z->sleep.count();
            REQUIRE(until > now, "sleep of ", z->sleep.count());
            for (const auto& [h, t] : all) {
                REQUIRE(t.ended || !t.exact || until <= t.due, "sleep until ", until, " but handle ", h, " is due at ", t.due);
            }
            if (!open.empty() && s.chance(1, 3)) {
                now += static_cast<int64_t>(s.below(static_cast<uint64_t>(until - now)));
                const unsigned h = s.pick(open);
                T& t = all.at(h);
                const Exact x(response(3, t.tid, {error_code(500 + static_cast<unsigned>(s.below(100)))}));
                s.note("server error of handle ", h, " at ", now);
                REQUIRE(client.response(time(), x.view()).is_ok(), "response rejected");
                ++total_errors;
                if (t.errors == limit) {
                    t.given_up = true;
                    t.exact = true;
                    t.due = now;
                } else {
                    ++t.errors;
                    t.exact = true;
                    t.due = now + wait;
                }
            } else {
                now = until;
            }
            continue;
        }
        if (std::holds_alternative<Client::Idle>(e)) {
            if (to_create > 0) {
                continue;
            }
            break;
        }
        const unsigned h = *handle_of(e);
        REQUIRE(all.count(h), "unknown handle ", h);
        T& t = all.at(h);
        REQUIRE(!t.ended, show(e), " after the end");
        if (const auto* d = std::get_if<Client::SendData>(&e)) {
            t.tid = bytes(d->message_view.subview(8, 12).unwrap());
            if (t.sends++ == 0) {
                open.push_back(h);
            }
            REQUIRE(!t.given_up, show(e), " after the last of the server errors");
            REQUIRE(!t.exact || now == t.due, "request ", t.sends, " of handle ", h, " sent at ", now, " due at ", t.due);
            REQUIRE(t.sends <= plan.rc + t.errors, "request sent ", t.sends, " times, after ", t.errors, " server errors");
            t.exact = t.errors == 0;
            t.due = now + (t.exact ? interval(plan, t.sends) : 0);
            continue;
        }
        const auto* g = std::get_if<Client::TransactionFailed>(&e);
        REQUIRE(g, show(e));
        if (t.given_up) {
            REQUIRE(is_reason<Client::TransactionFailed::ErrorCode>(*g), show(e), " after ", t.errors + 1, " server errors");
        } else {
            REQUIRE(is_reason<Client::TransactionFailed::Timeout>(*g), show(e));
            REQUIRE_EQ(t.sends, plan.rc + t.errors, "requests of handle ", h, " sent before it timed out");
        }
        REQUIRE(!t.exact || now == t.due, "ended at ", now, " due at ", t.due);
        t.ended = true;
        std::erase(open, h);
    }
    for (const auto& [h, t] : all) {
        REQUIRE(t.ended, "idle but handle ", h, " has no result");
    }
    if (total_errors > 1) {
        s.nontrivial();
        s.label("errors in a crowd");
    }
}

// Very many requests of one transaction, and very many server errors.
PBT_TEST(very_many, 1500, 40000) {
    Sched plan;
    plan.rto = 1 + static_cast<int64_t>(s.below(2000));
    plan.max = plan.rto * (1 + static_cast<int64_t>(s.below(5)));
    plan.rc = s.chance(1, 20) ? 65536 + static_cast<unsigned>(s.below(100)) - 50
                              : s.one_of<unsigned>({100, 255, 256, 257, 258, 512, 1000}) + static_cast<unsigned>(s.below(60));
    plan.rm = 1 + static_cast<unsigned>(s.below(1000));
    const unsigned limit = s.flip() ? 0 : s.one_of<unsigned>({60, 255, 256, 257, 400}) + static_cast<unsigned>(s.below(30));
    Rtx rtx;
    rtx.max_rto = us(plan.max);
    rtx.request_count = plan.rc;
    rtx.retransmission_multiplier = plan.rm;
    const int64_t wait = 1 + static_cast<int64_t>(s.below(3000));
    if (limit != 0) {
        rtx.server_error_timeout = us(wait);
        rtx.server_error_max_retransmits = limit;
    }
    plan.settings.retransmit = rtx;
    plan.settings.rto_settings.initial_rto = us(plan.rto);
    s.note("rto ", plan.rto, "us, ", plan.rc, " requests, last x", plan.rm, ", at most ", plan.max, "us, after 5xx ", wait, "us at most ", limit, " times");
    Client client(plan.settings);
    int64_t now = 0;
    const auto time = [&] { return Time::epoch().advance(us(now)); };
    Dev dev{[&] { return s.u32(); }};
    REQUIRE(client.create(dev, time(), make(path(0))).is_ok(), "create failed");
    // server errors come after the first of the requests, and are more than there may be
    const unsigned give_up = limit != 0 && s.flip() ? limit + 1 : 0;
    const unsigned errors_wanted = give_up ? give_up : limit != 0 ? static_cast<unsigned>(s.below(limit + 1)) : 0;
    unsigned sends = 0, errors = 0;
    int64_t due = 0;
    Bytes tid;
    for (unsigned steps = 0;; ++steps) {
        REQUIRE(steps < 200000, "no end");
        const auto e = client.next(time());
        if (const auto* d = std::get_if<Client::SendData>(&e)) {
            tid = bytes(d->message_view.subview(8, 12).unwrap());
            ++sends;
            REQUIRE(errors != 0 || now == due, "request ", sends, " sent at ", now, " due at ", due);
            REQUIRE(sends <= plan.rc + errors, "request sent ", sends, " times, after ", errors, " server errors");
            if (errors == 0) {
                due = now + (sends > 1 ? std::min(sends < plan.rc ? plan.rto << std::min(sends - 1, 20u) : plan.rto * plan.rm, plan.max)
                                       : sends < plan.rc ? plan.rto : plan.rto * plan.rm);
            }
            if (errors < errors_wanted) {
                const Exact x(response(3, tid, {error_code(500 + static_cast<unsigned>(s.below(100)))}));
                REQUIRE(client.response(time(), x.view()).is_ok(), "response rejected");
                ++errors;
            }
        } else if (const auto* z = std::get_if<Client::Sleep>(&e)) {
            REQUIRE(z->sleep.count() > 0, "sleep of ", z->sleep.count());
            now += z->sleep.count();
        } else {
            const auto* g = std::get_if<Client::TransactionFailed>(&e);
            if (give_up != 0) {
                REQUIRE(g && is_reason<Client::TransactionFailed::ErrorCode>(*g), show(e), " after ", errors, " server errors");
                REQUIRE_EQ(errors, give_up, "server errors until it was given up");
                s.label("given up");
            } else {
                REQUIRE(g && is_reason<Client::TransactionFailed::Timeout>(*g), show(e));
                REQUIRE_EQ(sends, plan.rc + errors, "requests sent before it timed out");
                REQUIRE(errors != 0 || now == due, "timed out at ", now, " due at ", due);
                s.label("timed out");
            }
            break;
        }
    }
    REQUIRE(std::holds_alternative<Client::Idle>(client.next(time())) || std::holds_alternative<Client::Sleep>(client.next(time())), "more to do");
    s.nontrivial();
}
