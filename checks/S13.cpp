// S13: the request a client sends.
#include <set>
#include "stun_client.hpp"

using namespace ref;

PBT_RULE("1..6 transactions with generated attributes, unknown attributes, credentials and settings, and random devices that "
         "repeat themselves; every request is compared attribute by attribute with an independent decoder and HMAC; and "
         "histories in which transactions end by answers, early or after retransmissions, and by time, and their ids are drawn "
         "again; non-trivial: a request with an attribute or credentials, an ended id drawn again");

PBT_FUZZ(requests, 200000, 5000000) {
    Settings settings = s.chance(1, 4) ? Settings{.maybe_tid_hash = same_hash()} : Settings{};
    const bool fingerprint = s.flip();
    if (!fingerprint || s.flip()) { // else as it is when nobody sets it
        settings.use_fingerprint = Settings::UseFingerprint{fingerprint};
    }
    Client client(settings);
    const auto now = Time::epoch().advance(us(static_cast<int64_t>(s.below(1000000))));
    struct Sent {
        Plan plan;
        Bytes words;
        bool taken = false;
    };
    std::map<unsigned, Sent> all;
    std::vector<Bytes> ids;
    const bool narrow = s.chance(1, 3);
    const unsigned n = 1 + static_cast<unsigned>(s.below(6));
    auto take = [&] {
        const auto e = client.next(now);
        const auto* d = std::get_if<Client::SendData>(&e);
        REQUIRE(d, show(e), " instead of a request");
        const auto it = all.find(d->handle.value);
        REQUIRE(it != all.end() && !it->second.taken, show(e), ": not a new request");
        it->second.taken = true;
        const Bytes b = bytes(d->message_view);
        s.note("handle ", d->handle.value, " sends ", pbt::hex(b));
        REQUIRE(b.size() >= 20, "not a message");
        Plan p = it->second.plan;
        p.tid.assign(b.begin() + 8, b.begin() + 20);
        REQUIRE(std::find(ids.begin(), ids.end(), p.tid) == ids.end(), "transaction id used twice: ", pbt::hex(p.tid));
        ids.push_back(p.tid);
        const Decoded x = check_built(p, b);
        REQUIRE(!x.rfc3489, "no magic cookie");
        if (!p.expected.empty() || p.password) {
            s.nontrivial();
        }
        // the id is made of all the random octets drawn for it
        Bytes got = p.tid, want = it->second.words;
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        REQUIRE(got == want, "transaction id ", pbt::hex(p.tid), " of the random octets ", pbt::hex(it->second.words));
    };
    for (unsigned i = 0; i < n; ++i) {
        Plan p = gen_plan(s, false);
        p.cls = 0;
        p.method = 1;
        p.fingerprint = false;
        std::erase_if(p.values, [](const auto& v) { return std::holds_alternative<st::FingerprintAttribute>(v); });
        const std::string user = text(gen_text(s, 60));
        if (p.password) {
            std::erase_if(p.values, [](const auto& v) { return std::holds_alternative<st::UsernameAttribute>(v); });
            std::erase_if(p.expected, [](const Attr& a) { return a.type == USERNAME; });
            p.expected.push_back(Attr{USERNAME, bytes(user)});
        }
        p.fingerprint = fingerprint;
        Client::Request rq = make(path(static_cast<unsigned>(s.below(5))), p.password, user);
        rq.attrs = p.values;
        rq.unknown_attrs = p.unknown;
        Sent sent;
        Bytes words;
        Dev dev{[&]() -> uint32_t {
            const uint32_t v = narrow ? static_cast<uint32_t>(s.below(2)) * 0x01020304u : s.u32();
            Bytes w;
            put(w, v, 4);
            append(words, w);
            if (words.size() > 12) {
                words.erase(words.begin(), words.end() - 12);
            }
            return v;
        }};
        if (p.password && s.chance(1, 10)) { // signing fails: no transaction
            auto bad = make(path(0), p.password, user);
            bad.attrs = p.values;
            bad.maybe_auth.unwrap().integrity.hash = [](const fw::crypto::SHA1Hash::Input&) -> fw::crypto::SHA1Hash::Result {
                return std::make_error_code(std::errc::io_error);
            };
            const auto r = client.create(dev, now, std::move(bad));
            REQUIRE(r.is_err() && r.unwrap_err().code() == std::make_error_code(std::errc::io_error), "created without a digest");
            if (all.empty()) {
                REQUIRE(std::holds_alternative<Client::Idle>(client.next(now)), "a transaction that was not created is pending");
            }
        }
        const auto r = client.create(dev, now, std::move(rq));
        REQUIRE(r.is_ok(), "create failed: ", r.unwrap_err().code().message());
        REQUIRE(!all.count(r.unwrap().value), "handle given twice");
        sent.plan = std::move(p);
        sent.words = words;
        all[r.unwrap().value] = std::move(sent);
        if (s.flip()) {
            for (const auto& [h, x] : all) {
                if (!x.taken) {
                    take();
                    break;
                }
            }
        }
    }
    for (;;) {
        if (std::all_of(all.begin(), all.end(), [](const auto& x) { return x.second.taken; })) {
            break;
        }
        take();
    }
    REQUIRE(std::holds_alternative<Client::Sleep>(client.next(now)), "more to send");
}

// Requests of any size a message can have.
PBT_TEST(large, 4000, 80000) {
    Settings settings;
    Plan p;
    p.fingerprint = s.flip();
    settings.use_fingerprint = Settings::UseFingerprint{p.fingerprint};
    Client client(settings);
    size_t left = s.flip() ? (size_t{1} << (8 + s.below(8))) - 80 + s.below(100) : s.below(65000);
    for (unsigned i = 0, n = 1 + static_cast<unsigned>(s.below(5)); i < n && left > 8; ++i) {
        const Bytes v(std::min<size_t>(i + 1 == n ? left - 8 : s.below(left - 8), 65000), s.u8());
        left -= (v.size() + 3) / 4 * 4 + 4;
        left = left > 65000 ? 0 : left;
        const auto type = static_cast<uint16_t>(0x8a00 + i);
        p.unknown.emplace_back(st::AttributeType::from_uint16(type), ConstBinaryView(v));
        p.expected.push_back(Attr{type, v});
    }
    if (s.flip()) {
        p.password = gen_password(s);
        p.expected.push_back(Attr{USERNAME, bytes("user")});
    }
    Client::Request rq = make(path(0), p.password, "user");
    rq.unknown_attrs = p.unknown;
    Dev dev{[&] { return s.u32(); }};
    const auto now = Time::epoch();
    REQUIRE(client.create(dev, now, std::move(rq)).is_ok(), "create failed");
    const auto e = client.next(now);
    const auto* d = std::get_if<Client::SendData>(&e);
    REQUIRE(d, show(e), " instead of a request");
    const Bytes b = bytes(d->message_view);
    s.note("a request of ", b.size(), " octets");
    REQUIRE(b.size() >= 20, "not a message");
    p.tid.assign(b.begin() + 8, b.begin() + 20);
    check_built(p, b);
    s.nontrivial();
}

// Requests of very many attributes, each of them sent.
PBT_TEST(very_many_attributes, 2000, 40000) {
    Settings settings;
    Plan p;
    p.fingerprint = s.flip();
    settings.use_fingerprint = Settings::UseFingerprint{p.fingerprint};
    Client client(settings);
    const size_t n = s.flip() ? s.below(3000) : (size_t{1} << s.below(12)) + s.below(3);
    std::vector<Bytes> values(n);
    const size_t len = s.below(16);
    for (size_t i = 0; i < n; ++i) {
        values[i] = Bytes(len, static_cast<uint8_t>(i));
        const auto type = static_cast<uint16_t>(0x9000 + i);
        p.unknown.emplace_back(st::AttributeType::from_uint16(type), ConstBinaryView(values[i]));
        p.expected.push_back(Attr{type, values[i]});
    }
    if (s.flip()) {
        p.password = gen_password(s);
        p.expected.push_back(Attr{USERNAME, bytes("user")});
    }
    Client::Request rq = make(path(0), p.password, "user");
    rq.unknown_attrs = p.unknown;
    Dev dev{[&] { return s.u32(); }};
    const auto now = Time::epoch();
    REQUIRE(client.create(dev, now, std::move(rq)).is_ok(), "create failed");
    const auto e = client.next(now);
    const auto* d = std::get_if<Client::SendData>(&e);
    REQUIRE(d, show(e), " instead of a request");
    const Bytes b = bytes(d->message_view);
    s.note("a request of ", n, " attributes, ", b.size(), " octets");
    REQUIRE(b.size() >= 20, "not a message");
    p.tid.assign(b.begin() + 8, b.begin() + 20);
    check_built(p, b);
    if (n > 0) {
        s.nontrivial();
    }
}

// A request that no message can hold is refused and leaves nothing behind.
PBT_TEST(too_large, 2000, 40000) {
    Settings settings;
    settings.use_fingerprint = Settings::UseFingerprint{s.flip()};
    Client client(settings);
    Dev dev{[&] { return s.u32(); }};
    const auto now = Time::epoch();
    std::vector<unsigned> pending;
    for (auto n = s.below(4); n > 0; --n) {
        const auto h = client.create(dev, now, make(path(0), {}, "user"));
        REQUIRE(h.is_ok(), "create failed");
        pending.push_back(h.unwrap().value);
    }
    std::vector<Bytes> values(1 + s.below(3));
    Client::Request rq = make(path(1), s.flip() ? std::optional<std::string>("pw") : std::nullopt, "user");
    const size_t total = 65536 + s.one_of<size_t>({0, 4, 20, 100, 5000, 65536});
    for (size_t i = 0; i < values.size(); ++i) {
        values[i] = Bytes(total / values.size() + 1, s.u8());
        rq.unknown_attrs.emplace_back(st::AttributeType::from_uint16(static_cast<uint16_t>(0x8a00 + i)), ConstBinaryView(values[i]));
    }
    s.note(values.size(), " attributes of ", values[0].size(), " octets each, ", pending.size(), " pending");
    REQUIRE(client.create(dev, now, std::move(rq)).is_err(), "a request of more than 65535 octets is created");
    for (const auto h : pending) {
        const auto e = client.next(now);
        const auto* d = std::get_if<Client::SendData>(&e);
        REQUIRE(d && d->handle.value == h, show(e), " instead of the request of a pending transaction");
    }
    const auto e = client.next(now);
    REQUIRE(pending.empty() ? std::holds_alternative<Client::Idle>(e) : std::holds_alternative<Client::Sleep>(e), show(e),
            " of a refused request");
    s.nontrivial();
}

// Ids of ended transactions are as good as new ones; those of pending transactions are not.
PBT_FUZZ(reuse, 100000, 3000000) {
    Settings settings = s.chance(1, 4) ? Settings{.maybe_tid_hash = same_hash()} : Settings{};
    Rtx rtx;
    rtx.request_count = 1 + static_cast<unsigned>(s.below(4));
    rtx.retransmission_multiplier = 1 + static_cast<unsigned>(s.below(4));
    if (s.chance(1, 3)) {
        rtx.server_error_timeout = us(100 * MS);
        rtx.server_error_max_retransmits = static_cast<unsigned>(s.below(3));
    }
    settings.retransmit = rtx;
    Client client(settings);
    Time now = Time::epoch();
    using Words = std::array<uint32_t, 3>; // an id as it was drawn
    struct Trans {
        Words words;
        std::optional<std::string> password;
        Bytes tid; // once the request is seen
        unsigned sends = 0;
        bool answered = false;
    };
    std::map<unsigned, Trans> live; // until the result is taken
    std::vector<Words> ended;
    std::map<Words, Bytes> id_of;
    auto step = [&] { // one effect; false if there is nothing now
        const auto e = client.next(now);
        if (is_waiting(e)) {
            return false;
        }
        s.note("next -> ", show(e));
        const auto it = live.find(handle_of(e).value());
        REQUIRE(it != live.end(), show(e), " for a transaction that is not pending");
        Trans& t = it->second;
        if (const auto* d = std::get_if<Client::SendData>(&e)) {
            REQUIRE(d->message_view.size() >= 20, "not a message");
            const Bytes tid = bytes(d->message_view.subview(8, 12).unwrap());
            REQUIRE(t.sends++ == 0 || tid == t.tid, "sent again with another id");
            t.tid = tid;
            const auto [x, fresh] = id_of.emplace(t.words, tid);
            REQUIRE(fresh || x->second == tid, "the same draws gave id ", pbt::hex(tid), " and ", pbt::hex(x->second));
        } else {
            REQUIRE(t.sends > 0, show(e), " before the request");
            s.label(std::string(name(e)) + (t.sends > 1 ? " after retransmission" : ""));
            ended.push_back(t.words);
            live.erase(it);
        }
        return true;
    };
    for (auto n = 2 + s.below(20); n > 0; --n) {
        switch (s.weighted({4, 3, 3, 1})) {
        case 0: {
            if (live.size() >= 6) {
                break;
            }
            std::vector<Words> drawn;
            size_t words = 0;
            bool again = false;
            Dev dev{[&]() -> uint32_t {
                if (words % 3 == 0) {
                    Words w;
                    const auto pick = words >= 60 ? 2 : s.weighted({3, 3, 1});
                    const auto nth = [&] { return std::next(live.begin(), static_cast<long>(s.below(live.size()))); };
                    if (pick == 0 && !ended.empty()) {
                        w = s.pick(ended);
                        again = true;
                    } else if (const auto it = pick == 1 && !live.empty() ? nth() : live.end(); it != live.end() && !it->second.answered) {
                        w = it->second.words;
                    } else {
                        const uint64_t v = pbt::mix(s.below(1000) + 1000 * words), u = pbt::mix(v);
                        w = {static_cast<uint32_t>(v), static_cast<uint32_t>(v >> 32), static_cast<uint32_t>(u)};
                    }
                    if (std::any_of(live.begin(), live.end(), [&](const auto& x) { return x.second.answered && x.second.words == w; })) {
                        pbt::discard(); // free or not: nothing says
                    }
                    drawn.push_back(w);
                }
                return drawn.back()[words++ % 3];
            }};
            std::optional<std::string> pw;
            if (s.chance(1, 4)) {
                pw = "secret";
            }
            const auto r = client.create(dev, now, make(path(static_cast<unsigned>(s.below(3))), pw));
            REQUIRE(r.is_ok(), "create failed");
            const unsigned h = r.unwrap().value;
            REQUIRE(!live.count(h), "handle of a pending transaction");
            auto taken = [&](const Words& w) {
                return std::any_of(live.begin(), live.end(), [&](const auto& x) { return x.second.words == w; });
            };
            size_t i = 0;
            while (i < drawn.size() && taken(drawn[i])) {
                ++i;
            }
            s.note("created ", h, " after ", words, " draws");
            REQUIRE_EQ(words, 3 * (i + 1), "words drawn; the first id no pending transaction has is number ", i);
            live[h] = Trans{drawn[i], pw, {}, 0, false};
            if (again) {
                s.nontrivial();
                s.label("ended id drawn");
            }
            break;
        }
        case 1: {
            if (s.chance(4, 5)) {
                while (step()) {}
            }
            std::vector<unsigned> known;
            for (const auto& [h, x] : live) {
                if (x.sends && !x.answered) {
                    known.push_back(h);
                }
            }
            if (known.empty()) {
                break;
            }
            Trans& t = live[s.pick(known)];
            Bytes b;
            switch (s.below(4)) {
            case 0:
            case 1:
                b = success(t.tid, t.password);
                break;
            case 2:
                b = response(3, t.tid, {error_code(s.one_of<unsigned>({300, 400, 420, 500, 500}))}, t.password);
                break;
            default:
                b = response(2, t.tid, {Attr{0x0030, {1, 2, 3}}}, t.password);
            }
            REQUIRE(client.response(now, Exact(b).view()).is_ok(), "response refused");
            // a server error may only send it again
            t.answered = true;
            const unsigned h = static_cast<unsigned>(std::find_if(live.begin(), live.end(), [&](const auto& x) { return &x.second == &t; })->first);
            if (s.flip()) {
                while (step()) {}
                if (const auto it = live.find(h); it != live.end()) {
                    it->second.answered = false; // still pending
                }
            }
            break;
        }
        case 2:
            now = now.advance(us(1 + static_cast<int64_t>(s.below(s.flip() ? 400 * MS : 3 * SEC))));
            while (step()) {}
            for (auto& [h, x] : live) {
                x.answered = false;
            }
            break;
        default:
            step();
        }
    }
}

// Hundreds of transactions at a time: each has a request and an id of its own.
PBT_TEST(crowd, 1500, 20000) {
    Settings settings = s.chance(1, 10) ? Settings{.maybe_tid_hash = same_hash()} : Settings{};
    const bool fingerprint = s.flip();
    settings.use_fingerprint = Settings::UseFingerprint{fingerprint};
    Client client(settings);
    const Time now = Time::epoch();
    using Words = std::array<uint32_t, 3>;
    std::vector<Words> pending;
    std::map<Words, Bytes> id_of;
    std::map<unsigned, std::pair<Words, std::string>> by_handle;
    const unsigned n = 2 + static_cast<unsigned>(s.big(700)), repeat = 1 + static_cast<unsigned>(s.below(6));
    uint64_t seed = s.u64();
    auto random = [&](uint64_t bound) { return pbt::mix(++seed) % bound; };
    const auto take = [&] {
        const auto e = client.next(now);
        const auto* d = std::get_if<Client::SendData>(&e);
        REQUIRE(d, show(e), " instead of a request");
        const auto it = by_handle.find(d->handle.value);
        REQUIRE(it != by_handle.end(), "request of handle ", d->handle.value, " again or of nobody");
        const Decoded m = decode(bytes(d->message_view));
        REQUIRE(m.ok() && m.cls == 0 && m.method == 1, "not a binding request");
        REQUIRE(m.attrs.size() == 1u + fingerprint && m.attrs[0].type == SOFTWARE && m.attrs[0].value == bytes(it->second.second),
                "the request of another transaction");
        REQUIRE(id_of.emplace(it->second.first, m.tid).second, "one id for two transactions");
        by_handle.erase(it);
    };
    for (unsigned i = 0; i < n; ++i) {
        std::vector<Words> drawn;
        size_t words = 0;
        Dev dev{[&]() -> uint32_t {
            if (words % 3 == 0) {
                const bool old = words < 60 && !pending.empty() && random(7) < repeat;
                drawn.push_back(old ? pending[random(pending.size())]
                                    : Words{static_cast<uint32_t>(pbt::mix(++seed)), static_cast<uint32_t>(pbt::mix(++seed)), i});
            }
            return drawn.back()[words++ % 3];
        }};
        Client::Request rq = make(path(i % 7));
        const std::string name = "transaction " + std::to_string(i);
        rq.attrs.push_back(st::SoftwareAttribute{name});
        const auto r = client.create(dev, now, std::move(rq));
        REQUIRE(r.is_ok(), "create failed");
        size_t k = 0;
        while (k < drawn.size() && std::find(pending.begin(), pending.end(), drawn[k]) != pending.end()) {
            ++k;
        }
        REQUIRE(k < drawn.size() && words == 3 * (k + 1), "transaction ", i, ": ", words, " words drawn; the first id nobody has is number ", k);
        pending.push_back(drawn[k]);
        REQUIRE(by_handle.emplace(r.unwrap().value, std::make_pair(drawn[k], name)).second, "handle given twice");
        if (random(3) == 0) {
            take();
        }
    }
    while (!by_handle.empty()) {
        take();
    }
    std::set<Bytes> ids;
    for (const auto& [w, id] : id_of) {
        REQUIRE(ids.insert(id).second, "two transactions with id ", pbt::hex(id));
    }
    s.label(n > 100 ? "over a hundred" : "up to a hundred");
    s.nontrivial();
}
