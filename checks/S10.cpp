// S10: what a response does to the client transaction it belongs to.
#include "stun_client.hpp"
#include <set>

using namespace ref;

PBT_RULE("up to four responses generated attribute by attribute (right and wrong ids, signed, unsigned, wrongly signed, "
         "with unknown attributes, any error code, octets changed) to one of 1..4 pending transactions with or without "
         "credentials, before and after retransmissions, compared with the decision table of RFC 5389 over an independent "
         "decoder; non-trivial: a well formed response with the id of the transaction");

namespace {

struct Expect {
    enum What { ignored, rejected, ok, unknown_required, unknown_reported, alternate, error_code, no_address, no_code,
                no_alternate, resend } what = ignored;
    std::optional<st::ClientError> error; // why it is rejected
    Addr addr;
    std::vector<uint16_t> types;
    Bytes code;
};

struct World {
    pbt::Src& s;
    Settings settings;
    Client client;
    Time now = Time::epoch();
    Time created = now;
    unsigned target = 0;
    std::optional<std::string> password;
    Bytes tid;
    std::set<Bytes> tids; // of the others
    unsigned sends = 0, errors5xx = 0;
    int64_t sleep = 0;

    World(pbt::Src& s, const Settings& x, bool unset = false) : s(s), settings(x), client(unset ? Settings{} : x) {}

    const Rtx& rtx() const { return std::get<Rtx>(settings.retransmit); }

    Expect expect(const Decoded& d, const Bytes& b) const {
        Expect e;
        if (!d.ok()) {
            return {Expect::rejected};
        }
        if (d.tid != tid) {
            return {Expect::rejected, st::ClientError::transaction_not_found};
        }
        const Attr* ec = d.first(ERROR_CODE);
        const unsigned code = ec ? (ec->value[2] & 7) * 100u + ec->value[3] : 0;
        if (password) {
            if (d.integrity_at) {
                const Bytes upto(b.begin(), b.begin() + static_cast<long>(*d.integrity_at));
                if (integrity_of(upto, bytes(*password)) != d.first(INTEGRITY)->value) {
                    return {Expect::rejected, st::ClientError::digest_is_not_valid};
                }
            } else if (!(settings.allow_unauthenticated_alternate && d.cls == 3 && ec && code == 300)) {
                return {Expect::rejected, st::ClientError::no_integrity_attribute_in_response};
            }
        }
        if (d.cls < 2) {
            return {Expect::ignored};
        }
        if (const auto u = d.unknown_required(); !u.empty()) {
            e.what = Expect::unknown_required;
            e.types = u;
            return e;
        }
        if (d.cls == 2) {
            if (const Attr* x = d.first(XOR_MAPPED)) {
                e.what = Expect::ok;
                e.addr = unxor(*x, tid);
            } else if (const Attr* m = d.first(MAPPED)) {
                e.what = Expect::ok;
                e.addr = addr_of(*m);
            } else {
                e.what = Expect::no_address;
            }
            return e;
        }
        if (!ec) {
            e.what = Expect::no_code;
            return e;
        }
        e.what = Expect::error_code;
        e.code = ec->value;
        switch (code / 100) {
        case 3:
            if (code == 300) {
                const Attr* a = d.first(ALTERNATE);
                e.what = a ? Expect::alternate : Expect::no_alternate;
                if (a) {
                    e.addr = addr_of(*a);
                }
            }
            break;
        case 4:
            if (const Attr* a = d.first(UNKNOWN_ATTRS); a && code == 420) {
                e.what = Expect::unknown_reported;
                for (size_t i = 0; i < a->value.size(); i += 2) {
                    e.types.push_back(static_cast<uint16_t>(get(a->value, i, 2)));
                }
            }
            break;
        case 5:
            if (rtx().server_error_timeout.is_some() && errors5xx < rtx().server_error_max_retransmits) {
                e.what = Expect::resend;
            }
            break;
        default:
            e.what = Expect::ignored;
        }
        return e;
    }

    Bytes message(bool& mine) {
        mine = !s.chance(1, 10);
        Bytes id = tid;
        if (!mine) {
            if (s.flip()) {
                id[s.below(12)] ^= static_cast<uint8_t>(1u << s.below(8));
            } else {
                id = gen_tid(s);
            }
        }
        const unsigned cls = static_cast<unsigned>(s.weighted({1, 1, 10, 20}));
        std::vector<Attr> l;
        for (auto n = s.len(4); n > 0; --n) {
            const uint16_t t = s.one_of<uint16_t>({USERNAME, SOFTWARE, PRIORITY, ALTERNATE, UNKNOWN_ATTRS, XOR_MAPPED, MAPPED,
                                                   0x8030, 0xc000, CONTROLLED, USE_CANDIDATE});
            l.push_back(gen_good(s, t, tid));
        }
        if (s.chance(1, 6)) {
            for (auto n = s.chance(1, 10) ? 1 + s.big(80) : 1 + s.len(3); n > 0; --n) {
                l.push_back(Attr{s.one_of<uint16_t>({0x0002, 0x0014, 0x7fff, 0x0030, 0x0000}), gen_text(s, n > 4 ? 2 : 10)});
            }
        }
        if (cls == 2 ? !s.chance(1, 8) : s.chance(1, 10)) {
            if (!s.chance(1, 3)) {
                l.push_back(gen_good(s, XOR_MAPPED, tid));
            }
            if (s.chance(1, 3)) {
                l.push_back(gen_good(s, MAPPED, tid));
            }
        }
        if (cls == 3 ? !s.chance(1, 10) : s.chance(1, 10)) {
            const unsigned code = s.chance(1, 2) ? s.one_of<unsigned>({300, 300, 400, 401, 420, 420, 438, 500, 599, 399, 499, 301, 299, 600})
                                                 : static_cast<unsigned>(s.below(800));
            l.push_back(error_code(code, s.flip() ? text(gen_text(s, 20)) : ""));
            if (s.chance(1, 2)) {
                l.push_back(gen_good(s, code == 300 ? ALTERNATE : UNKNOWN_ATTRS, tid));
            }
        }
        for (size_t i = l.size(); i > 1; --i) {
            std::swap(l[i - 1], l[s.below(i)]);
        }
        Bytes b = encode(msg_type(cls, s.chance(1, 20) ? static_cast<unsigned>(s.below(4096)) : 1), id, l,
                         static_cast<uint8_t>(s.below(256)));
        const bool sign = password ? !s.chance(1, 6) : s.chance(1, 6);
        if (sign) {
            add_integrity(b, password && !s.chance(1, 8) ? bytes(*password) : bytes(gen_password(s)));
            if (s.chance(1, 8)) {
                put_attr(b, gen_good(s, s.one_of<uint16_t>({SOFTWARE, XOR_MAPPED, ERROR_CODE, 0x0030}), tid)); // counts for nothing
                fix_len(b);
            }
            if (s.chance(1, 8)) {
                const size_t at = s.below(b.size());
                b[at] ^= static_cast<uint8_t>(1u << s.below(8));
            }
        } else if (s.chance(1, 20)) {
            b[s.below(b.size())] ^= static_cast<uint8_t>(1u << s.below(8));
        }
        if (s.chance(1, 4)) {
            add_fingerprint(b);
        }
        if (s.chance(1, 30)) {
            b.resize(s.below(b.size()));
        }
        return b;
    }

    static void same_types(const std::vector<st::AttributeType>& got, const std::vector<uint16_t>& want, const char* what) {
        REQUIRE_EQ(got.size(), want.size(), what);
        for (size_t i = 0; i < got.size(); ++i) {
            REQUIRE_EQ(got[i].value(), want[i], what, " at ", i);
        }
    }
    static void same_addr(const fw::net::UdpEndpoint& ep, const Addr& a, const char* what) {
        REQUIRE(ip_octets(ep.address) == a.ip && ep.port.value() == a.port, what, ": ", pbt::hex(ip_octets(ep.address)), " port ",
                ep.port.value(), " expected ", pbt::hex(a.ip), " port ", a.port);
    }

    void check(const Client::Effect& e, const Expect& x, const Decoded& d) {
        using F = Client::TransactionFailed;
        REQUIRE_EQ(handle_of(e).value_or(~0u), target, show(e), " for another transaction");
        if (x.what == Expect::ok) {
            const auto* o = std::get_if<Client::TransactionOk>(&e);
            REQUIRE(o, show(e), " instead of success");
            same_addr(o->result, x.addr, "reported address");
            REQUIRE_EQ(o->round_trip.is_some(), sends == 1, "round trip known after ", sends, " requests");
            if (sends == 1) {
                REQUIRE_EQ(o->round_trip.unwrap().count(), (now - created).count(), "round trip");
            }
            REQUIRE(bytes(o->response.header.transaction_id.view()) == tid, "transaction id of the response reported");
            REQUIRE_EQ(cls_of(o->response.header.cls), 2u, "class of the response reported");
            same_attributes(o->response, d);
            return;
        }
        const auto* f = std::get_if<F>(&e);
        REQUIRE(f, show(e), " instead of failure ", int(x.what));
        auto error = [&](st::ClientError ce) {
            const auto* r = std::get_if<F::Error>(&f->reason);
            REQUIRE(r && r->code.code() == make_error_code(ce), show(e), ": expected error ", make_error_code(ce).message());
        };
        switch (x.what) {
        case Expect::unknown_required: {
            const auto* r = std::get_if<F::UnknownComprehensionRequiredAttribute>(&f->reason);
            REQUIRE(r, show(e), ": expected unknown comprehension-required");
            same_types(r->attrs, x.types, "unknown comprehension-required attributes");
            break;
        }
        case Expect::unknown_reported: {
            const auto* r = std::get_if<F::UnknownAttributeReported>(&f->reason);
            REQUIRE(r, show(e), ": expected unknown attributes reported");
            same_types(r->attrs, x.types, "unknown attributes reported");
            break;
        }
        case Expect::alternate: {
            const auto* r = std::get_if<F::AlternateServer>(&f->reason);
            REQUIRE(r, show(e), ": expected alternate server");
            same_addr(r->server, x.addr, "alternate server");
            break;
        }
        case Expect::error_code: {
            const auto* r = std::get_if<F::ErrorCode>(&f->reason);
            REQUIRE(r, show(e), ": expected error code");
            REQUIRE_EQ(r->attr.code, (x.code[2] & 7) * 100u + x.code[3], "error code");
            const Bytes reason(x.code.begin() + 4, x.code.end());
            REQUIRE(r->attr.reason_phrase.is_some() ? bytes(r->attr.reason_phrase.unwrap()) == reason : reason.empty(), "reason phrase");
            break;
        }
        case Expect::no_address:
            error(st::ClientError::no_address_in_response);
            break;
        case Expect::no_code:
            error(st::ClientError::no_error_code_in_response);
            break;
        case Expect::no_alternate:
            error(st::ClientError::no_alternate_server_in_response);
            break;
        default:
            pbt::fail(show(e), " though nothing is decided");
        }
    }

    // Everything due now; false when the transaction has timed out.
    bool drain() {
        while (true) {
            const auto e = client.next(now);
            if (is_waiting(e)) {
                const auto* z = std::get_if<Client::Sleep>(&e);
                sleep = z ? z->sleep.count() : 0;
                return true;
            }
            s.note("next -> ", show(e));
            if (const auto* d = std::get_if<Client::SendData>(&e); d && d->handle.value == target) {
                if (sends++ == 0) {
                    tid = bytes(d->message_view.subview(8, 12).unwrap());
                }
            } else if (d) {
                tids.insert(bytes(d->message_view.subview(8, 12).unwrap()));
            }
            if (is_terminal(e)) {
                const auto* f = std::get_if<Client::TransactionFailed>(&e);
                REQUIRE(f && is_reason<Client::TransactionFailed::Timeout>(*f), show(e), " without a response");
                if (f->handle.value == target) {
                    return false;
                }
            }
        }
    }

    // Earlier transactions on the paths, answered sooner or later or never.
    void history() {
        for (auto n = s.chance(1, 3) ? 1 + s.below(3) : 0; n > 0; --n) {
            Dev dev{[&] { return s.u32(); }};
            auto r = client.create(dev, now, make(path(static_cast<unsigned>(s.below(3)))));
            REQUIRE(r.is_ok(), "create failed");
            target = r.unwrap().value;
            sends = 0;
            bool pending = drain();
            const Bytes id = tid;
            for (unsigned k = 0; pending && k < 4; ++k) {
                now = now.advance(us(1 + static_cast<int64_t>(s.below(900 * MS))));
                pending = drain();
                if (pending && s.flip()) {
                    REQUIRE(client.response(now, Exact(success(id)).view()).is_ok(), "the right response rejected");
                    REQUIRE(std::holds_alternative<Client::TransactionOk>(client.next(now)), "no success");
                    s.label("history");
                    pending = false;
                }
            }
            if (pending) {
                tids.insert(id);
            }
        }
        target = ~0u;
        sends = 0;
        tid.clear();
        created = now;
    }

    void run() {
        history();
        const unsigned n = 1 + static_cast<unsigned>(s.chance(1, 40) ? s.big(150) : s.below(4));
        const unsigned which = static_cast<unsigned>(s.below(n));
        for (unsigned i = 0; i < n; ++i) {
            std::optional<std::string> pw;
            if (s.flip()) {
                pw = s.flip() ? "secret" : gen_password(s);
            }
            Dev dev{[&] { return s.u32(); }};
            auto r = client.create(dev, now, make(path(static_cast<unsigned>(s.below(3))), pw));
            REQUIRE(r.is_ok(), "create failed");
            if (i == which) {
                target = r.unwrap().value;
                password = pw;
                created = now;
                s.note("transaction ", target, pw ? " password " + pbt::quote(*pw) : " without credentials");
            }
        }
        if (!drain()) {
            pbt::discard();
        }
        for (unsigned k = 0; k < 4; ++k) {
            if (s.chance(1, 4)) { // from one due time to the next
                for (auto m = 1 + s.below(12); m > 0 && sends < rtx().request_count; --m) {
                    now = now.advance(us(sleep));
                    if (!drain()) {
                        return;
                    }
                }
                s.label(sends > 4 ? "sent often" : "sent some times");
            } else if (s.chance(2, 3)) {
                // round trips of any length where the timeout allows
                const auto rto = settings.rto_settings.initial_rto.count();
                now = now.advance(us(1 + static_cast<int64_t>(s.below(static_cast<uint64_t>(rto > SEC ? rto : 700 * MS)))));
                if (!drain()) {
                    return;
                }
            }
            bool mine = true;
            const Bytes b = message(mine);
            const Decoded d = decode(b);
            const Attr* ec = d.first(ERROR_CODE);
            if (d.is_vague() || (d.ok() && ec && ec->value[3] > 99)) {
                continue; // nothing says what it means
            }
            Expect x = expect(d, b);
            if (d.ok() && d.tid != tid && tids.count(d.tid)) {
                continue; // another transaction's
            }
            s.note("response ", pbt::hex(b), " expect ", int(x.what));
            fw::MaybeError r = fw::success();
            {
                auto exact = std::make_unique<Exact>(b);
                fw::Maybe<st::Message> m = fw::none();
                if (s.chance(1, 3)) {
                    st::ParseStat stat;
                    auto p = st::Message::parse(exact->view(), stat);
                    if (p.is_ok()) {
                        m = std::move(p.unwrap());
                    }
                }
                r = client.response(now, exact->view(), std::move(m));
            }
            if (d.ok() && d.tid == tid) {
                s.nontrivial();
            }
            if (x.what == Expect::rejected) {
                REQUIRE(r.is_err(), "accepted ", pbt::hex(b));
                if (x.error) {
                    REQUIRE(r.unwrap_err().code() == make_error_code(*x.error), "rejected with ", r.unwrap_err().code().message(),
                            " expected ", make_error_code(*x.error).message());
                }
            } else {
                REQUIRE(r.is_ok(), "rejected with ", r.unwrap_err().code().message(), ": ", pbt::hex(b));
            }
            if (x.what == Expect::rejected || x.what == Expect::ignored || x.what == Expect::resend) {
                s.label(x.what == Expect::resend ? "resend" : x.what == Expect::ignored ? "ignored" : "rejected");
                errors5xx += x.what == Expect::resend;
                const auto before = sends;
                REQUIRE(drain(), "timed out by a response");
                REQUIRE_EQ(sends, before, "request sent again at once");
                continue;
            }
            s.label("decided " + std::to_string(int(x.what)));
            const auto e = client.next(now);
            s.note("next -> ", show(e));
            check(e, x, d);
            REQUIRE(is_waiting(client.next(now)), "more than one effect of a response");
            return;
        }
        // it is still pending: the right answer ends it
        const Bytes b = success(tid, password);
        const Exact exact(b);
        REQUIRE(client.response(now, exact.view()).is_ok(), "the right response rejected after wrong ones");
        const auto e = client.next(now);
        REQUIRE(std::holds_alternative<Client::TransactionOk>(e) && handle_of(e) == target, show(e), " after the right response");
    }
};

Settings gen_settings(pbt::Src& s) {
    Settings x = s.chance(1, 4) ? Settings{.maybe_tid_hash = same_hash()} : Settings{};
    x.use_fingerprint = Settings::UseFingerprint{s.flip()};
    x.allow_unauthenticated_alternate = s.flip();
    Rtx r;
    if (s.flip()) {
        r.server_error_timeout = us(MS * (1 + static_cast<int64_t>(s.below(3000))));
        r.server_error_max_retransmits = static_cast<unsigned>(s.below(3));
    }
    if (s.flip()) {
        x.rto_settings.initial_rto = us(1 + static_cast<int64_t>(s.below(900 * MS)));
        x.rto_settings.history_duration = us(SEC * (1 + static_cast<int64_t>(s.below(3))));
        r.request_count = 1 + static_cast<unsigned>(s.below(12));
        r.retransmission_multiplier = 1 + static_cast<unsigned>(s.below(16));
    }
    if (s.chance(1, 10)) {
        x.rto_settings.initial_rto = us(SEC * (1 + static_cast<int64_t>(s.big(20000))));
    }
    if (s.flip()) { // also below the first timeout, so that all intervals are the same
        r.max_rto = s.flip() ? x.rto_settings.initial_rto : us(1 + static_cast<int64_t>(s.below(2 * SEC)));
    }
    x.retransmit = r;
    return x;
}

}

PBT_FUZZ(responses, 300000, 8000000) {
    const bool unset = s.chance(1, 10);
    World w(s, unset ? standard_settings() : gen_settings(s), unset);
    w.run();
}
