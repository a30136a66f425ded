// S08: what the stateless server answers.
#include "stun_client.hpp"
#include "stun/stun_server_stateless.hpp"

using namespace ref;
using Server = st::server::Stateless;

PBT_RULE("sequences of 1..12 datagrams (requests of every method, RFC 3489 requests, unknown attributes, right, wrong and "
         "absent credentials, malformed or changed octets, other classes) to one server with 0..6 users; every answer is "
         "compared with the decision table of RFC 5389 and, built, with an independent decoder; non-trivial: a well formed "
         "request");

namespace {

struct World {
    bool large;
    pbt::Src& s;
    bool fingerprint, failing;
    Server server;
    std::map<Bytes, std::string> users;

    static fw::crypto::SHA1Hash::Func hash(bool failing) {
        if (!failing) {
            return sha1_func;
        }
        return [](const fw::crypto::SHA1Hash::Input&) -> fw::crypto::SHA1Hash::Result {
            return std::make_error_code(std::errc::io_error);
        };
    }
    static Server make_server(bool fingerprint, bool failing, bool defaults) {
        if (defaults) {
            return Server(hash(failing));
        }
        return Server(hash(failing), Server::Settings{fingerprint});
    }
    World(pbt::Src& s, bool fingerprint, bool failing, bool defaults, bool large = false)
        : large(large), s(s), fingerprint(fingerprint), failing(failing), server(make_server(fingerprint, failing, defaults)) {
        for (auto n = large ? 1 + s.below(s.chance(1, 8) ? 3000 : 300) : s.below(7); n > 0; --n) {
            Bytes name = gen_name();
            if (n % 8 != 0 && large) { // all different
                append(name, bytes(std::to_string(n)));
            }
            const std::string pw = large ? "secret" + std::to_string(s.below(100)) : gen_password(s);
            if (users.emplace(name, pw).second) {
                server.add_user(fw::precis::OpaqueString(text(name)),
                                st::Password::short_term(fw::precis::OpaqueString(pw), fw::crypto::SHA1Hash::Func(sha1_func)).unwrap());
            }
        }
    }

    Bytes gen_name() {
        if (s.flip()) {
            return bytes(s.one_of<const char*>({"a", "A", "ab", "john", "John", "john ", ""}));
        }
        if (s.chance(1, 12)) { // alike for long
            return Bytes(s.big(509), 'u');
        }
        return gen_text(s, 30);
    }

    Bytes message() {
        const bool old = s.chance(1, 5);
        const Bytes tid = gen_tid(s, old);
        std::vector<Attr> l;
        for (auto n = s.len(3); n > 0; --n) {
            l.push_back(gen_good(s, s.one_of<uint16_t>({SOFTWARE, PRIORITY, XOR_MAPPED, MAPPED, 0x8030, 0xfffe, CONTROLLED, USE_CANDIDATE,
                                                        ERROR_CODE, ALTERNATE}), tid));
        }
        if (s.chance(1, 5)) {
            for (auto n = 1 + s.len(4); n > 0; --n) {
                l.push_back(Attr{s.one_of<uint16_t>({0x0002, 0x0003, 0x0014, 0x0015, 0x7fff, 0x0030, 0x0000}), gen_text(s, 12)});
            }
        }
        if (large && s.chance(1, 4)) { // long values, or very many attributes nobody knows
            const size_t n = s.flip() ? (size_t{1} << (8 + s.below(8))) - 40 + s.below(60) : s.below(64000);
            if (s.flip()) {
                l.push_back(Attr{s.one_of<uint16_t>({0x8030, SOFTWARE, 0x0030}), Bytes(std::min<size_t>(n, 64000), 'x')});
            } else {
                const uint16_t first = static_cast<uint16_t>(s.flip() ? 0x1000 : 0x9000);
                for (size_t i = 0; i < std::min<size_t>(n, 60000) / 8; ++i) {
                    l.push_back(Attr{static_cast<uint16_t>(first + i % 0x3000), {}});
                }
            }
            s.label("large");
        }
        std::string pw = gen_password(s);
        if (s.chance(2, 3)) {
            Bytes n = gen_name();
            if (!users.empty() && !s.chance(1, 5)) {
                auto it = std::next(users.begin(), static_cast<long>(s.below(users.size())));
                n = it->first;
                if (!s.chance(1, 6)) {
                    pw = it->second;
                }
            }
            l.push_back(Attr{USERNAME, n});
        }
        for (size_t i = l.size(); i > 1; --i) {
            std::swap(l[i - 1], l[s.below(i)]);
        }
        const unsigned cls = s.chance(1, 8) && !old ? static_cast<unsigned>(s.below(4)) : 0;
        const unsigned method = s.chance(1, 8) ? static_cast<unsigned>(s.below(4096)) : 1;
        Bytes b = encode(msg_type(cls, method), tid, l, static_cast<uint8_t>(s.below(256)));
        if (s.chance(2, 3)) {
            add_integrity(b, bytes(pw));
            if (s.chance(1, 10)) {
                put_attr(b, gen_good(s, s.one_of<uint16_t>({SOFTWARE, USERNAME, 0x0030}), tid)); // counts for nothing
                fix_len(b);
            }
        }
        if (s.chance(1, 10)) {
            b[s.below(b.size())] ^= static_cast<uint8_t>(1u << s.below(8));
        }
        if (s.chance(1, 4)) {
            add_fingerprint(b);
        }
        if (s.chance(1, 20)) {
            b.resize(s.below(b.size() + 1));
        }
        return b;
    }

    void datagram() {
        const Bytes b = message();
        const Decoded d = decode(b);
        if (d.is_vague()) {
            return;
        }
        const Addr from = gen_addr(s);
        const auto ep = s.chance(3, 4)
            ? fw::net::Endpoint(fw::net::UdpEndpoint{address(from.ip), fw::net::Port(from.port)})
            : fw::net::Endpoint(fw::net::TcpEndpoint{address(from.ip), fw::net::Port(from.port)});
        const auto r = [&] {
            const Exact x(b);
            return server.process(ep, x.view());
        }();
        s.note("datagram ", pbt::hex(b), " from ", pbt::hex(from.ip), " port ", from.port, " -> ", r.index());
        const auto* ignore = std::get_if<Server::Ignore>(&r);
        if (!d.ok()) {
            REQUIRE(ignore && ignore->message.is_none(), "a malformed message was not ignored: ", pbt::hex(b));
            s.label("malformed");
            return;
        }
        auto ignored = [&](const char* why) {
            REQUIRE(ignore, why, " was not ignored");
            REQUIRE(ignore->message.is_some(), why, ": message is not given");
            same_attributes(ignore->message.unwrap(), d);
            REQUIRE_EQ(cls_of(ignore->message.unwrap().header.cls), d.cls, "class of the message");
            s.label(why);
        };
        if (d.cls != 0) {
            ignored("not a request");
            return;
        }
        s.nontrivial();
        unsigned code = 0;
        bool authenticated = false;
        const Attr* name = d.first(USERNAME);
        if (!d.unknown_required().empty()) {
            code = 420;
        } else if ((name != nullptr) != d.integrity_at.has_value()) {
            code = 400;
        } else if (name) {
            const auto u = users.find(name->value);
            if (u == users.end()) {
                code = 401;
            } else if (failing) {
                const auto* e = std::get_if<Server::Error>(&r);
                REQUIRE(e && e->error.code() == std::make_error_code(std::errc::io_error), "the hash fails, answer ", r.index());
                s.label("hash fails");
                return;
            } else if (integrity_of(Bytes(b.begin(), b.begin() + static_cast<long>(*d.integrity_at)), bytes(u->second))
                       != d.first(INTEGRITY)->value) {
                code = 401;
            } else {
                authenticated = true;
            }
        }
        if (code == 0 && d.method != 1) {
            ignored("another method");
            return;
        }
        const auto* a = std::get_if<Server::Respond>(&r);
        REQUIRE(a, "no response to ", pbt::hex(b));
        same_attributes(a->request, d);
        REQUIRE(bytes(a->request.header.transaction_id.view()) == d.tid, "transaction id of the request");
        REQUIRE_EQ(a->maybe_integrity.is_some(), authenticated, "integrity of the response");
        const auto built = a->response.build(a->maybe_integrity);
        REQUIRE(built.is_ok(), "the response cannot be built");
        const Bytes out = built.unwrap();
        s.note("response ", pbt::hex(out));
        const Decoded o = decode(out);
        for (unsigned f = 0; f < F_COUNT; ++f) {
            REQUIRE(!o.faults[f] || (f == F_COOKIE && d.rfc3489), "the response has fault ", f, ": ", pbt::hex(out));
        }
        REQUIRE_EQ(o.cls, code ? 3u : 2u, "class of the response ", pbt::hex(out));
        REQUIRE_EQ(o.method, d.method, "method of the response");
        REQUIRE(Bytes(out.begin() + 4, out.begin() + 20) == Bytes(b.begin() + 4, b.begin() + 20), "transaction id of the response");
        size_t count = 0;
        auto attr = [&](uint16_t t) -> const Bytes& {
            const Attr* x = o.first(t);
            REQUIRE(x, "no attribute ", t, " in the response ", pbt::hex(out));
            ++count;
            return x->value;
        };
        s.label(std::to_string(code));
        if (code) {
            const Bytes& ec = attr(ERROR_CODE);
            REQUIRE_EQ(ec[2] * 100u + ec[3], code, "error code for ", pbt::hex(b));
            if (code == 420) {
                Bytes want;
                for (auto t : d.unknown_required()) {
                    put(want, t, 2);
                }
                REQUIRE(attr(UNKNOWN_ATTRS) == want, "UNKNOWN-ATTRIBUTES is ", pbt::hex(o.first(UNKNOWN_ATTRS)->value));
            }
        } else if (d.rfc3489) {
            REQUIRE(attr(MAPPED) == mapped(from), "MAPPED-ADDRESS is ", pbt::hex(o.first(MAPPED)->value), " for ", pbt::hex(mapped(from)));
        } else {
            REQUIRE(attr(XOR_MAPPED) == xor_mapped(from, d.tid), "XOR-MAPPED-ADDRESS is ", pbt::hex(o.first(XOR_MAPPED)->value));
            if (fingerprint) {
                attr(FINGERPRINT);
            }
        }
        if (authenticated) {
            const Bytes upto(out.begin(), out.begin() + static_cast<long>(o.integrity_at.value_or(20)));
            REQUIRE(attr(INTEGRITY) == integrity_of(upto, bytes(users.at(name->value))), "MESSAGE-INTEGRITY of the response");
            s.label("authenticated");
        }
        REQUIRE_EQ(o.attrs.size(), count, "attributes of the response ", pbt::hex(out));
    }
};

}

PBT_FUZZ(datagrams, 120000, 3000000) {
    const bool defaults = s.chance(1, 4);
    World w(s, defaults || s.flip(), s.chance(1, 10), defaults);
    for (auto n = 1 + s.len(11); n > 0; --n) {
        w.datagram();
    }
}

// Many users, long messages.
PBT_TEST(large, 3000, 100000) {
    World w(s, s.flip(), false, false, true);
    for (auto n = 1 + s.below(5); n > 0; --n) {
        w.datagram();
    }
}

// Client and server understand each other.
PBT_TEST(with_the_client, 40000, 1000000) {
    Server server(sha1_func, Server::Settings{s.flip()});
    Settings settings;
    settings.use_fingerprint = Settings::UseFingerprint{s.flip()};
    Client client(settings);
    const std::string user = text(gen_text(s, 40)), pw = gen_password(s);
    const bool registered = s.chance(3, 4);
    const bool auth = s.flip();
    if (registered) {
        server.add_user(fw::precis::OpaqueString(user),
                        st::Password::short_term(fw::precis::OpaqueString(pw), fw::crypto::SHA1Hash::Func(sha1_func)).unwrap());
    }
    Dev dev{[&] { return s.u32(); }};
    const auto now = Time::epoch();
    REQUIRE(client.create(dev, now, make(path(0), auth ? std::optional<std::string>(pw) : std::nullopt, user)).is_ok(), "create failed");
    const auto e = client.next(now);
    const auto* d = std::get_if<Client::SendData>(&e);
    REQUIRE(d, "nothing to send");
    const Addr from = gen_addr(s);
    const auto r = server.process(fw::net::Endpoint(fw::net::UdpEndpoint{address(from.ip), fw::net::Port(from.port)}), d->message_view);
    const auto* a = std::get_if<Server::Respond>(&r);
    REQUIRE(a, "no response");
    const Bytes out = a->response.build(a->maybe_integrity).unwrap();
    const auto later = now.advance(us(1 + static_cast<int64_t>(s.below(400000))));
    const Exact x(out);
    const auto rv = client.response(later, x.view());
    s.note("user ", pbt::quote(user), auth ? " with" : " without", " credentials, ", registered ? "known" : "unknown", " -> ", pbt::hex(out));
    if (auth && !registered) {
        // the refusal is not signed, so it cannot be believed
        REQUIRE(rv.is_err(), "an unsigned refusal accepted");
        REQUIRE(is_waiting(client.next(later)), "an unsigned refusal ended the transaction");
        return;
    }
    REQUIRE(rv.is_ok(), "the response rejected: ", rv.unwrap_err().code().message());
    const auto f = client.next(later);
    const auto* ok = std::get_if<Client::TransactionOk>(&f);
    REQUIRE(ok, show(f));
    REQUIRE(ip_octets(ok->result.address) == from.ip && ok->result.port.value() == from.port, "address learnt is not the one seen");
    s.nontrivial();
}
