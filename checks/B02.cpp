// B02: the STUN server as JavaScript uses it.
#include "js.hpp"

#include "node/node_stun/node_stun_server_stateless.hpp"
#include "stun/stun_server_stateless.hpp"

using namespace ref;
using Server = st::server::Stateless;

PBT_RULE("histories of 1..20 calls (addUser, process, with right, missing and wrong arguments) to 1..3 servers made through the "
         "binding; every answer is compared with that of the library's server given the same, and the address in it with the "
         "remote info; non-trivial: a response with an address or an error was given");

namespace {

struct Peer {
    js::Value self;
    Server core;
    std::map<Bytes, std::string> users;
};

struct World {
    pbt::Src& s;
    js::Env env;
    js::Value klass;
    std::vector<std::unique_ptr<Peer>> peers;

    explicit World(pbt::Src& s) : s(s), klass(fw::node_stun::server_stateless_class(env, "Server").unwrap()) {}

    void create() {
        auto self = craftnapi::js_new(env, klass, {});
        REQUIRE(self.is_ok(), "no server was made");
        peers.push_back(std::make_unique<Peer>(Peer{self.unwrap(), Server(sha1_func), {}}));
    }
    js::R call(Peer& p, const char* name, std::vector<js::Value> args) {
        return craftnapi::js_call(env, klass, p.self, name, std::move(args));
    }

    void add_user(Peer& p) {
        const std::string name = s.chance(1, 12) ? std::string(s.big(509), 'u') : text(gen_text(s, 20)), password = gen_password(s);
        if (p.users.count(bytes(name))) {
            return;
        }
        if (s.chance(1, 5)) {
            js::R r = js::R(js::undefined());
            switch (s.below(3)) {
            case 0: r = call(p, "addUser", {js::string(name), js::wrong(s, js::Node::string)}); break;
            case 1: r = call(p, "addUser", {js::wrong(s, js::Node::string), js::string(password)}); break;
            default: r = call(p, "addUser", {js::string(name)}); break;
            }
            REQUIRE(r.is_err(), "a user was added out of wrong arguments");
            return;
        }
        const auto r = call(p, "addUser", {js::string(name), js::string(password)});
        REQUIRE(r.is_ok(), "user ", pbt::quote(name), " not added: ", r.unwrap_err().message());
        s.note("user ", pbt::quote(name), " password ", pbt::quote(password));
        p.core.add_user(fw::precis::OpaqueString(name),
                        st::Password::short_term(fw::precis::OpaqueString(password), fw::crypto::SHA1Hash::Func(sha1_func)).unwrap());
        p.users.emplace(bytes(name), password);
    }

    Bytes message(const Peer& p) {
        const bool old = s.chance(1, 6);
        const Bytes tid = gen_tid(s, old);
        std::vector<Attr> l;
        for (auto n = s.len(3); n > 0; --n) {
            l.push_back(gen_good(s, s.one_of<uint16_t>({SOFTWARE, PRIORITY, 0x8030, CONTROLLED, USE_CANDIDATE, 0x0031}), tid));
        }
        if (s.chance(1, 25)) {
            l.push_back(Attr{s.one_of<uint16_t>({0x8030, SOFTWARE}), s.filler(s.big(60000))});
        }
        std::string pw = gen_password(s);
        const bool auth = s.flip();
        if (auth) {
            Bytes name = gen_text(s, 20);
            if (!p.users.empty() && !s.chance(1, 6)) {
                const auto it = std::next(p.users.begin(), static_cast<long>(s.below(p.users.size())));
                name = it->first;
                pw = s.chance(1, 6) ? pw : it->second;
            }
            l.push_back(Attr{USERNAME, name});
        }
        const unsigned cls = s.chance(1, 8) && !old ? static_cast<unsigned>(s.below(4)) : 0;
        Bytes b = encode(msg_type(cls, s.chance(1, 12) ? static_cast<unsigned>(s.below(4096)) : 1), tid, l);
        if (auth && !s.chance(1, 8)) {
            add_integrity(b, bytes(pw));
        }
        if (s.flip()) {
            add_fingerprint(b);
        }
        if (s.chance(1, 8)) {
            b[s.below(b.size())] ^= static_cast<uint8_t>(1u << s.below(8));
        }
        return b;
    }

    void process(Peer& p) {
        const Bytes b = message(p);
        const Addr from = gen_addr(s);
        const std::string host = js::address_text(from.ip);
        if (s.chance(1, 6)) {
            wrong_call(p, b, host, from.port);
            return;
        }
        const auto r = call(p, "process", {js::buffer(b), js::object({{"address", js::string(host)},
                                                                      {"family", js::string(from.ip.size() == 4 ? "IPv4" : "IPv6")},
                                                                      {"port", js::number(from.port)},
                                                                      {"size", js::number(static_cast<double>(b.size()))}})});
        s.note("process ", pbt::hex(b), " from ", host, " ", from.port, " -> ",
               r.is_ok() ? js::show(r.unwrap().node()) : r.unwrap_err().message());
        const auto want = [&] {
            const Exact x(b);
            return p.core.process(fw::net::Endpoint(fw::net::UdpEndpoint{address(from.ip), fw::net::Port(from.port)}), x.view());
        }();
        if (std::holds_alternative<Server::Error>(want)) {
            REQUIRE(r.is_err(), "no error");
            return;
        }
        if (const auto* ign = std::get_if<Server::Ignore>(&want)) {
            if (ign->message.is_some() && ign->message.unwrap().header.method != st::Method::binding()) {
                // no object stands for another method
                REQUIRE(r.is_err(), "an object of an unknown method");
                s.label("another method");
                return;
            }
            REQUIRE(r.is_ok(), "ignored by an error: ", r.unwrap_err().message());
            js::is_string(*r.unwrap().node(), "result", "ignore");
            REQUIRE_EQ(js::find(*r.unwrap().node(), "message") != nullptr, ign->message.is_some(), "message of an ignored datagram");
            if (ign->message.is_some()) {
                const Decoded d = decode(b);
                js::same_message(js::get(*r.unwrap().node(), "message", js::Node::object), d);
            }
            s.label("ignored");
            return;
        }
        const auto& rsp = std::get<Server::Respond>(want);
        REQUIRE(r.is_ok(), "no response: ", r.unwrap_err().message());
        js::is_string(*r.unwrap().node(), "result", "respond");
        const Bytes data = js::get(*r.unwrap().node(), "data", js::Node::buffer).bytes;
        const auto built = rsp.response.build(rsp.maybe_integrity);
        REQUIRE(built.is_ok(), "the response cannot be built");
        REQUIRE(data == built.unwrap(), "response ", pbt::hex(data), " expected ", pbt::hex(built.unwrap()));
        const Decoded o = decode(data);
        if (const Attr* x = o.first(XOR_MAPPED)) {
            REQUIRE(unxor(*x, o.tid) == from, "address of the response ", pbt::hex(data));
            s.label("address");
        }
        if (const Attr* x = o.first(MAPPED)) {
            REQUIRE(addr_of(*x) == from, "address of the response ", pbt::hex(data));
            s.label("address to an RFC 3489 request");
        }
        if (o.integrity_at) {
            s.label("signed");
        }
        s.nontrivial();
    }

    void wrong_call(Peer& p, const Bytes& b, const std::string& host, uint16_t port) {
        using js::Node;
        js::R r = js::R(js::undefined());
        const char* what = "";
        auto info = [&](js::Value a, js::Value n) { return js::object({{"address", std::move(a)}, {"port", std::move(n)}}); };
        switch (s.below(7)) {
        case 0:
            what = "no remote info";
            r = call(p, "process", {js::buffer(b)});
            break;
        case 1:
            what = "no buffer";
            r = call(p, "process", {js::wrong(s, Node::buffer), info(js::string(host), js::number(port))});
            break;
        case 2:
            what = "address of another type";
            r = call(p, "process", {js::buffer(b), info(js::wrong(s, Node::string), js::number(port))});
            break;
        case 3:
            what = "port of another type";
            r = call(p, "process", {js::buffer(b), info(js::string(host), js::wrong(s, Node::number))});
            break;
        case 4: {
            what = "not an address";
            const std::string t = s.one_of<const char*>({"", "localhost", "1.2.3", "1.2.3.256", "1.2.3.4 ", ":::", "1::2::3", "12345::", "::ffff"});
            r = call(p, "process", {js::buffer(b), info(js::string(t == "::ffff" ? "::fffff" : t), js::number(port))});
            break;
        }
        case 5:
            what = "no port";
            r = call(p, "process", {js::buffer(b), js::object({{"address", js::string(host)}})});
            break;
        default: {
            what = "port out of range";
            const double v = s.one_of<double>({65536.0, 65536.0 + port, -1.0, -65536.0 + port - 65536.0, 4294967295.0, 2147483647.0, -2147483648.0,
                                               131072.0});
            s.note("port ", v);
            r = call(p, "process", {js::buffer(b), info(js::string(host), js::number(v))});
        }
        }
        s.label(what);
        REQUIRE(r.is_err(), "processed with ", what, ": ", js::show(r.unwrap().node()));
    }
};

}

PBT_FUZZ(histories, 60000, 1500000) {
    World w(s);
    for (auto n = 1 + s.below(3); n > 0; --n) {
        w.create();
    }
    for (auto n = 1 + s.len(19); n > 0; --n) {
        Peer& p = *w.peers[s.below(w.peers.size())];
        if (s.chance(1, 4)) {
            w.add_user(p);
        } else {
            w.process(p);
        }
    }
}
