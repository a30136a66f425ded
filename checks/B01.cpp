// B01: STUN messages and ICE candidates as JavaScript sees them.
#include "js.hpp"

#include "ice/candidate/ice_candidate_sdp.hpp"
#include "node/node_ice/node_ice_candidate.hpp"
#include "node/node_stun/node_stun_error.hpp"
#include "node/node_stun/node_stun_message.hpp"

using namespace ref;

PBT_RULE("STUN messages encoded from generated attributes, well formed, malformed or changed, and candidate lines put together "
         "from known fields or mutated, are given to the functions JavaScript calls (over an in-memory stand-in for Node-API); "
         "the object is compared with an independent decoder and with the fields; non-trivial: an object was returned for "
         "something with attributes or a candidate");

namespace {

js::R call(js::R (*f)(js::Env&, const js::CallbackInfo&), std::vector<js::Value> args) {
    js::Env env;
    return f(env, js::CallbackInfo(js::undefined(), std::move(args)));
}

void parse(pbt::Src& s, const Bytes& b) {
    const Decoded d = decode(b);
    const auto r = call(fw::node_stun::message_parse, {js::buffer(b)});
    s.note("message ", pbt::hex(b), " -> ", r.is_ok() ? js::show(r.unwrap().node()) : r.unwrap_err().message());
    if (d.is_vague()) {
        return;
    }
    if (!d.ok()) {
        REQUIRE(r.is_err(), "an object for a malformed message ", pbt::hex(b));
        s.label("malformed");
        return;
    }
    if (d.method != 1) {
        REQUIRE(r.is_err() && r.unwrap_err().code() == make_error_code(fw::node_stun::Error::unknown_stun_method),
                "another method: ", pbt::hex(b));
        s.label("another method");
        return;
    }
    REQUIRE(r.is_ok(), "no object for a right message ", pbt::hex(b), ": ", r.unwrap_err().message());
    js::same_message(*r.unwrap().node(), d);
    s.label("object");
    if (!d.attrs.empty()) {
        s.nontrivial();
    }
}

Bytes message(pbt::Src& s) {
    const unsigned cls = static_cast<unsigned>(s.below(4));
    const bool old = cls == 0 && s.chance(1, 4);
    const Bytes tid = gen_tid(s, old);
    std::vector<Attr> l;
    for (auto n = s.len(10); n > 0; --n) {
        const auto t = gen_type(s);
        if (t != FINGERPRINT) {
            l.push_back(gen_good(s, t, tid));
        }
    }
    if (s.chance(1, 40)) {
        switch (s.below(4)) {
        case 0: {
            Bytes v{0, 0, 4, 20};
            const auto r = s.filler(s.big(3000));
            v.insert(v.end(), r.begin(), r.end());
            l.push_back(Attr{ERROR_CODE, v});
            break;
        }
        case 1: {
            Bytes v;
            for (auto n = s.big(1500); n > 0; --n) {
                const auto t = s.u16();
                v.push_back(static_cast<uint8_t>(t >> 8));
                v.push_back(static_cast<uint8_t>(t));
            }
            l.push_back(Attr{UNKNOWN_ATTRS, v});
            break;
        }
        default: l.push_back(Attr{s.one_of<uint16_t>({0x8030, 0x0030, SOFTWARE, USERNAME}), s.filler(s.big(30000))});
        }
    }
    Bytes b = encode(msg_type(cls, s.chance(1, 12) ? static_cast<unsigned>(s.below(4096)) : 1), tid, l, static_cast<uint8_t>(s.below(256)));
    if (s.chance(1, 3)) {
        add_fingerprint(b);
    }
    return b;
}

}

PBT_TEST(messages, 150000, 3000000) {
    parse(s, message(s));
}

PBT_FUZZ(changed, 100000, 2000000) {
    Bytes b = message(s);
    for (auto n = s.below(4); n > 0; --n) {
        switch (s.below(3)) {
        case 0: b[s.below(b.size())] ^= static_cast<uint8_t>(1u << s.below(8)); break;
        case 1: b[s.below(b.size())] = s.u8(); break;
        default: b.resize(std::max<size_t>(1, s.below(b.size() + 5))); break;
        }
    }
    parse(s, b);
}

PBT_TEST(wrong_types, 20000, 200000) {
    REQUIRE(call(fw::node_stun::message_parse, {js::wrong(s, js::Node::buffer)}).is_err(), "a message out of no buffer");
    REQUIRE(call(fw::node_stun::message_parse, {}).is_err(), "a message out of nothing");
    REQUIRE(call(fw::node_ice::ice_candidate_parse, {js::wrong(s, js::Node::string)}).is_err(), "a candidate out of no string");
    REQUIRE(call(fw::node_ice::ice_candidate_parse, {}).is_err(), "a candidate out of nothing");
}

PBT_TEST(candidates, 150000, 3000000) {
    using namespace std::string_literals;
    auto addr = [&]() -> std::string {
        switch (s.below(4)) {
        case 0: {
            const std::string_view letters = "abcdefghijklmnopqrstuvwxyz";
            return (s.chance(1, 15) ? s.filler(letters, 1 + s.big(300)) : s.str(letters, 1 + s.below(8))) + ".local";
        }
        case 1: return js::address_text(s.bytes(16));
        default: return js::address_text(s.bytes(4));
        }
    };
    const std::string_view ice_chars = "ABCXYZabcxyz0189+/";
    auto token = [&](size_t max) { return s.str(ice_chars, 1 + s.below(max)); };
    auto ext_token = [&] { return s.chance(1, 20) ? s.filler(ice_chars, 1 + s.big(1000)) : token(8); };
    const std::vector<std::string> types{"host", "srflx", "prflx", "relay"};
    const std::string foundation = token(32), component = std::to_string(s.below(257)),
        priority = std::to_string(1 + s.below(0x7fffffff)), host = addr(), port = std::to_string(s.u16()), type = s.pick(types);
    const std::string udp = s.one_of<const char*>({"udp", "UDP", "Udp"});
    std::string line = "candidate:" + foundation + " " + component + " " + udp + " " + priority + " " + host + " " + port + " typ " + type;
    std::optional<std::string> raddr, rport;
    std::vector<std::pair<std::string, std::string>> ext;
    if (s.flip()) {
        raddr = addr();
        line += " raddr " + *raddr;
    }
    if (s.flip()) {
        rport = std::to_string(s.u16());
        line += " rport " + *rport;
    }
    for (auto n = s.chance(1, 20) ? s.big(80) : s.len(4); n > 0; --n) {
        ext.emplace_back("x" + ext_token(), ext_token());
        line += " " + ext.back().first + " " + ext.back().second;
    }
    const bool foreign = s.chance(1, 8), spoiled = s.chance(1, 6);
    if (foreign) { // a transport that is not supported
        line.replace(line.find(" " + udp + " "), 2 + udp.size(), s.flip() ? " tcp " : " sctp ");
    }
    if (spoiled) {
        line[s.below(line.size())] = static_cast<char>(s.one_of<int>({' ', ':', '0', 'x', 0, 0xff, '9'}));
    }
    const auto r = call(fw::node_ice::ice_candidate_parse, {js::string(line)});
    s.note("line ", pbt::quote(line), " -> ", r.is_ok() ? js::show(r.unwrap().node()) : r.unwrap_err().message());
    // what is accepted is decided by the library; I01 judges that
    const auto core = fw::ice::candidate::parse_sdp_attr(line);
    REQUIRE_EQ(r.is_ok(), core.is_ok(), "verdict on ", pbt::quote(line));
    if (core.is_err()) {
        REQUIRE(r.unwrap_err().code() == core.unwrap_err().code(), "error of ", pbt::quote(line));
        s.label("error");
        return;
    }
    const js::Node& o = *r.unwrap().node();
    auto is_null = [&](const char* name) {
        const js::Node* n = js::find(o, name);
        return !n || n->kind == js::Node::null;
    };
    if (std::holds_alternative<fw::ice::candidate::Unsupported>(core.unwrap())) {
        REQUIRE(is_null("result"), "a result for an unsupported candidate");
        js::is_string(o, "error", std::get<fw::ice::candidate::Unsupported>(core.unwrap()).value);
        s.label("unsupported");
        return;
    }
    REQUIRE(is_null("error"), "an error for a supported candidate");
    const js::Node& c = js::get(o, "result", js::Node::object);
    s.label("supported");
    if (spoiled) {
        return; // fields are those of the changed line
    }
    REQUIRE(!foreign, "a foreign transport is supported");
    auto same_addr = [&](const char* name, const std::string& want) {
        const auto& got = js::get(c, name, js::Node::string).str;
        if (js::octets(want).empty()) {
            REQUIRE(got == want, name, " is ", got, " expected ", want);
        } else {
            REQUIRE(js::octets(got) == js::octets(want), name, " is ", got, " expected ", want);
        }
    };
    same_addr("host", host);
    js::is_number(c, "port", std::stod(port));
    js::is_string(c, "type", type);
    const auto& tr = js::get(c, "transport", js::Node::string).str;
    REQUIRE(tr == "udp" || tr == "UDP", "transport ", tr);
    js::is_string(c, "foundation", foundation);
    js::is_number(c, "component", std::stod(component));
    REQUIRE_EQ(js::find(c, "raddr") != nullptr, raddr.has_value(), "raddr");
    if (raddr) {
        same_addr("raddr", *raddr);
    }
    REQUIRE_EQ(js::find(c, "rport") != nullptr, rport.has_value(), "rport");
    if (rport) {
        js::is_number(c, "rport", std::stod(*rport));
    }
    const auto& items = js::get(c, "extensions", js::Node::array).items;
    REQUIRE_EQ(items.size(), ext.size(), "number of extensions");
    for (size_t i = 0; i < ext.size(); ++i) {
        js::is_string(*items[i], "name", ext[i].first);
        js::is_string(*items[i], "value", ext[i].second);
    }
    s.nontrivial();
}
