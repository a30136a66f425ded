// JavaScript values for the checks of the node bindings, over the stand-in for
// craftnapi.
#pragma once
#include <arpa/inet.h>

#include <craftnapi/env.hpp>
#include "stun_gen.hpp"

namespace js {

using craftnapi::CallbackInfo;
using craftnapi::Env;
using craftnapi::Node;
using craftnapi::NodePtr;
using craftnapi::Value;
using ref::Bytes;
using R = craftpp::result::Result<Value>;

inline Value undefined() { return Value(Node::make(Node::undefined)); }
inline Value null() { return Value(Node::make(Node::null)); }
inline Value boolean(bool v) { auto n = Node::make(Node::boolean); n->b = v; return Value(n); }
inline Value number(double v) { auto n = Node::make(Node::number); n->num = v; return Value(n); }
inline Value string(std::string_view v) { auto n = Node::make(Node::string); n->str = std::string(v); return Value(n); }
inline Value buffer(const Bytes& b) {
    auto n = Node::make(Node::buffer);
    n->bytes = b;
    n->bytes.shrink_to_fit();
    return Value(n);
}
inline Value object(std::vector<std::pair<std::string, Value>> ps) {
    auto n = Node::make(Node::object);
    for (auto& p : ps) {
        n->props.emplace_back(p.first, p.second.node());
    }
    return Value(n);
}

// A value of another type than the given one.
inline Value wrong(pbt::Src& s, Node::Kind right) {
    for (;;) {
        Value v = [&] {
            switch (s.below(7)) {
            case 0: return undefined();
            case 1: return null();
            case 2: return boolean(s.flip());
            case 3: return number(s.below(70000));
            case 4: return string("127.0.0.1");
            case 5: return buffer(Bytes{1, 2, 3});
            default: return object({});
            }
        }();
        if (v.node()->kind != right) {
            return v;
        }
    }
}

inline std::string show(const NodePtr& n) {
    std::ostringstream os;
    switch (n->kind) {
    case Node::undefined: return "undefined";
    case Node::null: return "null";
    case Node::boolean: return n->b ? "true" : "false";
    case Node::number: os << n->num; return os.str();
    case Node::bigint: os << n->big << "n"; return os.str();
    case Node::string: return pbt::quote(n->str);
    case Node::buffer: return "<" + pbt::hex(n->bytes) + ">";
    case Node::array:
        os << "[";
        for (const auto& x : n->items) {
            os << show(x) << ",";
        }
        os << "]";
        return os.str();
    case Node::object:
        os << "{";
        for (const auto& p : n->props) {
            os << p.first << ":" << show(p.second) << ",";
        }
        os << "}";
        return os.str();
    default: return "function";
    }
}

inline const Node* find(const Node& o, std::string_view name) {
    REQUIRE(o.kind == Node::object, "not an object where ", name, " is looked up");
    const NodePtr* p = o.find(name);
    return p && (*p)->kind != Node::undefined ? p->get() : nullptr;
}
inline const Node& get(const Node& o, std::string_view name, Node::Kind kind) {
    const Node* p = find(o, name);
    REQUIRE(p, "no property ", name);
    REQUIRE(p->kind == kind, "property ", name, " has type ", int(p->kind), " expected ", int(kind));
    return *p;
}
inline void is_string(const Node& o, std::string_view name, std::string_view want) {
    const auto& v = get(o, name, Node::string).str;
    REQUIRE(v == want, name, " is ", pbt::quote(v), " expected ", pbt::quote(want));
}
inline void is_number(const Node& o, std::string_view name, double want) {
    const auto v = get(o, name, Node::number).num;
    REQUIRE(v == want, name, " is ", v, " expected ", want);
}

// The octets of an address text, by the C library.
inline Bytes octets(const std::string& text) {
    Bytes b(16);
    if (inet_pton(AF_INET, text.c_str(), b.data()) == 1) {
        b.resize(4);
        return b;
    }
    if (inet_pton(AF_INET6, text.c_str(), b.data()) == 1) {
        return b;
    }
    return {};
}
inline std::string address_text(const Bytes& ip) {
    char t[64];
    inet_ntop(ip.size() == 4 ? AF_INET : AF_INET6, ip.data(), t, sizeof t);
    return t;
}

// The object of a STUN message against the decoded message.
inline void same_message(const Node& o, const ref::Decoded& d) {
    using namespace ref;
    static const char* const classes[] = {"request", "indication", "success_response", "error_response"};
    const Node& h = js::get(o, "header", Node::object);
    is_string(h, "class", classes[d.cls]);
    REQUIRE_EQ(d.method, 1u, "an object of another method");
    is_string(h, "method", "binding");
    REQUIRE(js::get(h, "transaction", Node::buffer).bytes == d.tid, "transaction id");
    REQUIRE_EQ(js::get(o, "is_rfc3489", Node::boolean).b, d.rfc3489, "is_rfc3489");
    const Node& a = js::get(o, "attributes", Node::object);
    auto given = [&](const char* name, uint16_t type) {
        REQUIRE_EQ(js::find(a, name) != nullptr, d.first(type) != nullptr, name, " present");
        return d.first(type);
    };
    if (const Attr* x = given("username", USERNAME)) {
        is_string(a, "username", text(x->value));
    }
    if (const Attr* x = given("software", SOFTWARE)) {
        is_string(a, "software", text(x->value));
    }
    if (const Attr* x = given("priority", PRIORITY)) {
        is_number(a, "priority", static_cast<double>(ref::get(x->value, 0, 4)));
    }
    if (const Attr* x = given("ice-controlling", CONTROLLING)) {
        REQUIRE_EQ(js::get(a, "ice-controlling", Node::bigint).big, ref::get(x->value, 0, 8), "ice-controlling");
    }
    if (const Attr* x = given("ice-controlled", CONTROLLED)) {
        REQUIRE_EQ(js::get(a, "ice-controlled", Node::bigint).big, ref::get(x->value, 0, 8), "ice-controlled");
    }
    if (given("use-candidate", USE_CANDIDATE)) {
        REQUIRE(js::get(a, "use-candidate", Node::boolean).b, "use-candidate");
    }
    if (const Attr* x = given("error_code", ERROR_CODE)) {
        const Node& e = js::get(a, "error_code", Node::object);
        if (x->value[3] < 100) {
            is_number(e, "code", (x->value[2] & 7) * 100 + x->value[3]);
        }
        is_string(e, "reason", text(Bytes(x->value.begin() + 4, x->value.end())));
    }
    if (const Attr* x = given("xor_mapped", XOR_MAPPED)) {
        const Node& m = js::get(a, "xor_mapped", Node::object);
        const Addr want = unxor(*x, Bytes(d.tid.begin(), d.tid.begin() + 12));
        is_number(m, "port", want.port);
        if (d.tid.size() == 12 || want.ip.size() == 4) {
            REQUIRE(octets(js::get(m, "addr", Node::string).str) == want.ip, "xor_mapped is ", js::get(m, "addr", Node::string).str,
                    " expected ", pbt::hex(want.ip));
        }
    }
}

}
