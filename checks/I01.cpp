// I01: ICE candidate attribute lines.
#include <optional>
#include <string>
#include <vector>

#include "ice/candidate/ice_candidate_error.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice_ref.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
namespace ic = ice::candidate;

PBT_RULE("candidate lines are generated field by field from correct, unsupported and malformed values, with related "
         "addresses and extensions, then perhaps mutated (token dropped, doubled, exchanged, spaces, an octet changed); "
         "the verdict and every field are compared with a grammar reference; non-trivial: an accepted line, or a line "
         "with exactly one fault");

namespace {

bool digits(const std::string& t, size_t max) {
    return !t.empty() && t.size() <= max && t.find_first_not_of("0123456789") == std::string::npos;
}
std::string lower(std::string t) {
    for (auto& c : t) {
        if (c >= 'A' && c <= 'Z') {
            c = static_cast<char>(c - 'A' + 'a');
        }
    }
    return t;
}
bool is_port(const std::string& t) { return digits(t, 5) && std::stoul(t) <= 65535; }
bool is_priority(const std::string& t) { return digits(t, 10) && std::stoull(t) >= 1 && std::stoull(t) <= 0xffffffffull; }
bool is_foundation(const std::string& t) {
    return !t.empty() && t.size() <= 32
        && t.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/") == std::string::npos;
}

bool is_address(const std::string& t) { return !ref::ip_of(t).empty() || ref::fqdn_ok(t); }

struct Line {
    bool prefix = false;
    std::vector<std::string> tokens;
};

Line cut(const std::string& line) {
    Line l;
    static const std::string p = "candidate:";
    l.prefix = line.compare(0, p.size(), p) == 0;
    if (!l.prefix) {
        return l;
    }
    size_t at = p.size();
    while (at < line.size()) {
        const size_t sp = line.find(' ', at);
        l.tokens.push_back(line.substr(at, sp == std::string::npos ? sp : sp - at));
        at = sp == std::string::npos ? line.size() : sp + 1;
    }
    return l;
}

struct Verdict {
    unsigned malformed = 0, unsupported = 0;
    std::optional<std::string> raddr, rport;
    bool repeated = false; // raddr or rport twice: nothing says which counts
    std::vector<std::pair<std::string, std::string>> extensions;
};

Verdict judge(const Line& l) {
    Verdict v;
    if (!l.prefix) {
        ++v.malformed;
        return v;
    }
    const auto& t = l.tokens;
    auto field = [&](size_t i) { return i < t.size() ? std::optional<std::string>(t[i]) : std::nullopt; };
    v.malformed += !field(0) || !is_foundation(*field(0));
    v.malformed += !field(1) || !digits(*field(1), 3);
    v.unsupported += field(2) && lower(*field(2)) != "udp";
    v.malformed += !field(3) || !is_priority(*field(3));
    v.unsupported += field(4) && !is_address(*field(4));
    v.malformed += !field(5) || !is_port(*field(5));
    v.malformed += !field(6) || *field(6) != "typ";
    if (field(6) == "typ" && field(7)) {
        const auto k = lower(*field(7));
        v.unsupported += k != "host" && k != "srflx" && k != "prflx" && k != "relay";
    }
    if (t.size() < 8) {
        ++v.malformed;
        return v;
    }
    for (size_t i = 8; i < t.size(); i += 2) {
        if (i + 1 == t.size()) {
            ++v.malformed; // a name without a value
        } else if (t[i] == "raddr") {
            v.repeated |= v.raddr.has_value();
            v.raddr = t[i + 1];
        } else if (t[i] == "rport") {
            v.repeated |= v.rport.has_value();
            v.rport = t[i + 1];
        } else {
            v.extensions.emplace_back(t[i], t[i + 1]);
        }
    }
    if (!v.repeated) {
        v.malformed += v.raddr && !is_address(*v.raddr);
        v.malformed += v.rport && !is_port(*v.rport);
    }
    return v;
}

void check(pbt::Src& s, const std::string& text) {
    const std::string line(text);
    auto exact = std::vector<char>(line.begin(), line.end()); // no terminator behind it
    exact.shrink_to_fit();
    const auto r = ic::parse_sdp_attr(std::string_view(exact.data(), exact.size()));
    const char* got = r.is_err() ? "error" : std::holds_alternative<ic::Supported>(r.unwrap()) ? "supported" : "unsupported";
    s.note("line ", pbt::quote(line), " -> ", got, r.is_err() ? " " + r.unwrap_err().code().message() : "");
    const Line l = cut(line);
    const Verdict v = judge(l);
    s.label(got);
    if (v.repeated || (l.prefix && !line.empty() && line.back() == ' ')) {
        return; // may be taken or not
    }
    if (v.malformed + v.unsupported == 0) {
        REQUIRE(std::string(got) == "supported", "a correct line was not accepted: ", pbt::quote(line));
    } else {
        REQUIRE(std::string(got) != "supported", "a wrong line was accepted: ", pbt::quote(line));
        if (v.malformed == 0) {
            REQUIRE(std::string(got) == "unsupported", "an unsupported line is an error: ", pbt::quote(line));
        }
        if (v.unsupported == 0 && (!l.prefix || l.tokens.size() > 4)) {
            REQUIRE(r.is_err(), "a malformed line is only unsupported: ", pbt::quote(line));
        }
        if (v.malformed + v.unsupported == 1) {
            s.nontrivial();
        }
        return;
    }
    s.nontrivial();
    const auto& x = std::get<ic::Supported>(r.unwrap());
    const auto& c = x.candidate;
    const auto& t = l.tokens;
    REQUIRE_EQ(c.foundation.to_string(), t[0], "foundation");
    REQUIRE_EQ(c.component.value(), unsigned(std::stoul(t[1])), "component");
    REQUIRE(c.transport_type == ic::TransportType::udp(), "transport");
    REQUIRE(c.priority == ic::Priority::from_uint32(static_cast<uint32_t>(std::stoul(t[3]))).unwrap(), "priority");
    auto same_address = [](const ic::Address& a, const std::string& b, const char* what) {
        const auto ip = ref::ip_of(b);
        REQUIRE_EQ(a.as_ip_address().is_some(), !ip.empty(), what, " kind");
        if (!ip.empty()) {
            const auto got = a.as_ip_address().unwrap().get().view();
            REQUIRE(got.size() == ip.size() && std::equal(got.begin(), got.end(), ip.begin()), what, " differs from ", b);
        } else {
            REQUIRE_EQ(a.as_fqdn().unwrap().get().to_string(), b, what);
        }
    };
    same_address(c.address, t[4], "address");
    REQUIRE_EQ(c.port.value(), uint16_t(std::stoul(t[5])), "port");
    REQUIRE_EQ(c.type.to_string(), lower(t[7]), "type");
    REQUIRE_EQ(c.maybe_related_address.is_some(), v.raddr.has_value(), "related address");
    if (v.raddr) {
        same_address(c.maybe_related_address.unwrap(), *v.raddr, "related address");
    }
    REQUIRE_EQ(c.maybe_related_port.is_some(), v.rport.has_value(), "related port");
    if (v.rport) {
        REQUIRE_EQ(c.maybe_related_port.unwrap().value(), uint16_t(std::stoul(*v.rport)), "related port");
    }
    REQUIRE_EQ(x.extensions.size(), v.extensions.size(), "number of extensions");
    for (size_t i = 0; i < v.extensions.size(); ++i) {
        REQUIRE(x.extensions[i].att_name == v.extensions[i].first && x.extensions[i].att_value == v.extensions[i].second,
                "extension ", i, " is ", pbt::quote(x.extensions[i].att_name), " ", pbt::quote(x.extensions[i].att_value));
    }
}

const char alnum[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string mixed_case(pbt::Src& s, std::string t) {
    for (auto& c : t) {
        if (s.chance(1, 3) && c >= 'a' && c <= 'z') {
            c = static_cast<char>(c - 'a' + 'A');
        }
    }
    return t;
}

std::string gen_address(pbt::Src& s, bool wrong) {
    if (wrong) {
        return s.one_of<const char*>({"@", ".", "192.168.1.2:123", "fe80::1::2", "-a", "a-", "host..x", "[::1]", "10.0.0.1/8", "%"});
    }
    switch (s.below(5)) {
    case 0:
        return std::to_string(s.below(256)) + "." + std::to_string(s.below(256)) + "." + std::to_string(s.below(256)) + "."
            + std::to_string(s.below(256));
    case 1:
        return s.one_of<const char*>({"::", "::1", "fe80::6676:baff:fe9c:ee4a", "2001:db8:8101:3a55:4858:a2a9:22ff:99b9", "::ffff:1.2.3.4",
                                      "1:2:3:4:5:6:7::", "2001:DB8::a"});
    case 2:
        return s.chance(1, 10) ? s.filler("abz019", 1 + s.big(62)) + "." + s.filler("abz01", s.big(700)) + "." + s.filler("abz01", s.big(700)) + "x"
                               : s.str("abz019", 1 + s.len(8)) + "." + s.str("abz_", 1 + s.len(5));
    case 3:
        return s.str("abcdef0123456789-", 8) + "x.local";
    default:
        return s.one_of<const char*>({"localhost", "a.b.c.example.org", "stun.example.org.", "256.1.1.1", "1", "_x"});
    }
}

std::string number(pbt::Src& s, uint64_t lo, uint64_t hi) {
    const uint64_t v = s.chance(1, 3) ? s.one_of<uint64_t>({lo, hi, lo + 1, hi - 1}) : s.range<uint64_t>(lo, hi);
    return std::to_string(v);
}

std::string gen_field(pbt::Src& s, unsigned i, bool wrong) {
    switch (i) {
    case 0:
        return wrong ? s.one_of<std::string>({"", std::string(33, 'a'), "a-b", "a_b", "\xc3\xa9", "a:b"}) : s.str(alnum, 1 + s.below(32));
    case 1:
        return wrong ? s.one_of<const char*>({"", "1000", "0001", "a", "-1", "+1", "1a"}) : std::string(s.below(2), '0') + number(s, 1, 99);
    case 2:
        return wrong ? s.one_of<const char*>({"", "tcp", "TCP", "udpx", "ud", "dtls"}) : mixed_case(s, "udp");
    case 3:
        return wrong ? s.one_of<const char*>({"", "0", "4294967296", "9999999999", "00000000001", "12345678901", "-1", "1x", "0000000000"})
                     : number(s, 1, 0xffffffffull);
    case 4:
        return gen_address(s, wrong);
    case 5:
        return wrong ? s.one_of<const char*>({"", "65536", "99999", "000001", "-1", "80a", "123456"}) : number(s, 0, 65535);
    case 6:
        return wrong ? s.one_of<const char*>({"", "TYP", "type", "ty", "host"}) : "typ";
    default:
        return wrong ? s.one_of<const char*>({"", "hosts", "hos", "tcp", "relayed", "x"})
                     : mixed_case(s, s.one_of<const char*>({"host", "srflx", "prflx", "relay"}));
    }
}

std::string join(const std::vector<std::string>& l) {
    std::string out = "candidate:";
    for (size_t i = 0; i < l.size(); ++i) {
        out += (i ? " " : "") + l[i];
    }
    return out;
}

std::vector<std::string> gen_tokens(pbt::Src& s, unsigned wrong) {
    std::vector<std::string> l;
    for (unsigned i = 0; i < 8; ++i) {
        l.push_back(gen_field(s, i, i + 1 == wrong));
    }
    const bool bad_ext = wrong > 8;
    const bool raddr = s.flip(), rport = s.flip();
    if (raddr || (bad_ext && wrong == 9)) {
        l.push_back("raddr");
        l.push_back(gen_address(s, wrong == 9));
    }
    auto extension = [&] {
        l.push_back(s.one_of<const char*>({"generation", "network-cost", "ufrag", "tcptype", "x", "RADDR", "Rport", "typ", ""}));
        l.push_back(s.one_of<const char*>({"0", "active", "raddr", "rport", "value", "", "\xff\x01"}));
    };
    if (s.chance(1, 4)) {
        extension(); // between the two
    }
    if (rport || wrong == 10) {
        l.push_back("rport");
        l.push_back(gen_field(s, 5, wrong == 10));
    }
    for (auto n = s.chance(1, 30) ? s.big(200) : s.len(4); n > 0; --n) {
        extension();
    }
    if (s.chance(1, 30)) {
        l.push_back(s.filler("abc-", 1 + s.big(600)));
        l.push_back(s.filler("xyz0123456789:", 1 + s.big(3000)));
    }
    if (wrong == 11) {
        l.push_back(s.one_of<const char*>({"x", "raddr", "rport", "generation"}));
    }
    return l;
}

}

PBT_FUZZ(lines, 400000, 10000000) {
    const unsigned wrong = s.flip() ? 0 : static_cast<unsigned>(s.below(12));
    auto l = gen_tokens(s, wrong);
    if (s.chance(1, 8)) { // a second fault
        const auto i = static_cast<unsigned>(s.below(8));
        l[i] = gen_field(s, i, true);
    }
    if (s.chance(1, 6)) {
        const size_t i = s.below(l.size());
        switch (s.below(4)) {
        case 0: l.erase(l.begin() + static_cast<long>(i)); break;
        case 1: l.insert(l.begin() + static_cast<long>(i), l[i]); break;
        case 2: std::swap(l[i], l[s.below(l.size())]); break;
        default: l.resize(i);
        }
    }
    std::string line = join(l);
    if (s.chance(1, 8)) {
        const size_t i = s.below(line.size());
        switch (s.below(4)) {
        case 0: line[i] = static_cast<char>(s.below(256)); break;
        case 1: line.insert(i, " "); break;
        case 2: line.erase(i, 1 + s.below(4)); break;
        default: line.resize(i);
        }
    }
    check(s, line);
}

// Anything at all: the parser survives and accepts only what the reference does.
PBT_FUZZ(octets, 100000, 2000000) {
    std::string line = s.flip() ? "candidate:" : "";
    for (auto n = s.len(20); n > 0; --n) {
        switch (s.below(4)) {
        case 0: line += gen_field(s, static_cast<unsigned>(s.below(8)), s.flip()); break;
        case 1: line += ' '; break;
        case 2: line += static_cast<char>(s.below(256)); break;
        default: line += s.one_of<const char*>({"candidate:", "typ ", "raddr ", "rport ", " udp ", "1 "});
        }
    }
    check(s, line);
}
