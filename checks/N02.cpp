// N02: domain names.
#include <optional>
#include <string>

#include "net/net_fqdn.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
using net::Fqdn;

PBT_RULE("texts are generated label by label (hyphens, underscores, digits, final dots) followed by arbitrary rest, "
         "and from a small alphabet of the significant characters and all 256 octets; the accepted prefix is compared "
         "with the longest prefix found by brute force membership; non-trivial: a name with a dot or a hyphen, or a "
         "name followed by something else");

namespace {

bool alnum(char c) {
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_';
}

bool is_label(std::string_view t) {
    if (t.empty() || !alnum(t.front()) || !alnum(t.back())) {
        return false;
    }
    for (char c : t) {
        if (!alnum(c) && c != '-') {
            return false;
        }
    }
    return true;
}

// Labels separated by single dots, with an optional final dot.
bool is_name(std::string_view t) {
    if (!t.empty() && t.back() == '.') {
        t.remove_suffix(1);
    }
    if (t.empty()) {
        return false;
    }
    while (true) {
        const auto dot = t.find('.');
        if (!is_label(t.substr(0, dot))) {
            return false;
        }
        if (dot == std::string_view::npos) {
            return true;
        }
        t = t.substr(dot + 1);
    }
}

std::string label(pbt::Src& s) {
    static const std::string_view inner = "abzAZ09_--";
    const std::string_view ends = "azAZ059_";
    const size_t n = s.len(66);
    if (n < 2) {
        return s.str(ends, 1);
    }
    return s.str(ends, 1) + s.str(inner, n - 2) + s.str(ends, 1);
}

void judge(pbt::Src& s, const std::string& t) {
    size_t longest = 0;
    for (size_t n = t.size(); n > 0; --n) {
        if (is_name(std::string_view(t).substr(0, n))) {
            longest = n;
            break;
        }
    }
    const std::vector<char> exact(t.begin(), t.end());
    const std::string_view v(exact.data(), exact.size());
    const auto r = Fqdn::parse(v);
    s.note(pbt::quote(t), ": name of ", longest, " of ", t.size());
    REQUIRE_EQ(r.is_ok(), longest > 0, "verdict on ", pbt::quote(t));
    if (r.is_ok()) {
        REQUIRE_EQ(r.unwrap().value.to_string(), t.substr(0, longest), "name at the start of ", pbt::quote(t));
        REQUIRE_EQ(std::string(r.unwrap().rest), t.substr(longest), "rest of ", pbt::quote(t));
    }
    const auto f = Fqdn::from_string(v);
    REQUIRE_EQ(f.is_ok(), longest == t.size() && longest > 0, "verdict on the whole of ", pbt::quote(t));
    if (f.is_ok()) {
        REQUIRE_EQ(f.unwrap().to_string(), t, "name");
        REQUIRE(f.unwrap() == r.unwrap().value, "parse and from_string disagree");
        // a name reads back as itself
        const auto again = Fqdn::from_string(f.unwrap().to_string());
        REQUIRE(again.is_ok() && again.unwrap() == f.unwrap(), "does not read back");
    } else {
        REQUIRE(static_cast<bool>(f.unwrap_err().code()), "an error without code");
    }
    const bool structured = t.find('.') != std::string::npos || t.find('-') != std::string::npos;
    if (longest > 0 && (structured || longest < t.size())) {
        s.nontrivial(pbt::hash_bytes(t.data(), t.size()));
    }
    s.label(longest == 0 ? "no name" : longest == t.size() ? "name" : "name with a rest");
}

}

PBT_FUZZ(structured, 200000, 5000000) {
    std::string t;
    const auto n = s.below(5);
    for (uint64_t i = 0; i < n; ++i) {
        t += (i ? "." : "") + label(s);
    }
    if (s.chance(1, 3)) {
        t += '.';
    }
    if (s.chance(1, 3)) {
        t += s.str(".-:/ ?*@a0_", s.len(6));
    }
    if (s.chance(1, 3) && !t.empty()) {
        t[s.below(t.size())] = static_cast<char>(s.below(256));
    }
    judge(s, t);
}

// Long labels, and many of them.
PBT_TEST(long_names, 600, 20000) {
    std::string t;
    const bool many = s.flip();
    for (size_t n = many ? 1 + s.big(400) : 1 + s.below(3); n > 0; --n) {
        const std::string l = s.filler("abz019-_", many ? 1 + s.below(4) : 1 + s.big(1500));
        t += "a" + l + "b" + (n > 1 ? "." : "");
    }
    if (s.flip()) {
        t += s.one_of<const char*>({".", "-", "..", "-a", ".-", ":1", " x", "/"});
    }
    if (s.chance(1, 4)) {
        t[s.below(t.size())] = s.one_of({'.', '-', ' ', '@'});
    }
    judge(s, t);
}

PBT_TEST(soup, 300000, 6000000) {
    judge(s, s.str(std::string_view("a0_-..-Z \0", 10), s.len(20)));
}

// All strings of up to 6 of the significant characters.
PBT_EXHAUSTIVE(small, 6 * 6 * 6 * 6 * 6 * 6) {
    uint64_t k = s.below(6 * 6 * 6 * 6 * 6 * 6);
    std::string t;
    for (int i = 0; i < 6; ++i) {
        const char c = "a9-.*\0"[k % 6];
        if (c == '\0') {
            break;
        }
        t += c;
        k /= 6;
    }
    judge(s, t);
}

// Every octet, alone and inside a name.
PBT_EXHAUSTIVE(octets, 256) {
    const char c = static_cast<char>(s.below(256));
    judge(s, std::string(1, c));
    judge(s, std::string("a") + c + "b");
    judge(s, std::string("a.") + c);
    judge(s, std::string("a") + c);
}

PBT_TEST(equality, 50000, 500000) {
    const std::string a = label(s) + "." + label(s);
    std::string b = a;
    if (s.flip()) {
        b[s.below(b.size())] = 'q';
    }
    const auto x = Fqdn::from_string(a);
    const auto y = Fqdn::from_string(b);
    if (x.is_ok() && y.is_ok()) {
        REQUIRE_EQ(x.unwrap() == y.unwrap(), a == b, a, " and ", b);
        Fqdn c(x.unwrap());
        c = y.unwrap();
        REQUIRE(c == y.unwrap(), "a copy differs");
        s.nontrivial();
    }
}
