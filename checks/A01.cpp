// A01: character classes and case-insensitive comparison of the grammars.
#include <string>

#include "abnf/abnf.hpp"
#include "ice/ice_abnf.hpp"
#include "pbt.hpp"

using namespace freewebrtc;

PBT_RULE("all 256 octets for every class and all 65536 pairs of octets for the comparison, and generated string pairs "
         "that differ in case, in one octet or in length; non-trivial: the strings are of equal length and not "
         "identical");

namespace {

unsigned lower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32u : c; }

bool ref_eq(const std::string& a, const std::string& b) {
    if (a.size() != b.size()) {
        return false;
    }
    for (size_t i = 0; i < a.size(); ++i) {
        if (lower(static_cast<unsigned char>(a[i])) != lower(static_cast<unsigned char>(b[i]))) {
            return false;
        }
    }
    return true;
}

}

PBT_EXHAUSTIVE(classes, 256) {
    const auto k = static_cast<unsigned>(s.below(256));
    const char c = static_cast<char>(k);
    const bool alpha = (k >= 65 && k <= 90) || (k >= 97 && k <= 122);
    const bool digit = k >= 48 && k <= 57;
    s.note("octet ", k);
    REQUIRE_EQ(abnf::is_ALPHA(c), alpha, "ALPHA of octet ", k);
    REQUIRE_EQ(abnf::is_DIGIT(c), digit, "DIGIT of octet ", k);
    REQUIRE_EQ(ice::abnf::is_ice_char(c), alpha || digit || k == '+' || k == '/', "ice-char of octet ", k);
    s.nontrivial(k);
}

PBT_EXHAUSTIVE(pairs, 65536) {
    const auto k = s.below(65536);
    const std::string a(1, static_cast<char>(k & 255)), b(1, static_cast<char>(k >> 8));
    s.note(pbt::quote(a), " and ", pbt::quote(b));
    REQUIRE_EQ(abnf::eq_string(a, b), ref_eq(a, b), pbt::quote(a), " and ", pbt::quote(b));
    if (a != b) {
        s.nontrivial(k);
    }
}

PBT_TEST(strings, 300000, 6000000) {
    std::string a = s.flip() ? s.str("abzAZ@[`{019-. _", s.len(30)) : std::string();
    if (a.empty()) {
        auto v = s.bytes(s.len(30));
        a.assign(v.begin(), v.end());
    }
    std::string b = a;
    const auto how = s.below(5);
    if (how >= 1) {
        for (auto& c : b) { // change of case
            const bool letter = abnf::is_ALPHA(c);
            if (letter && s.flip()) {
                c = static_cast<char>(c ^ 32);
            }
        }
    }
    if (how == 2 && !b.empty()) {
        b[s.below(b.size())] ^= static_cast<char>(1 << s.below(8));
    }
    if (how == 3) {
        b.resize(s.below(b.size() + 2));
    }
    if (how == 4 && !b.empty()) {
        b[s.below(b.size())] ^= 32;
    }
    // exact heap copies: no reading past the end
    const std::vector<char> x(a.begin(), a.end()), y(b.begin(), b.end());
    const std::string_view va(x.data(), x.size()), vb(y.data(), y.size());
    s.note(pbt::quote(a), " and ", pbt::quote(b));
    REQUIRE_EQ(abnf::eq_string(va, vb), ref_eq(a, b), pbt::quote(a), " and ", pbt::quote(b));
    REQUIRE_EQ(abnf::eq_string(vb, va), ref_eq(a, b), pbt::quote(b), " and ", pbt::quote(a));
    REQUIRE(abnf::eq_string(va, va), "not equal to itself: ", pbt::quote(a));
    if (a.size() == b.size() && a != b) {
        s.nontrivial();
    }
    s.label(ref_eq(a, b) ? "equal" : a.size() == b.size() ? "different, same length" : "different length");
}
