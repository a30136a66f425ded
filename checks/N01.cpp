// N01: IP address text.
#include <arpa/inet.h>
#include <cctype>
#include <cstring>
#include <optional>

#include "net/ip/ip_address.hpp"
#include "util/util_variant_overloaded.hpp"
#include "pbt.hpp"

using namespace freewebrtc;
using net::ip::Address;
using net::ip::AddressV4;
using net::ip::AddressV6;

PBT_RULE("texts are generated as correct IPv4/IPv6 spellings of known octets (all RFC 4291 forms), as mutations of "
         "those, and from small alphabets; the verdict and octets are compared with an independent parser, the text "
         "with a reference printer; non-trivial: an accepted text, or a rejected one that is a single mutation of a "
         "correct one");

namespace {

using Bytes = std::vector<uint8_t>;

// Strict dotted quad without leading zeros.
std::optional<Bytes> ref_v4(std::string_view t) {
    Bytes out;
    size_t i = 0;
    while (true) {
        size_t n = 0;
        unsigned v = 0;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') {
            if (n > 0 && v == 0) {
                return std::nullopt; // leading zero
            }
            v = v * 10 + static_cast<unsigned>(t[i] - '0');
            if (v > 255) {
                return std::nullopt;
            }
            ++i;
            ++n;
        }
        if (n == 0) {
            return std::nullopt;
        }
        out.push_back(static_cast<uint8_t>(v));
        if (i == t.size()) {
            break;
        }
        if (t[i] != '.' || out.size() == 4) {
            return std::nullopt;
        }
        ++i;
    }
    return out.size() == 4 ? std::optional<Bytes>(out) : std::nullopt;
}

// Groups of one side of a "::" (or of the whole text); nullopt when malformed.
std::optional<Bytes> ref_groups(std::string_view t, bool may_end_v4) {
    Bytes out;
    if (t.empty()) {
        return out;
    }
    while (true) {
        const size_t colon = t.find(':');
        const bool last = colon == std::string_view::npos;
        const std::string_view g = last ? t : t.substr(0, colon);
        if (last && may_end_v4 && g.find('.') != std::string_view::npos) {
            const auto v4 = ref_v4(g);
            if (!v4) {
                return std::nullopt;
            }
            out.insert(out.end(), v4->begin(), v4->end());
            return out;
        }
        if (g.empty() || g.size() > 4) {
            return std::nullopt;
        }
        unsigned v = 0;
        for (char c : g) {
            if (!std::isxdigit(static_cast<unsigned char>(c))) {
                return std::nullopt;
            }
            v = v * 16 + static_cast<unsigned>(c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
        }
        out.push_back(static_cast<uint8_t>(v >> 8));
        out.push_back(static_cast<uint8_t>(v));
        if (last) {
            return out;
        }
        t = t.substr(colon + 1);
        if (t.empty()) {
            return std::nullopt;
        }
    }
}

std::optional<Bytes> ref_v6(std::string_view t) {
    const size_t gap = t.find("::");
    if (gap == std::string_view::npos) {
        auto r = ref_groups(t, true);
        return r && r->size() == 16 ? r : std::nullopt;
    }
    const auto head = ref_groups(t.substr(0, gap), false);
    const auto tail = ref_groups(t.substr(gap + 2), true);
    if (!head || !tail || head->size() + tail->size() > 14) {
        return std::nullopt;
    }
    Bytes out = *head;
    out.resize(16 - tail->size(), 0);
    out.insert(out.end(), tail->begin(), tail->end());
    return out;
}

std::string print_v4(const Bytes& b, size_t at = 0) {
    std::string r;
    for (size_t i = 0; i < 4; ++i) {
        r += (i ? "." : "") + std::to_string(b[at + i]);
    }
    return r;
}

// Some correct spelling of the octets.
std::string spell_v6(pbt::Src& s, const Bytes& b) {
    unsigned g[8];
    for (size_t i = 0; i < 8; ++i) {
        g[i] = static_cast<unsigned>(b[2 * i] << 8 | b[2 * i + 1]);
    }
    const bool dotted = s.chance(1, 4);
    const size_t n = dotted ? 6 : 8;
    // a run of zero groups to elide
    size_t from = 0, to = 0;
    if (s.flip()) {
        const size_t start = s.below(n);
        for (size_t k = 0; k < n; ++k) {
            const size_t i = (start + k) % n;
            if (g[i] == 0) {
                from = i;
                to = i + 1;
                while (to < n && g[to] == 0 && (to - from < 1 || s.chance(7, 8))) {
                    ++to;
                }
                break;
            }
        }
    }
    std::string r;
    auto group = [&](unsigned v) {
        char buf[8];
        const size_t width = 1 + s.below(4);
        std::snprintf(buf, sizeof buf, s.flip() ? "%0*x" : "%0*X", static_cast<int>(width), v);
        return std::string(buf);
    };
    for (size_t i = 0; i < n; ++i) {
        if (to > from && i == from) {
            r += "::";
            i = to - 1;
            continue;
        }
        if (!r.empty() && r.back() != ':') {
            r += ':';
        }
        r += group(g[i]);
    }
    if (dotted) {
        if (r.back() != ':') {
            r += ':';
        }
        r += print_v4(b, 12);
    }
    return r;
}

Bytes octets(pbt::Src& s, size_t n) {
    Bytes b(n);
    const auto style = s.below(4);
    for (auto& x : b) {
        x = style == 0 ? static_cast<uint8_t>(s.below(256))
            : style == 1 ? (s.flip() ? 0 : s.u8()) : style == 2 ? (s.chance(3, 4) ? 0 : static_cast<uint8_t>(s.below(2)))
                                                                : s.u8();
    }
    if (n == 16 && s.chance(1, 6)) { // IPv4-mapped and compatible
        std::fill(b.begin(), b.begin() + 12, 0);
        if (s.flip()) {
            b[10] = b[11] = 0xff;
        }
    }
    return b;
}

void mutate(pbt::Src& s, std::string& t) {
    static const std::string alphabet = std::string("0123456789abcdefFg:.%/ -+x", 26) + std::string(1, '\0') + "\xff";
    const char c = alphabet[s.below(alphabet.size())];
    const size_t at = s.below(t.size() + 1);
    switch (s.below(5)) {
    case 0: t.insert(t.begin() + static_cast<long>(at), c); break;
    case 1: if (at < t.size()) t[at] = c; break;
    case 2: if (at < t.size()) t.erase(at, 1); break;
    case 3: t += c; break;
    default: if (at < t.size()) t.insert(at, 1, t[at]); break;
    }
}

void judge(pbt::Src& s, const std::string& t) {
    std::optional<Bytes> expect = ref_v4(t);
    const bool v4 = expect.has_value();
    if (!expect) {
        expect = ref_v6(t);
    }
    // Heap copy of the exact size: reading past the view is an error.
    const std::vector<char> exact(t.begin(), t.end());
    const auto r = Address::from_string(std::string_view(exact.data(), exact.size()));
    s.note("text ", pbt::quote(t), expect ? " is " + pbt::hex(*expect) : std::string(" is no address"));
    REQUIRE_EQ(r.is_ok(), expect.has_value(), "verdict on ", pbt::quote(t));
    if (r.is_ok()) {
        const auto& a = r.unwrap();
        REQUIRE_EQ(std::holds_alternative<AddressV4>(a.value()), v4, "family of ", pbt::quote(t));
        REQUIRE(Bytes(a.view().begin(), a.view().end()) == *expect, "octets of ", pbt::quote(t), ": ",
                pbt::hex(a.view()), " expected ", pbt::hex(*expect));
    } else {
        REQUIRE(static_cast<bool>(r.unwrap_err().code()), "an error without code");
    }
}

Address from_octets(const Bytes& b) {
    const util::ConstBinaryView v(b.data(), b.size());
    if (b.size() == 4) {
        return Address(AddressV4::from_view(v).unwrap());
    }
    return Address(AddressV6::from_view(v).unwrap());
}

}

PBT_FUZZ(spelled, 400000, 8000000) {
    const bool v4 = s.flip();
    const Bytes b = octets(s, v4 ? 4 : 16);
    std::string t = v4 ? print_v4(b) : spell_v6(s, b);
    const auto n = s.weighted({4, 3, 1});
    if (n == 0) {
        auto e = v4 ? ref_v4(t) : ref_v6(t);
        if (!e || *e != b) {
            pbt::fail("harness: wrong spelling ", t);
        }
    }
    for (size_t i = 0; i < n; ++i) {
        mutate(s, t);
    }
    s.label(n == 0 ? "correct" : n == 1 ? "one mutation" : "two mutations");
    judge(s, t);
    if (n < 2) {
        s.nontrivial(pbt::hash_bytes(t.data(), t.size()));
    }
}

PBT_TEST(soup, 300000, 6000000) {
    const std::string t = s.str(s.flip() ? std::string_view("0125.") : std::string_view("01af:.", 6), s.len(46));
    judge(s, t);
    if (ref_v4(t) || ref_v6(t)) {
        s.nontrivial(pbt::hash_bytes(t.data(), t.size()));
    }
}

PBT_TEST(text_round_trip, 200000, 5000000) {
    const Bytes b = octets(s, s.flip() ? 4 : 16);
    const Address a = from_octets(b);
    const auto t = a.to_string();
    REQUIRE(t.is_ok(), "no text for ", pbt::hex(b));
    char buf[INET6_ADDRSTRLEN];
    const char* expect = inet_ntop(b.size() == 4 ? AF_INET : AF_INET6, b.data(), buf, sizeof buf);
    s.note(pbt::hex(b), " prints ", t.unwrap());
    REQUIRE_EQ(t.unwrap(), std::string(expect), "text of ", pbt::hex(b));
    const auto back = Address::from_string(t.unwrap());
    REQUIRE(back.is_ok() && back.unwrap() == a, "the text of ", pbt::hex(b), " does not read back");
    s.nontrivial(pbt::hash_bytes(b.data(), b.size()));
}

PBT_TEST(equality, 200000, 3000000) {
    Bytes x = octets(s, s.flip() ? 4 : 16);
    Bytes y = s.flip() ? x : octets(s, s.chance(1, 8) ? 20 - x.size() : x.size());
    if (s.flip()) {
        y[s.below(y.size())] ^= static_cast<uint8_t>(1 << s.below(8));
    }
    const Address a = from_octets(x), b = from_octets(y);
    REQUIRE_EQ(a == b, x == y, pbt::hex(x), " and ", pbt::hex(y));
    REQUIRE_EQ(a != b, x != y, pbt::hex(x), " and ", pbt::hex(y));
    Address c(b);
    c = a;
    REQUIRE(c == a, "a copy differs");
    const Address m = x.size() == 4 ? Address::move_from_v4(AddressV4::from_view(a.view()).unwrap())
                                    : Address::move_from_v6(AddressV6::from_view(a.view()).unwrap());
    REQUIRE(m == a, "an address made of the same octets differs");
    const Address p = std::visit(
        util::overloaded{[](const AddressV4& v) { return Address::copy_from_v4(v); },
                         [](const AddressV6& v) { return Address::copy_from_v6(v); }},
        a.value());
    REQUIRE(p == a, "a copied address differs");
    s.nontrivial();
}

PBT_TEST(octet_count, 50000, 300000) {
    const Bytes b = s.bytes(s.below(40));
    const util::ConstBinaryView v(b.data(), b.size());
    const auto r4 = AddressV4::from_view(v);
    const auto r6 = AddressV6::from_view(v);
    REQUIRE_EQ(r4.is_ok(), b.size() == 4, b.size(), " octets as IPv4");
    REQUIRE_EQ(r6.is_ok(), b.size() == 16, b.size(), " octets as IPv6");
    if (r4.is_ok()) {
        REQUIRE(r4.unwrap().view() == v, "octets");
        s.nontrivial();
    }
    if (r6.is_ok()) {
        REQUIRE(r6.unwrap().view() == v, "octets");
        s.nontrivial();
    }
}
