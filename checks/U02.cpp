// U02: splitting, joining and reading tokens lose and invent nothing.
#include <string>
#include <vector>
#include <list>

#include "util/util_result.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"
#include "util/util_flat.hpp"
#include "pbt.hpp"
#include <memory>

using namespace freewebrtc;
namespace sv = util::string_view;

PBT_RULE("strings over small alphabets rich in separators (with NUL and high bytes) are split, joined and compared "
         "with a character-wise reference; token streams are read by generated operation sequences against a cursor "
         "model; non-trivial: the string contains a separator, or the stream ran out or met an unexpected token");

namespace {

std::string text(pbt::Src& s, char sep) {
    std::string alphabet = "ab ,:";
    alphabet += sep;
    alphabet += sep;
    alphabet += '\0';
    alphabet += '\xff';
    return s.chance(1, 300) ? s.filler(alphabet, s.big(70000)) : s.str(alphabet, s.len(40));
}

}

PBT_TEST(split, 150000, 4000000) {
    const char sep = s.one_of({' ', ',', ':', '\0', '\xff', 'a'});
    const std::string t = text(s, sep);
    s.note(pbt::quote(t), " at ", pbt::quote(std::string(1, sep)));
    // first occurrence
    size_t at = 0;
    while (at < t.size() && t[at] != sep) {
        ++at;
    }
    const auto two = sv::split(t, sep);
    REQUIRE_EQ(two.is_some(), at < t.size(), "split of ", pbt::quote(t));
    if (two.is_some()) {
        REQUIRE_EQ(std::string(two.unwrap().first), t.substr(0, at), "first part");
        REQUIRE_EQ(std::string(two.unwrap().second), t.substr(at + 1), "second part");
        REQUIRE(two.unwrap().first.data() == t.data(), "the parts are views of the text");
        REQUIRE(two.unwrap().second.data() == t.data() + at + 1, "the parts are views of the text");
        s.nontrivial();
    }
    // all: every piece between separators; nothing after a final separator
    std::vector<std::string> expected;
    std::string cur;
    for (char c : t) {
        if (c == sep) {
            expected.push_back(cur);
            cur.clear();
        } else {
            cur += c;
        }
    }
    if (!cur.empty()) {
        expected.push_back(cur);
    }
    const auto all = sv::split_all(t, sep);
    REQUIRE_EQ(all.size(), expected.size(), "number of pieces of ", pbt::quote(t));
    for (size_t i = 0; i < all.size(); ++i) {
        REQUIRE_EQ(std::string(all[i]), expected[i], "piece ", i, " of ", pbt::quote(t));
    }
    const auto l = sv::split_all<std::list>(t, sep);
    REQUIRE(std::vector<std::string_view>(l.begin(), l.end()) == all, "pieces in another container");
    // join is the inverse
    std::string joined = sv::join(all, std::string(1, sep));
    if (!t.empty() && t.back() == sep) {
        joined += sep;
    }
    REQUIRE(joined == t, "joining the pieces of ", pbt::quote(t), " gives ", pbt::quote(joined));
    s.label(all.empty() ? "nothing" : all.size() == 1 ? "one piece" : "several pieces");
}

PBT_TEST(prefix, 50000, 500000) {
    const std::string t = text(s, ',');
    const size_t n = s.flip() ? s.below(t.size() + 3) : s.edge(64);
    const auto r = sv::remove_prefix(t, n);
    REQUIRE_EQ(r.is_some(), n <= t.size(), "removing ", n, " of ", t.size());
    if (r.is_some()) {
        REQUIRE(std::string(r.unwrap()) == t.substr(n), "removing ", n, " of ", pbt::quote(t));
    }
}

PBT_TEST(join, 50000, 1000000) {
    std::vector<std::string> parts(s.chance(1, 300) ? s.big(5000) : s.len(8));
    for (auto& p : parts) {
        p = s.chance(1, 300) ? s.filler("ab,;", s.big(10000)) : s.str("ab,;", s.len(5));
    }
    const std::string sep = s.str(",; ", s.below(4));
    std::string expected;
    for (size_t i = 0; i < parts.size(); ++i) {
        expected += (i ? sep : "") + parts[i];
    }
    s.note(parts.size(), " parts with ", pbt::quote(sep));
    REQUIRE_EQ(sv::join(parts, sep), expected, "join");
    std::list<std::string> l(parts.begin(), parts.end());
    REQUIRE_EQ(sv::join(l, sep), expected, "join of another container");
    std::vector<int> nums(s.len(5));
    std::string en;
    for (size_t i = 0; i < nums.size(); ++i) {
        nums[i] = static_cast<int>(s.edge(31)) * (s.flip() ? -1 : 1);
        en += (i ? sep : "") + std::to_string(nums[i]);
    }
    REQUIRE_EQ(sv::join(nums, sep), en, "join of numbers");
    if (parts.size() > 1) {
        s.nontrivial();
    }
}

PBT_TEST(flat, 50000, 500000) {
    std::vector<std::vector<int>> v(s.chance(1, 300) ? s.big(3000) : s.len(6));
    std::vector<int> expected;
    int k = 0;
    for (auto& x : v) {
        x.resize(s.chance(1, 300) ? s.big(3000) : s.len(5));
        for (auto& y : x) {
            y = k++;
            expected.push_back(y);
        }
    }
    REQUIRE(util::flat_vec(v) == expected, "flattening changes the elements");
    if (expected.size() > 1 && v.size() > 1) {
        s.nontrivial();
    }
}

PBT_TEST(tokens, 100000, 3000000) {
    const bool many = s.chance(1, 300);
    std::vector<std::string> store(many ? s.big(3000) : s.len(8));
    for (auto& x : store) {
        x = s.str("ab", s.len(2));
    }
    std::vector<std::string_view> toks(store.begin(), store.end());
    const bool copy = s.flip();
    auto arg = toks;
    util::TokenStream first = copy ? util::TokenStream(static_cast<const std::vector<std::string_view>&>(arg))
                                : util::TokenStream(std::move(arg));
    if (s.flip()) {
        arg.clear(); // the stream has its own tokens
    }
    size_t first_pos = 0;
    const size_t n = 1 + (many ? s.big(3500) : s.len(14));
    bool odd = false;
    struct Reader {
        std::unique_ptr<util::TokenStream> ts;
        size_t pos = 0;
    };
    std::vector<Reader> readers;
    for (size_t i = 0; i < n; ++i) {
        if constexpr (std::is_copy_constructible_v<util::TokenStream>) { // a copy reads on from there, on its own
            if (s.chance(1, 12) && readers.size() < 3) {
                auto& from = readers.empty() ? first : *readers.back().ts;
                const size_t at = readers.empty() ? first_pos : readers.back().pos;
                s.note("copy");
                const bool alone = s.chance(1, 3);
                readers.push_back(Reader{std::make_unique<util::TokenStream>(from), at});
                if (alone && readers.size() > 1) { // and lives longer
                    readers.erase(readers.begin(), readers.end() - 1);
                }
            }
        }
        const size_t which = readers.empty() ? 0 : s.below(readers.size() + 1);
        s.note("reader ", which);
        util::TokenStream& ts = which ? *readers[which - 1].ts : first;
        size_t& pos = which ? readers[which - 1].pos : first_pos;
        const bool more = pos < toks.size();
        switch (s.below(4)) {
        case 0: {
            const auto r = ts.required();
            s.note("required");
            REQUIRE_EQ(r.is_ok(), more, "required at ", pos, " of ", toks.size());
            if (more) {
                REQUIRE(r.unwrap() == toks[pos++], "required gave another token");
            } else {
                odd = true;
            }
            break;
        }
        case 1: {
            const std::string want = more && s.chance(2, 3) ? store[pos] : s.str("ab", s.len(2));
            const auto r = ts.required(std::string_view(want));
            s.note("required ", pbt::quote(want));
            const bool ok = more && want == toks[pos];
            REQUIRE_EQ(r.is_ok(), ok, "required ", pbt::quote(want), " at ", pos);
            odd = odd || !ok;
            pos += more; // the token is consumed, expected or not
            break;
        }
        case 2: {
            const auto r = ts.optional();
            s.note("optional");
            REQUIRE_EQ(r.is_some(), more, "optional at ", pos, " of ", toks.size());
            if (more) {
                REQUIRE(r.unwrap() == toks[pos++], "optional gave another token");
            } else {
                odd = true;
            }
            break;
        }
        default: {
            size_t calls = 0;
            const bool accept = s.flip();
            const auto r = ts.required_bind([&](const std::string_view& v) -> Result<size_t> {
                ++calls;
                if (accept) {
                    return v.size() + 100;
                }
                return make_error_code(std::errc::invalid_argument);
            });
            s.note("required_bind");
            REQUIRE_EQ(calls, size_t(more), "calls of the continuation");
            REQUIRE_EQ(r.is_ok(), more && accept, "required_bind");
            if (r.is_ok()) {
                REQUIRE_EQ(r.unwrap(), toks[pos].size() + 100, "result of the continuation");
            }
            odd = odd || !more;
            pos += more;
            break;
        }
        }
    }
    if (odd) {
        s.nontrivial();
    }
    s.label(odd ? "ran out or unexpected" : "all as expected");
}
