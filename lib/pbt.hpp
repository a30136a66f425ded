// Property-based testing core: every random decision of a case is drawn from a
// Src and recorded as a sequence of integers, so any case can be replayed,
// shrunk (on the sequence) and driven by a coverage-guided fuzzer (the bytes
// of the input are the decisions).
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace pbt {

struct Failure {
    std::string message;
};

struct Discard {};

uint64_t mix(uint64_t x) noexcept;
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 0) noexcept;

class Src {
public:
    enum class Mode { rng, replay, bytes };

    explicit Src(uint64_t seed);                       // random generation
    explicit Src(std::vector<uint64_t> choices);       // replay
    Src(const uint8_t* data, size_t size);             // fuzzer input

    // Uniform in [0, n); n == 0 stands for 2^64. Shrinks towards 0.
    uint64_t below(uint64_t n);
    void force_first(uint64_t v) { m_forced = true; m_forced_value = v; }

    template<typename T>
    T range(T lo, T hi) { // inclusive
        return static_cast<T>(static_cast<uint64_t>(lo)
            + below(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
    }
    // True with probability num/den. Shrinks towards false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool flip() { return below(2) == 1; }
    // Value of `bits` bits, biased to boundaries.
    uint64_t edge(unsigned bits);
    uint8_t u8() { return static_cast<uint8_t>(edge(8)); }
    uint16_t u16() { return static_cast<uint16_t>(edge(16)); }
    uint32_t u32() { return static_cast<uint32_t>(edge(32)); }
    uint64_t u64() { return edge(64); }
    // Length in [0, max], biased to short.
    size_t len(size_t max);
    // Length in [0, max], often next to a power of two.
    size_t big(size_t max);
    std::vector<uint8_t> bytes(size_t n);
    // Octets and characters that come from one decision, for long inputs.
    std::vector<uint8_t> filler(size_t n);
    std::string filler(std::string_view alphabet, size_t n);
    std::string str(std::string_view alphabet, size_t n);
    template<typename C>
    decltype(auto) pick(const C& c) { return c[below(c.size())]; }
    template<typename T>
    T one_of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    // Index with the given weights.
    size_t weighted(std::initializer_list<unsigned> w);

    bool exhausted() const noexcept { return m_mode == Mode::bytes && m_pos >= m_size; }

    // What the case was, for the evidence and the replay.
    bool verbose() const noexcept { return m_verbose; }
    void set_verbose(bool v) noexcept { m_verbose = v; }
    template<typename... Ts>
    void note(const Ts&... ts) {
        if (m_verbose) {
            std::ostringstream os;
            (os << ... << ts);
            m_notes.push_back(os.str());
            on_note();
        }
    }
    void label(const char* l) { ++m_labels[l]; }
    void label(const std::string& l) { ++m_labels[l]; }
    void nontrivial() noexcept { m_nontrivial = true; }
    void nontrivial(uint64_t h) noexcept { m_nontrivial = true; m_case_hash = h; m_has_hash = true; }

    const std::vector<uint64_t>& choices() const noexcept { return m_choices; }
    const std::vector<uint8_t>& widths() const noexcept { return m_widths; }
    const std::vector<std::string>& notes() const noexcept { return m_notes; }
    const std::map<std::string, uint64_t>& labels() const noexcept { return m_labels; }
    bool is_nontrivial() const noexcept { return m_nontrivial; }
    uint64_t case_hash() const noexcept;

private:
    uint64_t next_rng() noexcept;
    void record(uint64_t v, uint8_t width);
    void on_note() const;

    Mode m_mode;
    uint64_t m_s[4] = {};
    std::vector<uint64_t> m_in;
    const uint8_t* m_data = nullptr;
    size_t m_size = 0;
    size_t m_pos = 0;
    bool m_forced = false;
    uint64_t m_forced_value = 0;
    bool m_verbose = false;
    bool m_nontrivial = false;
    bool m_has_hash = false;
    uint64_t m_case_hash = 0;
    std::vector<uint64_t> m_choices;
    std::vector<uint8_t> m_widths;
    std::vector<std::string> m_notes;
    std::map<std::string, uint64_t> m_labels;
};

struct Test {
    const char* name;
    void (*fn)(Src&);
    uint64_t quick;
    uint64_t thorough;
    bool exhaustive;
    bool fuzz;
};

std::vector<Test>& tests();

struct Register {
    Register(const char* n, void (*f)(Src&), uint64_t q, uint64_t t, bool e, bool z) {
        tests().push_back(Test{n, f, q, t, e, z});
    }
};

template<typename... Ts>
[[noreturn]] void fail(const Ts&... ts) {
    std::ostringstream os;
    (os << ... << ts);
    throw Failure{os.str()};
}

[[noreturn]] inline void discard() { throw Discard{}; }

// The property's rule for a non-trivial case, for the evidence.
void set_rule(const char* rule);
struct Rule { explicit Rule(const char* r) { set_rule(r); } };

// Failing cases recorded as known findings are counted by tag, not reported.
bool known_finding(const std::string& tag);

std::string hex(const void* p, size_t n);
template<typename C>
std::string hex(const C& c) { return hex(c.data(), c.size()); }
std::string quote(std::string_view s);

namespace details {
template<typename T>
std::string show(const T& v) {
    if constexpr (requires(std::ostringstream& os) { os << v; }) {
        std::ostringstream os;
        if constexpr (std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>) {
            os << int(v);
        } else {
            os << v;
        }
        return os.str();
    } else {
        return "<?>";
    }
}
}

}

// A randomly generated test with case counts for the quick and thorough tier.
#define PBT_TEST(name, quick, thorough)                                          \
    static void pbt_fn_##name(pbt::Src&);                                        \
    static pbt::Register pbt_reg_##name(#name, pbt_fn_##name, quick, thorough, false, false); \
    static void pbt_fn_##name([[maybe_unused]] pbt::Src& s)
// The same, and also a target for the coverage-guided fuzzer.
#define PBT_FUZZ(name, quick, thorough)                                          \
    static void pbt_fn_##name(pbt::Src&);                                        \
    static pbt::Register pbt_reg_##name(#name, pbt_fn_##name, quick, thorough, false, true); \
    static void pbt_fn_##name([[maybe_unused]] pbt::Src& s)
// A test whose first choice enumerates [0, count).
#define PBT_EXHAUSTIVE(name, count)                                              \
    static void pbt_fn_##name(pbt::Src&);                                        \
    static pbt::Register pbt_reg_##name(#name, pbt_fn_##name, count, count, true, false); \
    static void pbt_fn_##name([[maybe_unused]] pbt::Src& s)

#define PBT_RULE(text) static pbt::Rule pbt_rule(text)

#define REQUIRE(cond, ...)                                                       \
    do {                                                                         \
        if (!(cond)) {                                                           \
            pbt::fail(#cond " does not hold: ", ##__VA_ARGS__);                  \
        }                                                                        \
    } while (0)

#define REQUIRE_EQ(a, b, ...)                                                    \
    do {                                                                         \
        const auto pbt_a = (a);                                                 \
        const auto pbt_b = (b);                                                 \
        if (!(pbt_a == pbt_b)) {                                                 \
            pbt::fail(#a " == " #b " does not hold: got ", pbt::details::show(pbt_a), \
                      " expected ", pbt::details::show(pbt_b), " ", ##__VA_ARGS__);   \
        }                                                                        \
    } while (0)
