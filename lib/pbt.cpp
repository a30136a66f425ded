#include "pbt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1:"
           "max_allocation_size_mb=2048:handle_abort=0:strict_string_checks=1";
}
extern "C" const char* __ubsan_default_options() {
    return "print_stacktrace=0:exitcode=98";
}
extern "C" const char* __tsan_default_options() {
    return "halt_on_error=1:exitcode=97:die_after_fork=0:report_thread_leaks=0";
}

namespace pbt {

// ---------------------------------------------------------------- generation

namespace {

constexpr size_t max_choices = 1 << 17;

// Shared with the parent: the decisions of the case being run survive a crash.
struct Shared {
    std::atomic<uint64_t> progress;
    std::atomic<uint64_t> test;
    std::atomic<uint64_t> index;
    std::atomic<uint64_t> nchoices;
    char message[8192];
    uint64_t choices[max_choices];
};

Shared* g_shared = nullptr;
int g_note_fd = -1;
std::set<std::string> g_known;
std::map<std::string, uint64_t> g_known_hits;

uint64_t rotl(uint64_t x, int k) noexcept { return (x << k) | (x >> (64 - k)); }

}

uint64_t mix(uint64_t x) noexcept {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed) noexcept {
    uint64_t h = mix(seed ^ n);
    const uint8_t* b = static_cast<const uint8_t*>(p);
    while (n >= 8) {
        uint64_t v;
        std::memcpy(&v, b, 8);
        h = mix(h ^ v);
        b += 8;
        n -= 8;
    }
    uint64_t v = 0;
    if (n > 0) {
        std::memcpy(&v, b, n);
    }
    return mix(h ^ v);
}

Src::Src(uint64_t seed) : m_mode(Mode::rng) {
    for (auto& v : m_s) {
        seed = mix(seed);
        v = seed;
    }
    m_choices.reserve(64);
}

Src::Src(std::vector<uint64_t> choices) : m_mode(Mode::replay), m_in(std::move(choices)) {}

Src::Src(const uint8_t* data, size_t size) : m_mode(Mode::bytes), m_data(data), m_size(size) {}

uint64_t Src::next_rng() noexcept { // xoshiro256**
    const uint64_t result = rotl(m_s[1] * 5, 7) * 9;
    const uint64_t t = m_s[1] << 17;
    m_s[2] ^= m_s[0];
    m_s[3] ^= m_s[1];
    m_s[1] ^= m_s[2];
    m_s[0] ^= m_s[3];
    m_s[2] ^= t;
    m_s[3] = rotl(m_s[3], 45);
    return result;
}

void Src::record(uint64_t v, uint8_t width) {
    m_choices.push_back(v);
    m_widths.push_back(width);
    if (g_shared != nullptr && m_choices.size() <= max_choices) {
        g_shared->choices[m_choices.size() - 1] = v;
        g_shared->nchoices.store(m_choices.size(), std::memory_order_relaxed);
    }
    if (m_choices.size() > max_choices) {
        throw Discard{};
    }
}

uint64_t Src::below(uint64_t n) {
    uint64_t v = 0;
    uint8_t width = 8;
    if (n != 0) {
        width = 0;
        for (uint64_t m = n - 1; m != 0; m >>= 8) {
            ++width;
        }
    }
    if (m_forced) {
        m_forced = false;
        v = m_forced_value;
    } else {
        switch (m_mode) {
        case Mode::rng: v = next_rng(); break;
        case Mode::replay: v = m_pos < m_in.size() ? m_in[m_pos++] : 0; break;
        case Mode::bytes:
            if (m_pos >= m_size) { // past the input: one fixed random tail
                v = mix(++m_pos);
                break;
            }
            for (uint8_t i = 0; i < width; ++i) {
                v = (v << 8) | (m_pos < m_size ? m_data[m_pos] : 0);
                ++m_pos;
            }
            break;
        }
    }
    if (n != 0) {
        if (m_mode == Mode::rng && !m_forced && n < (uint64_t(1) << 32)) {
            v = v >= n ? ((v >> 32) * n) >> 32 : v;
        } else {
            v %= n;
        }
    }
    record(v, width);
    return v;
}

uint64_t Src::edge(unsigned bits) {
    const uint64_t max = bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
    switch (below(8)) {
    case 0: return below(17) & max;
    case 1: return max - below(std::min<uint64_t>(max, 4) + 1);
    case 2: {
        const uint64_t base = uint64_t(1) << below(bits);
        return (base + below(3) - 1) & max;
    }
    case 3: return below(257) & max;
    default: return bits == 64 ? below(0) : below(max + 1);
    }
}

size_t Src::len(size_t max) {
    if (max == 0) {
        return 0;
    }
    switch (below(8)) {
    case 0: case 1: case 2: case 3: return below(std::min<size_t>(max, 8) + 1);
    case 4: case 5: return below(std::min<size_t>(max, 40) + 1);
    case 6: return max - below(std::min<size_t>(max, 3) + 1);
    default: return below(max + 1);
    }
}

size_t Src::big(size_t max) {
    size_t bits = 1;
    while (bits < 63 && (max >> bits) != 0) {
        ++bits;
    }
    const size_t near = (size_t{1} << below(bits)) + below(7) - 3;
    return flip() ? below(max + 1) : std::min(near > max + 3 ? size_t{0} : near, max);
}

std::vector<uint8_t> Src::filler(size_t n) {
    std::vector<uint8_t> r(n);
    uint64_t x = below(0) | 1;
    for (auto& b : r) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        b = static_cast<uint8_t>(x >> 32);
    }
    return r;
}

std::string Src::filler(std::string_view alphabet, size_t n) {
    std::string r(n, ' ');
    const auto l = filler(n);
    for (size_t i = 0; i < n; ++i) {
        r[i] = alphabet[l[i] % alphabet.size()];
    }
    return r;
}

std::vector<uint8_t> Src::bytes(size_t n) {
    std::vector<uint8_t> r(n);
    for (auto& b : r) {
        b = static_cast<uint8_t>(below(256));
    }
    return r;
}

std::string Src::str(std::string_view alphabet, size_t n) {
    std::string r(n, ' ');
    for (auto& c : r) {
        c = alphabet[below(alphabet.size())];
    }
    return r;
}

size_t Src::weighted(std::initializer_list<unsigned> w) {
    unsigned total = 0;
    for (auto x : w) {
        total += x;
    }
    uint64_t v = below(total);
    size_t i = 0;
    for (auto x : w) {
        if (v < x) {
            return i;
        }
        v -= x;
        ++i;
    }
    return 0;
}

uint64_t Src::case_hash() const noexcept {
    return m_has_hash ? m_case_hash : hash_bytes(m_choices.data(), m_choices.size() * 8);
}

void Src::on_note() const {
    if (g_note_fd >= 0) {
        std::string line = m_notes.back() + "\n";
        [[maybe_unused]] auto r = ::write(g_note_fd, line.data(), line.size());
    }
}

std::vector<Test>& tests() {
    static std::vector<Test> v;
    return v;
}

namespace {
const char* g_rule = nullptr; // set during static initialisation
}

void set_rule(const char* rule) { g_rule = rule; }

bool known_finding(const std::string& tag) {
    if (g_known.count(tag) == 0) {
        return false;
    }
    ++g_known_hits[tag];
    return true;
}

std::string hex(const void* p, size_t n) {
    static const char* digits = "0123456789abcdef";
    std::string r;
    const uint8_t* b = static_cast<const uint8_t*>(p);
    const size_t max = 1000;
    for (size_t i = 0; i < n && i < max; ++i) {
        r += digits[b[i] >> 4];
        r += digits[b[i] & 15];
    }
    if (n > max) {
        r += "... (" + std::to_string(n) + " octets)";
    }
    return r;
}

std::string quote(std::string_view s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char buf[8];
            std::snprintf(buf, sizeof buf, "\\x%02x", c);
            r += buf;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

namespace {

enum class Verdict { ok, discarded, failed };

Verdict run_case(const Test& t, Src& s, std::string& message) {
    try {
        t.fn(s);
    } catch (const Failure& f) {
        message = f.message;
        return Verdict::failed;
    } catch (const Discard&) {
        return Verdict::discarded;
    } catch (const std::exception& e) {
        message = std::string("exception: ") + e.what();
        return Verdict::failed;
    } catch (...) {
        message = "unknown exception";
        return Verdict::failed;
    }
    return Verdict::ok;
}

}

}

#ifdef PBT_LIBFUZZER

// -------------------------------------------------------------- fuzzer entry

using namespace pbt;

namespace {
const Test* fuzz_target() {
    static const Test* t = [] {
        const char* name = std::getenv("PBT_FUZZ_TEST");
        for (const auto& x : tests()) {
            if (name != nullptr && std::strcmp(name, x.name) == 0) {
                return &x;
            }
        }
        std::fprintf(stderr, "PBT_FUZZ_TEST is not set\n");
        std::_Exit(3);
    }();
    return t;
}
uint64_t g_execs = 0;
uint64_t g_nontrivial = 0;
void dump_stats() {
    if (const char* f = std::getenv("PBT_FUZZ_STATS")) {
        std::ofstream(f) << g_execs << ' ' << g_nontrivial << '\n';
    }
}
}

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    if (const char* k = std::getenv("PBT_KNOWN")) {
        std::istringstream is(k);
        std::string tag;
        while (std::getline(is, tag, ',')) {
            g_known.insert(tag);
        }
    }
    std::atexit(dump_stats);
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    const Test& t = *fuzz_target();
    Src s(data, size);
    std::string message;
    ++g_execs;
    if (run_case(t, s, message) == Verdict::failed) {
        std::fprintf(stderr, "PBT-FAILURE %s: %s\n", t.name, message.c_str());
        std::abort();
    }
    if (s.is_nontrivial()) {
        ++g_nontrivial;
    }
    return 0;
}

#else

// ------------------------------------------------------------------- driver

using namespace pbt;

namespace {

struct Options {
    std::string property = "P00";
    std::string tier = "quick";
    uint64_t seed = 1;
    unsigned workers = 8;
    double budget = 600;
    double scale = 1.0;
    double hang = 60;
    std::string out;
    std::string replay_out;
    std::string replay_in;
    std::string from_bytes;
    std::string only;
    std::string emit_corpus;
    unsigned emit_count = 64;
} opt;

double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Entry {
    size_t test;
    bool generated;                 // by (seed, index), else by choices
    uint64_t index;
    std::vector<uint64_t> choices;
};

uint64_t case_seed(size_t test, uint64_t index) {
    const std::string name = tests()[test].name;
    return mix(mix(opt.seed ^ hash_bytes(name.data(), name.size())) ^ index);
}

Src make_src(const Entry& e) {
    if (e.generated) {
        Src s(case_seed(e.test, e.index));
        if (tests()[e.test].exhaustive) {
            s.force_first(e.index);
        }
        return s;
    }
    return Src(e.choices);
}

Shared* new_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(3);
    }
    return new (p) Shared;
}

constexpr int exit_failed = 77;

struct Outcome {
    bool failed = false;
    std::string message;
    std::vector<uint64_t> choices; // of the last entry, as consumed
    std::string log;
};

std::string describe_death(int status, const std::string& log) {
    std::string what;
    if (WIFSIGNALED(status)) {
        what = std::string("killed by signal ") + std::to_string(WTERMSIG(status));
    } else {
        what = "exit status " + std::to_string(WEXITSTATUS(status));
    }
    // The sanitizer's one-line summary, when there is one.
    for (const char* key : {"runtime error:", "ERROR: AddressSanitizer:", "SUMMARY: ThreadSanitizer:", "terminate called", "what():"}) {
        auto p = log.find(key);
        if (p != std::string::npos) {
            auto b = log.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            auto e = log.find('\n', p);
            what += "; " + log.substr(b, std::min<size_t>(e == std::string::npos ? e : e - b, 400));
        }
    }
    return what;
}

// Runs the entries one after another in a child; the last one decides.
Outcome run_child(const std::vector<Entry>& entries, double timeout, bool verbose) {
    static Shared* sh = new_shared();
    sh->nchoices = 0;
    sh->index = 0;
    sh->message[0] = 0;
    int fds[2];
    if (pipe(fds) != 0) {
        std::perror("pipe");
        std::exit(3);
    }
    std::cout.flush();
    const pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]);
        dup2(fds[1], 1);
        dup2(fds[1], 2);
        g_shared = sh;
        for (size_t i = 0; i < entries.size(); ++i) {
            const bool last = i + 1 == entries.size();
            sh->nchoices = 0;
            sh->index = i;
            Src s = make_src(entries[i]);
            if (last && verbose) {
                s.set_verbose(true);
                g_note_fd = 1;
            }
            std::string message;
            if (run_case(tests()[entries[i].test], s, message) == Verdict::failed) {
                std::snprintf(sh->message, sizeof sh->message, "%s", message.c_str());
                _exit(exit_failed);
            }
        }
        _exit(0);
    }
    close(fds[1]);
    Outcome o;
    const double end = now() + timeout;
    bool timed_out = false;
    char buf[4096];
    for (;;) {
        pollfd p{fds[0], POLLIN, 0};
        const double left = end - now();
        if (left <= 0) {
            timed_out = true;
            kill(pid, SIGKILL);
            break;
        }
        const int r = poll(&p, 1, static_cast<int>(std::min(left * 1000 + 1, 1e6)));
        if (r > 0) {
            const ssize_t n = read(fds[0], buf, sizeof buf);
            if (n <= 0) {
                break;
            }
            if (o.log.size() < 200000) {
                o.log.append(buf, static_cast<size_t>(n));
            }
        }
    }
    close(fds[0]);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    o.choices.assign(sh->choices, sh->choices + std::min<uint64_t>(sh->nchoices, max_choices));
    const bool at_last = sh->index + 1 == entries.size();
    if (timed_out) {
        o.failed = at_last;
        o.message = "does not terminate";
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        o.failed = false;
    } else if (WIFEXITED(status) && WEXITSTATUS(status) == exit_failed) {
        o.failed = at_last;
        o.message = sh->message;
    } else {
        o.failed = at_last;
        o.message = describe_death(status, o.log);
    }
    return o;
}

// ------------------------------------------------------------------ shrinking

std::vector<Entry> shrink(std::vector<Entry> failing, double budget, double case_timeout, uint64_t& attempts) {
    const double end = now() + budget;
    attempts = 0;
    auto fails = [&](const std::vector<Entry>& c) {
        ++attempts;
        return run_child(c, case_timeout, false).failed;
    };
    auto spent = [&] { return now() > end || attempts > 20000; };
    // Fix the last case's decisions as its consumed choices.
    Entry& last0 = failing.back();
    if (last0.generated) {
        auto o = run_child(failing, case_timeout, false);
        Entry e{last0.test, false, 0, o.choices};
        auto c = failing;
        c.back() = e;
        if (fails(c)) {
            failing = c;
        }
    }
    std::vector<uint64_t>& ch = failing.back().choices;
    auto attempt = [&](std::vector<uint64_t> candidate) {
        auto c = failing;
        c.back().choices = std::move(candidate);
        if (!fails(c)) {
            return false;
        }
        ch = c.back().choices;
        return true;
    };
    bool progress = !ch.empty();
    while (progress && !spent()) {
        progress = false;
        // Drop trailing decisions, then blocks.
        for (size_t k = ch.size(); k > 0 && !spent(); k /= 2) {
            for (size_t i = ch.size(); i >= k && !spent();) {
                auto c = ch;
                c.erase(c.begin() + static_cast<long>(i - k), c.begin() + static_cast<long>(i));
                if (attempt(c)) {
                    progress = true;
                    i = std::min(i, ch.size());
                    if (i < k) {
                        break;
                    }
                } else {
                    i = i > k ? i - std::max<size_t>(1, k / 2) : 0;
                    if (i == 0) {
                        break;
                    }
                }
            }
        }
        // Zero blocks.
        for (size_t k = std::min<size_t>(ch.size(), 16); k > 0 && !spent(); k /= 2) {
            for (size_t i = 0; i + k <= ch.size() && !spent(); i += k) {
                auto c = ch;
                bool any = false;
                for (size_t j = i; j < i + k; ++j) {
                    any = any || c[j] != 0;
                    c[j] = 0;
                }
                if (any && attempt(c)) {
                    progress = true;
                }
            }
        }
        // Lower single values.
        for (size_t i = 0; i < ch.size() && !spent(); ++i) {
            uint64_t lo = 0;
            uint64_t hi = ch[i];
            while (lo < hi && !spent()) {
                const uint64_t mid = lo + (hi - lo) / 2;
                auto c = ch;
                c[i] = mid;
                if (attempt(c)) {
                    progress = true;
                    if (i >= ch.size()) {
                        break;
                    }
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    return failing;
}

std::string entry_line(const Entry& e) {
    std::ostringstream os;
    os << "case test=" << tests()[e.test].name;
    if (e.generated) {
        os << " seed=" << opt.seed << " index=" << e.index;
    } else {
        os << " choices=";
        for (size_t i = 0; i < e.choices.size(); ++i) {
            os << (i ? "," : "") << e.choices[i];
        }
    }
    return os.str();
}

size_t test_by_name(const std::string& name) {
    for (size_t i = 0; i < tests().size(); ++i) {
        if (name == tests()[i].name) {
            return i;
        }
    }
    std::fprintf(stderr, "unknown test %s\n", name.c_str());
    std::exit(3);
}

// Confirms, shrinks and writes a failure. True when it is a violation.
bool report(std::vector<Entry> failing, const std::string& first_message) {
    std::cerr << "failure in " << tests()[failing.back().test].name << ": " << first_message << std::endl;
    auto o = run_child(failing, opt.hang, false);
    if (!o.failed) {
        return false;
    }
    const double case_timeout = std::min(opt.hang, 20.0);
    uint64_t attempts = 0;
    auto minimal = shrink(failing, 60, case_timeout, attempts);
    unsigned confirmed = 0;
    Outcome v;
    for (int i = 0; i < 3; ++i) {
        v = run_child(minimal, case_timeout, true);
        confirmed += v.failed;
    }
    if (confirmed < 3) {
        minimal = failing;
        confirmed = 0;
        for (int i = 0; i < 3; ++i) {
            v = run_child(minimal, opt.hang, true);
            confirmed += v.failed;
        }
        if (confirmed < 3) {
            std::cerr << "not reproducible" << std::endl;
            return false;
        }
    }
    std::ofstream f(opt.replay_out);
    f << "property " << opt.property << "\n";
    f << "# " << tests()[minimal.back().test].name << ": ";
    for (char c : v.message) {
        f << c;
        if (c == '\n') {
            f << "#   ";
        }
    }
    f << "\n# shrinking attempts: " << attempts << "\n";
    std::istringstream log(v.log);
    std::string line;
    for (int n = 0; std::getline(log, line) && n < 400; ++n) {
        f << "#   " << line << "\n";
    }
    for (const auto& e : minimal) {
        f << entry_line(e) << "\n";
    }
    f.close();
    std::cerr << "minimal: " << v.message << "\n" << v.log.substr(0, 4000) << std::endl;
    std::cout << "VIOLATION property=" << opt.property << " replay=" << opt.replay_out << std::endl;
    return true;
}

// -------------------------------------------------------------------- workers

struct WorkerOut {
    std::string stats; // path
    std::string hashes;
};

struct Unit { size_t test; uint64_t count; };

std::string tmpdir;

void worker_main(unsigned w, Shared* sh, const std::vector<Unit>& plan, size_t from_unit, uint64_t from_index,
                 const WorkerOut& out, double deadline) {
    g_shared = sh;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::array<uint64_t, 3>> counts; // run, nontrivial, discarded
    std::map<std::string, std::vector<std::string>> samples;
    std::unordered_set<uint64_t> hashes;
    bool cut = false;
    for (size_t u = from_unit; u < plan.size() && !cut; ++u) {
        const Test& t = tests()[plan[u].test];
        uint64_t start = u == from_unit ? from_index : w;
        auto& c = counts[t.name];
        auto& sam = samples[t.name];
        const uint64_t salt = hash_bytes(t.name, std::strlen(t.name));
        for (uint64_t i = start; i < plan[u].count; i += opt.workers) {
            sh->test = plan[u].test;
            sh->index = i;
            sh->nchoices = 0;
            sh->progress.fetch_add(1, std::memory_order_relaxed);
            Entry e{plan[u].test, true, i, {}};
            Src s = make_src(e);
            const bool want = sam.size() < 2;
            s.set_verbose(want);
            std::string message;
            const Verdict v = run_case(t, s, message);
            if (v == Verdict::failed) {
                std::snprintf(sh->message, sizeof sh->message, "%s", message.c_str());
                _exit(exit_failed);
            }
            if (v == Verdict::discarded) {
                ++c[2];
                continue;
            }
            ++c[0];
            for (const auto& [k, n] : s.labels()) {
                labels[std::string(t.name) + "/" + k] += n;
            }
            if (s.is_nontrivial()) {
                ++c[1];
                if (hashes.size() < 4000000) {
                    hashes.insert(mix(s.case_hash() ^ salt));
                }
                if (want && !s.notes().empty()) {
                    std::string txt;
                    for (size_t k = 0; k < s.notes().size() && txt.size() < 1200; ++k) {
                        txt += (k ? "; " : "") + s.notes()[k];
                    }
                    sam.push_back(txt.substr(0, 1400));
                }
            }
            if ((i & 0xff) < opt.workers && now() > deadline) {
                cut = true;
                break;
            }
        }
    }
    std::ofstream st(out.stats, std::ios::app);
    for (const auto& [k, v] : counts) {
        st << "count\t" << k << '\t' << v[0] << '\t' << v[1] << '\t' << v[2] << '\n';
    }
    for (const auto& [k, v] : labels) {
        st << "label\t" << k << '\t' << v << '\n';
    }
    for (const auto& [k, v] : samples) {
        for (const auto& x : v) {
            std::string y = x;
            std::replace(y.begin(), y.end(), '\n', ' ');
            std::replace(y.begin(), y.end(), '\t', ' ');
            st << "sample\t" << k << '\t' << y << '\n';
        }
    }
    for (const auto& [k, v] : g_known_hits) {
        st << "known\t" << k << '\t' << v << '\n';
    }
    if (cut) {
        st << "cut\n";
    }
    std::ofstream h(out.hashes, std::ios::app | std::ios::binary);
    for (auto x : hashes) {
        h.write(reinterpret_cast<const char*>(&x), sizeof x);
    }
    st.close();
    h.close();
    _exit(0);
}

std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

int explore() {
    const double started = now();
    std::vector<Unit> plan;
    for (size_t i = 0; i < tests().size(); ++i) {
        if (!opt.only.empty() && opt.only != tests()[i].name) {
            continue;
        }
        uint64_t n = opt.tier == "thorough" ? tests()[i].thorough : tests()[i].quick;
        if (!tests()[i].exhaustive) {
            n = static_cast<uint64_t>(static_cast<double>(n) * opt.scale);
        }
        plan.push_back({i, n});
    }
    // Short units first, so that a failure in one is found early.
    std::stable_sort(plan.begin(), plan.end(), [](const Unit& a, const Unit& b) { return a.count < b.count; });

    struct Worker { pid_t pid = 0; Shared* sh = nullptr; WorkerOut out; uint64_t seen = 0; double since = 0; bool done = false; int errfd = -1; std::string err; };
    std::vector<Worker> ws(opt.workers);
    const double deadline = now() + opt.budget;
    auto spawn = [&](unsigned i, size_t unit, uint64_t index) {
        auto& w = ws[i];
        int fds[2];
        if (pipe(fds) != 0) {
            std::exit(3);
        }
        std::cout.flush();
        w.pid = fork();
        if (w.pid == 0) {
            close(fds[0]);
            dup2(fds[1], 1);
            dup2(fds[1], 2);
            worker_main(i, w.sh, plan, unit, index, w.out, deadline);
        }
        close(fds[1]);
        fcntl(fds[0], F_SETFL, O_NONBLOCK);
        w.errfd = fds[0];
        w.err.clear();
        w.done = false;
        w.seen = w.sh->progress;
        w.since = now();
    };
    for (unsigned i = 0; i < opt.workers; ++i) {
        ws[i].sh = new_shared();
        ws[i].sh->progress = 0;
        ws[i].out = {tmpdir + "/stats" + std::to_string(i), tmpdir + "/hash" + std::to_string(i)};
        spawn(i, 0, i);
    }
    bool violation = false;
    uint64_t irreproducible = 0;
    unsigned running = opt.workers;
    auto drain = [&](Worker& w) {
        char buf[4096];
        for (ssize_t n; w.errfd >= 0 && (n = read(w.errfd, buf, sizeof buf)) > 0;) {
            if (w.err.size() < 200000) {
                w.err.append(buf, static_cast<size_t>(n));
            }
        }
    };
    auto kill_all = [&] {
        for (auto& x : ws) {
            if (!x.done) {
                kill(x.pid, SIGKILL);
                waitpid(x.pid, nullptr, 0);
                x.done = true;
            }
        }
    };
    while (running > 0 && !violation) {
        for (unsigned i = 0; i < opt.workers && !violation; ++i) {
            auto& w = ws[i];
            if (w.done) {
                continue;
            }
            drain(w);
            int status = 0;
            const pid_t r = waitpid(w.pid, &status, WNOHANG);
            bool hung = false;
            if (r == 0) {
                const uint64_t p = w.sh->progress;
                if (p != w.seen) {
                    w.seen = p;
                    w.since = now();
                } else if (now() - w.since > opt.hang) {
                    hung = true;
                    kill(w.pid, SIGKILL);
                    waitpid(w.pid, nullptr, 0);
                }
                if (!hung) {
                    continue;
                }
            }
            drain(w);
            close(w.errfd);
            w.errfd = -1;
            w.done = true;
            if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                --running;
                continue;
            }
            const size_t test = w.sh->test;
            const uint64_t index = w.sh->index;
            std::string message = hung ? "does not terminate"
                : WIFEXITED(status) && WEXITSTATUS(status) == exit_failed ? std::string(w.sh->message)
                : describe_death(status, w.err);
            // Alone first, then after ever more of the cases that ran before it.
            Entry e{test, true, index, {}};
            std::vector<Entry> history;
            for (const auto& u : plan) {
                for (uint64_t k = i; k < u.count; k += opt.workers) {
                    if (u.test == test && k >= index) {
                        break;
                    }
                    history.push_back(Entry{u.test, true, k, {}});
                }
                if (u.test == test) {
                    break;
                }
            }
            bool done = false;
            for (size_t back = 0;; back = back == 0 ? 1 : back * 8) {
                const size_t n = std::min(back, history.size());
                std::vector<Entry> c(history.end() - static_cast<long>(n), history.end());
                c.push_back(e);
                if (n == 0) {
                    kill_all(); // leave the machine to the shrinking
                }
                if (report(c, message)) {
                    done = true;
                    break;
                }
                if (n == history.size() || n > 300000) {
                    break;
                }
            }
            if (done) {
                violation = true;
                break;
            }
            ++irreproducible;
            std::cerr << "inconclusive: " << message << std::endl;
            running = 0;
            break;
        }
        usleep(20000);
    }
    kill_all();
    // Merge.
    std::map<std::string, std::array<uint64_t, 3>> counts;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, uint64_t> known;
    std::unordered_set<uint64_t> hashes;
    bool cut = false;
    for (auto& w : ws) {
        std::ifstream st(w.out.stats);
        std::string line;
        while (std::getline(st, line)) {
            std::istringstream is(line);
            std::string kind, name, rest;
            std::getline(is, kind, '\t');
            std::getline(is, name, '\t');
            std::getline(is, rest);
            if (kind == "count") {
                std::istringstream n(rest);
                uint64_t a = 0, b = 0, c = 0;
                n >> a >> b >> c;
                auto& x = counts[name];
                x[0] += a;
                x[1] += b;
                x[2] += c;
            } else if (kind == "label") {
                labels[name] += std::stoull(rest);
            } else if (kind == "known") {
                known[name] += std::stoull(rest);
            } else if (kind == "sample") {
                if (samples[name].size() < 3) {
                    samples[name].push_back(rest);
                }
            } else if (kind == "cut") {
                cut = true;
            }
        }
        std::ifstream h(w.out.hashes, std::ios::binary);
        uint64_t x;
        while (h.read(reinterpret_cast<char*>(&x), sizeof x)) {
            hashes.insert(x);
        }
    }
    uint64_t evals = 0, nontriv = 0, discarded = 0;
    for (const auto& [k, v] : counts) {
        evals += v[0];
        nontriv += v[1];
        discarded += v[2];
    }
    if (!opt.out.empty()) {
        std::ofstream f(opt.out);
        f << "{\"evaluations\": " << evals << ", \"nontrivial\": " << nontriv
          << ", \"distinct_nontrivial\": " << hashes.size() << ", \"discarded\": " << discarded
          << ", \"rule\": " << json_str(g_rule == nullptr ? "every generated case" : g_rule) << ", \"cut_by_time\": " << (cut ? "true" : "false")
          << ", \"irreproducible\": " << irreproducible
          << ", \"violation\": " << (violation ? "true" : "false")
          << ", \"wall_s\": " << now() - started << ", \"tests\": {";
        bool first = true;
        for (const auto& u : plan) {
            const auto& t = tests()[u.test];
            const auto& c = counts[t.name];
            f << (first ? "" : ", ") << json_str(t.name) << ": {\"planned\": " << u.count << ", \"run\": " << c[0]
              << ", \"nontrivial\": " << c[1] << ", \"exhaustive\": " << (t.exhaustive ? "true" : "false") << "}";
            first = false;
        }
        f << "}, \"labels\": {";
        first = true;
        for (const auto& [k, v] : labels) {
            f << (first ? "" : ", ") << json_str(k) << ": " << v;
            first = false;
        }
        f << "}, \"known\": {";
        first = true;
        for (const auto& [k, v] : known) {
            f << (first ? "" : ", ") << json_str(k) << ": " << v;
            first = false;
        }
        f << "}, \"samples\": [";
        first = true;
        for (const auto& [k, v] : samples) {
            for (const auto& x : v) {
                f << (first ? "" : ", ") << json_str(k + ": " + x);
                first = false;
            }
        }
        f << "]}\n";
    }
    return violation ? 1 : irreproducible > 0 ? 4 : 0;
}

int replay(const std::string& path) {
    std::ifstream f(path);
    std::string line;
    std::vector<Entry> entries;
    while (std::getline(f, line)) {
        if (line.rfind("property ", 0) == 0) {
            opt.property = line.substr(9);
            continue;
        }
        if (line.rfind("case ", 0) != 0) {
            continue;
        }
        std::istringstream is(line.substr(5));
        std::string tok;
        Entry e{0, false, 0, {}};
        while (is >> tok) {
            auto eq = tok.find('=');
            const std::string k = tok.substr(0, eq);
            const std::string v = tok.substr(eq + 1);
            if (k == "test") {
                e.test = test_by_name(v);
            } else if (k == "seed") {
                opt.seed = std::stoull(v);
            } else if (k == "index") {
                e.generated = true;
                e.index = std::stoull(v);
            } else if (k == "choices") {
                std::istringstream cs(v);
                std::string c;
                while (std::getline(cs, c, ',')) {
                    e.choices.push_back(std::stoull(c));
                }
            }
        }
        entries.push_back(std::move(e));
    }
    if (entries.empty()) {
        std::cerr << "no cases in " << path << std::endl;
        return 3;
    }
    const auto o = run_child(entries, opt.hang, true);
    std::cout << o.log;
    if (o.failed) {
        std::cout << "FAILS: " << o.message << std::endl;
        std::cout << "VIOLATION property=" << opt.property << " replay=" << path << std::endl;
        return 1;
    }
    std::cout << "holds" << std::endl;
    return 0;
}

int from_bytes(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    std::string data((std::istreambuf_iterator<char>(f)), {});
    const size_t t = test_by_name(opt.only);
    // Decode in a child: the case may crash.
    Shared* sh = new_shared();
    sh->nchoices = 0;
    const pid_t pid = fork();
    if (pid == 0) {
        g_shared = sh;
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1);
        dup2(null, 2);
        Src s(reinterpret_cast<const uint8_t*>(data.data()), data.size());
        std::string message;
        alarm(static_cast<unsigned>(opt.hang));
        run_case(tests()[t], s, message);
        _exit(0);
    }
    waitpid(pid, nullptr, 0);
    Entry e{t, false, 0, {}};
    e.choices.assign(sh->choices, sh->choices + std::min<uint64_t>(sh->nchoices, max_choices));
    return report({e}, "found by the coverage-guided fuzzer") ? 1 : 0;
}

int emit_corpus() {
    const size_t t = test_by_name(opt.only);
    for (unsigned i = 0; i < opt.emit_count; ++i) {
        Src s(case_seed(t, 1000000007ull + i));
        std::string message;
        run_case(tests()[t], s, message);
        std::string data;
        for (size_t k = 0; k < s.choices().size(); ++k) {
            for (int b = s.widths()[k] - 1; b >= 0; --b) {
                data += static_cast<char>(s.choices()[k] >> (8 * b));
            }
        }
        std::ofstream(opt.emit_corpus + "/seed" + std::to_string(i), std::ios::binary) << data;
    }
    return 0;
}

}

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        if (a == "--list") {
            for (const auto& t : tests()) {
                std::cout << t.name << ' ' << t.quick << ' ' << t.thorough << ' '
                          << (t.exhaustive ? "exhaustive" : t.fuzz ? "fuzz" : "random") << '\n';
            }
            return 0;
        }
        if (i + 1 >= argc) {
            std::fprintf(stderr, "bad option %s\n", argv[i]);
            return 3;
        }
        const std::string v = argv[++i];
        if (a == "--property") opt.property = v;
        else if (a == "--tier") opt.tier = v;
        else if (a == "--seed") opt.seed = std::stoull(v);
        else if (a == "--workers") opt.workers = static_cast<unsigned>(std::stoul(v));
        else if (a == "--budget") opt.budget = std::stod(v);
        else if (a == "--scale") opt.scale = std::stod(v);
        else if (a == "--hang") opt.hang = std::stod(v);
        else if (a == "--out") opt.out = v;
        else if (a == "--replay-out") opt.replay_out = v;
        else if (a == "--replay") opt.replay_in = v;
        else if (a == "--from-bytes") opt.from_bytes = v;
        else if (a == "--only") opt.only = v;
        else if (a == "--emit-corpus") opt.emit_corpus = v;
        else if (a == "--emit-count") opt.emit_count = static_cast<unsigned>(std::stoul(v));
        else if (a == "--known") {
            std::istringstream is(v);
            std::string tag;
            while (std::getline(is, tag, ',')) {
                g_known.insert(tag);
            }
        } else {
            std::fprintf(stderr, "bad option %s\n", a.c_str());
            return 3;
        }
    }
    if (!opt.replay_in.empty()) {
        return replay(opt.replay_in);
    }
    if (opt.replay_out.empty()) {
        opt.replay_out = "/tmp/" + opt.property + ".replay";
    }
    if (!opt.from_bytes.empty()) {
        return from_bytes(opt.from_bytes);
    }
    if (!opt.emit_corpus.empty()) {
        return emit_corpus();
    }
    char dir[] = "/tmp/pbt.XXXXXX";
    if (mkdtemp(dir) == nullptr) {
        std::perror("mkdtemp");
        return 3;
    }
    tmpdir = dir;
    const int rc = explore();
    for (unsigned i = 0; i < opt.workers; ++i) {
        unlink((tmpdir + "/stats" + std::to_string(i)).c_str());
        unlink((tmpdir + "/hash" + std::to_string(i)).c_str());
    }
    rmdir(dir);
    return rc;
}

#endif
