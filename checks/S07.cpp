// S07: what the parser counts.
#include "stun_gen.hpp"

using namespace ref;

PBT_RULE("histories of 1..20 messages, correct, malformed in one attribute, cut or changed, parsed with one statistics "
         "object: every message moves success or error by one, every refusal moves exactly one reason and the reason and "
         "the error name a fault found by an independent decoder; non-trivial: a refused message");

namespace {

using C = fw::stat::Counter;
using S = st::ParseStat;

struct Reason {
    const char* name;
    C S::*counter;
    std::vector<Fault> faults; // that it may stand for
};

const std::vector<Reason>& reasons() {
    static const std::vector<Reason> r{
        {"invalid_size", &S::invalid_size, {F_SIZE}},
        {"invalid_message_type", &S::invalid_message_type, {F_TYPE}},
        {"not_padded", &S::not_padded, {F_NOT_PADDED}},
        {"message_length_error", &S::message_length_error, {F_LENGTH}},
        {"magic_cookie_error", &S::magic_cookie_error, {F_COOKIE}},
        {"invalid_attr_size", &S::invalid_attr_size, {F_ATTR}},
        {"fingerprint_not_last", &S::fingerprint_not_last, {F_FP_NOT_LAST}},
        {"invalid_fingerprint", &S::invalid_fingerprint, {F_FP_INVALID}},
        {"invalid_fingerprint_size", &S::invalid_fingerprint_size, {F_FP_SIZE}},
        {"invalid_message_integrity", &S::invalid_message_integrity, {F_MI_SIZE}},
        {"invalid_mapped_address", &S::invalid_mapped_address, {F_MAPPED, F_FAMILY, F_ADDRESS}},
        {"invalid_xor_mapped_address", &S::invalid_xor_mapped_address, {F_XOR_MAPPED, F_FAMILY, F_ADDRESS}},
        {"invalid_ip_address", &S::invalid_ip_address, {F_FAMILY, F_ADDRESS}},
        {"invalid_priority_size", &S::invalid_priority_size, {F_PRIORITY}},
        {"invalid_ice_controlling_size", &S::invalid_ice_controlling_size, {F_CONTROLLING}},
        {"invalid_ice_controlled_size", &S::invalid_ice_controlled_size, {F_CONTROLLED}},
        {"invalid_use_candidate_size", &S::invalid_use_candidate_size, {F_USE_CANDIDATE}},
        {"invalid_error_code_size", &S::invalid_error_code_size, {F_ERROR_CODE}},
        {"invalid_unknown_attributes_attr_size", &S::invalid_unknown_attributes_attr_size, {F_UNKNOWN_ATTRS}},
    };
    return r;
}

// Faults an error code may stand for; empty: any.
std::vector<Fault> faults_of(const std::error_code& ec) {
    using E = st::ParseError;
    static const std::vector<std::pair<E, std::vector<Fault>>> t{
        {E::invalid_message_size, {F_SIZE}}, {E::not_padded_attributes, {F_NOT_PADDED}},
        {E::invalid_message_len, {F_LENGTH}}, {E::invalid_magic_cookie, {F_COOKIE}},
        {E::invalid_attr_size, {F_ATTR}}, {E::invalid_mapped_addr, {F_MAPPED, F_FAMILY, F_ADDRESS}},
        {E::invalid_xor_mapped_addr, {F_XOR_MAPPED, F_FAMILY, F_ADDRESS}},
        {E::invalid_ipv4_address_size, {F_ADDRESS}}, {E::invalid_ipv6_address_size, {F_ADDRESS}},
        {E::integrity_digest_size, {F_MI_SIZE}}, {E::fingerprint_crc_size, {F_FP_SIZE}},
        {E::fingerprint_is_not_last, {F_FP_NOT_LAST}}, {E::fingerprint_not_valid, {F_FP_INVALID}},
        {E::priority_attribute_size, {F_PRIORITY}}, {E::ice_controlled_size, {F_CONTROLLED}},
        {E::ice_controlling_size, {F_CONTROLLING}}, {E::use_candidate_size, {F_USE_CANDIDATE}},
        {E::error_code_attribute_size, {F_ERROR_CODE}},
        {E::unknown_attributes_attribute_size, {F_UNKNOWN_ATTRS}}, {E::unknown_addr_family, {F_FAMILY}},
        {E::invalid_message_type, {F_TYPE}}};
    for (const auto& [e, f] : t) {
        if (ec == make_error_code(e)) {
            return f;
        }
    }
    return {};
}

bool any(const Decoded& d, const std::vector<Fault>& l) {
    return std::any_of(l.begin(), l.end(), [&](Fault f) { return d.faults[f] || d.vague[f]; });
}

void step(pbt::Src& s, const Bytes& b, st::ParseStat& stat) {
    const Decoded d = decode(b);
    const st::ParseStat before = stat;
    const auto r = st::Message::parse(Exact(b).view(), stat);
    s.note("message ", pbt::hex(b), ": ", r.is_ok() ? "accepted" : r.unwrap_err().code().message());
    REQUIRE_EQ(stat.success.count() - before.success.count(), unsigned(r.is_ok()), "success counter after ", pbt::hex(b));
    REQUIRE_EQ(stat.error.count() - before.error.count(), unsigned(r.is_err()), "error counter after ", pbt::hex(b));
    unsigned n = 0;
    for (const auto& x : reasons()) {
        const unsigned delta = (stat.*x.counter).count() - (before.*x.counter).count();
        REQUIRE(delta == 0 || any(d, x.faults), x.name, " counted without that fault: ", pbt::hex(b));
        n += delta;
    }
    REQUIRE_EQ(n, unsigned(r.is_err()), "reasons counted for ", pbt::hex(b));
    if (r.is_err()) {
        const auto ec = r.unwrap_err().code();
        const auto f = faults_of(ec);
        REQUIRE(f.empty() || any(d, f), "error \"", ec.message(), "\" without that fault: ", pbt::hex(b));
        if (std::count(d.faults, d.faults + F_COUNT, true) == 1 && !d.is_vague() && !f.empty()) {
            // a single fault: the counter says what the error says
            s.label("single fault");
        }
        s.nontrivial();
    }
}

Bytes message(pbt::Src& s) {
    const Bytes tid = gen_tid(s, s.chance(1, 8));
    Bytes b = header(msg_type(tid.size() == 16 ? 0 : s.below(4), s.below(4096)), tid);
    for (auto n = s.len(5); n > 0; --n) {
        auto t = gen_type(s);
        if (t == FINGERPRINT && !s.chance(1, 10)) {
            t = s.one_of<uint16_t>({MAPPED, XOR_MAPPED, ALTERNATE, ERROR_CODE, PRIORITY});
        }
        Attr a = gen_good(s, t, tid);
        if (s.chance(1, 3)) {
            switch (s.below(3)) {
            case 0:
                a.value.resize(s.below(a.value.size() + 1));
                break;
            case 1:
                append(a.value, s.bytes(1 + s.below(5)));
                break;
            default:
                if (a.value.size() > 1) {
                    a.value[1] = static_cast<uint8_t>(s.below(4));
                }
            }
        }
        put_attr(b, a);
    }
    fix_len(b);
    if (s.chance(1, 4)) {
        add_integrity(b, {});
    }
    if (s.chance(1, 3)) {
        add_fingerprint(b);
        if (s.chance(1, 3)) {
            b.back() ^= static_cast<uint8_t>(s.u8());
        }
    }
    switch (s.below(8)) {
    case 0:
        b.resize(s.below(b.size() + 1));
        break;
    case 1:
        b[s.below(8)] ^= static_cast<uint8_t>(1u << s.below(8));
        break;
    case 2:
        b[s.below(b.size())] = s.u8();
        break;
    case 3:
        append(b, s.bytes(s.below(6)));
        break;
    default:
        break;
    }
    return b;
}

}

PBT_TEST(single, 500000, 10000000) {
    st::ParseStat stat;
    step(s, message(s), stat);
}

PBT_TEST(histories, 40000, 800000) {
    st::ParseStat stat;
    const auto n = 1 + s.len(19);
    for (size_t i = 0; i < n; ++i) {
        step(s, message(s), stat);
    }
    REQUIRE_EQ(stat.success.count() + stat.error.count(), unsigned(n), "messages counted");
}

// Counts go on for as long as messages come: n messages of a few kinds count as often as there are of them.
PBT_TEST(very_many, 60, 1500) {
    struct Kind {
        Bytes b;
        st::ParseStat once;
        size_t times;
    };
    std::vector<Kind> kinds(1 + s.below(3));
    st::ParseStat stat;
    size_t all = 0;
    for (auto& k : kinds) {
        k.b = message(s);
        k.times = s.flip() ? s.below(70000) : (size_t{1} << s.below(17)) + s.below(3);
        all += k.times;
        step(s, k.b, k.once);
        for (size_t i = 0; i < k.times; ++i) {
            st::Message::parse(Exact(k.b).view(), stat);
        }
    }
    s.note(all, " messages");
    auto expect = [&](const char* name, auto counter) {
        uint64_t want = 0;
        for (const auto& k : kinds) {
            want += k.times * (k.once.*counter).count();
        }
        REQUIRE_EQ(uint64_t((stat.*counter).count()), want, name, " after ", all, " messages");
    };
    expect("success", &st::ParseStat::success);
    expect("error", &st::ParseStat::error);
    for (const auto& x : reasons()) {
        expect(x.name, x.counter);
    }
    if (all > 256) {
        s.nontrivial();
    }
}

// Every attribute, each length 0..40, each family value: verdict is counted.
PBT_EXHAUSTIVE(value_sizes, 13 * 41) {
    const auto v = s.below(13 * 41);
    st::ParseStat stat;
    for (int fam = 0; fam < 4; ++fam) {
        Attr a{known_types()[v / 41], Bytes(v % 41, 0x22)};
        if (a.value.size() > 1) {
            a.value[1] = static_cast<uint8_t>(fam);
        }
        step(s, encode(0x0001, Bytes(12, 8), {a}), stat);
        step(s, encode(0x0111, Bytes(12, 8), {Attr{SOFTWARE, Bytes(3, 'x')}, a}), stat);
    }
}
