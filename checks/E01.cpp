// E01: error codes are told apart by category, value and message.
#include <openssl/err.h>
#include <cctype>
#include <map>
#include <set>
#include <string>

#include "crypto/openssl/openssl_error.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "net/net_error.hpp"
#include "rtp/rtp_error.hpp"
#include "stun/stun_error.hpp"
#include "node/node_stun/node_stun_error.hpp"
#include "node/openssl/node_openssl_error.hpp"
#include "pbt.hpp"

using namespace freewebrtc;

PBT_RULE("every enumerator of every error enumeration, exhaustively in pairs, and boundary-biased integers that are no "
         "enumerator; non-trivial: a pair of different codes, or an integer outside the enumeration");

namespace {

struct Code {
    std::string family;
    int value;
    std::error_code code;
    std::vector<std::string> words; // the message must speak of these
};

struct Family {
    std::string name;
    std::vector<Code> codes;
    std::function<std::error_code(int)> make;
    const std::error_category* category;
};

template<typename E>
struct Item { E e; std::vector<std::string> words; };

template<typename E>
Family family(const std::string& name, std::vector<Item<E>> items) {
    Family f;
    f.name = name;
    f.make = [](int v) { return make_error_code(static_cast<E>(v)); };
    for (auto& i : items) {
        f.codes.push_back({name, static_cast<int>(i.e), make_error_code(i.e), i.words});
    }
    f.category = &f.codes[0].code.category();
    return f;
}

const std::vector<Family>& families() {
    static const std::vector<Family> all = [] {
        std::vector<Family> r;
        {
            using E = stun::ParseError;
            r.push_back(family<E>("stun parse", {
                {E::ok, {"success"}},
                {E::invalid_message_size, {"message", "size"}},
                {E::not_padded_attributes, {"pad"}},
                {E::invalid_message_len, {"message", "len"}},
                {E::invalid_magic_cookie, {"magic", "cookie"}},
                {E::invalid_attr_size, {"attr", "size"}},
                {E::invalid_mapped_addr, {"mapped", "addr"}},
                {E::invalid_xor_mapped_addr, {"xor", "mapped", "addr"}},
                {E::invalid_ipv4_address_size, {"ipv4", "size"}},
                {E::invalid_ipv6_address_size, {"ipv6", "size"}},
                {E::integrity_digest_size, {"digest", "size"}},
                {E::fingerprint_crc_size, {"fingerprint", "size"}},
                {E::fingerprint_is_not_last, {"fingerprint", "last"}},
                {E::fingerprint_not_valid, {"fingerprint", "valid"}},
                {E::priority_attribute_size, {"priority", "size"}},
                {E::ice_controlled_size, {"controlled", "size"}},
                {E::ice_controlling_size, {"controlling", "size"}},
                {E::use_candidate_size, {"use", "candidate", "size"}},
                {E::error_code_attribute_size, {"error", "code", "size"}},
                {E::unknown_attributes_attribute_size, {"unknown", "attributes", "size"}},
                {E::unknown_addr_family, {"family"}},
                {E::invalid_message_type, {"message", "type"}},
            }));
        }
        {
            using E = stun::ClientError;
            r.push_back(family<E>("stun client", {
                {E::ok, {"success"}},
                {E::no_integrity_attribute_in_response, {"integrity"}},
                {E::digest_is_not_valid, {"digest", "valid"}},
                {E::transaction_not_found, {"transaction", "found"}},
                {E::no_address_in_response, {"no", "address"}},
                {E::no_error_code_in_response, {"no", "error", "code"}},
                {E::no_alternate_server_in_response, {"no", "alternate", "server"}},
            }));
        }
        {
            using E = net::Error;
            r.push_back(family<E>("net", {
                {E::ok, {"success"}},
                {E::invalid_address_size, {"address", "size"}},
                {E::ip_address_parse_error, {"parse", "ip"}},
                {E::fqdn_invalid_label_expect_letter, {"fqdn", "label"}},
                {E::fqdn_not_fully_parsed, {"fqdn", "parsed"}},
                {E::invalid_port_value, {"port"}},
            }));
        }
        {
            using E = rtp::Error;
            r.push_back(family<E>("rtp", {
                {E::ok, {"success"}},
                {E::packet_is_too_short, {"short"}},
                {E::unknown_packet_version, {"version"}},
                {E::invalid_payload_type, {"payload", "type"}},
                {E::unknown_rtp_clock, {"clock"}},
                {E::invalid_extension_length, {"extension"}},
                {E::invalid_packet_padding, {"padding"}},
            }));
        }
        {
            using E = ice::candidate::Error;
            r.push_back(family<E>("ice candidate", {
                {E::ok, {"success"}},
                {E::invalid_attr_prefix, {"prefix"}},
                {E::invalid_candidate_parts_number, {"number"}},
                {E::candidate_type_absent, {"type", "absent"}},
                {E::unknown_candidate_type, {"type", "unknown"}},
                {E::invalid_foundation_length, {"foundation", "length"}},
                {E::invalid_foundation_char, {"foundation", "char"}},
                {E::invalid_component_id_length, {"component", "length"}},
                {E::invalid_component_id_char, {"component", "char"}},
                {E::invalid_component_id_value, {"component", "value"}},
                {E::unknown_transport_type, {"transport"}},
                {E::invalid_priority_length, {"priority", "length"}},
                {E::invalid_priority_value, {"priority", "value"}},
                {E::invalid_type_preference_value, {"type", "preference"}},
                {E::invalid_component_preference_value, {"component", "preference"}},
                {E::invalid_local_preference_value, {"local", "preference"}},
            }));
        }
        {
            using E = node_stun::Error;
            r.push_back(family<E>("node stun", {
                {E::ok, {"success"}},
                {E::unknown_stun_method, {"method"}},
                {E::unknown_stun_class, {"class"}},
                {E::invalid_ip_address, {"ip", "address"}},
                {E::invalid_port_number, {"port"}},
            }));
        }
        return r;
    }();
    return all;
}

std::string lower(std::string t) {
    for (auto& c : t) {
        c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    }
    return t;
}

size_t total() {
    size_t n = 0;
    for (const auto& f : families()) {
        n += f.codes.size();
    }
    return n;
}

const Code& nth(size_t i) {
    for (const auto& f : families()) {
        if (i < f.codes.size()) {
            return f.codes[i];
        }
        i -= f.codes.size();
    }
    pbt::fail("harness");
}

}

PBT_EXHAUSTIVE(pairs, 64 * 64) {
    const auto k = s.below(64 * 64);
    const size_t n = total();
    if (n > 64) {
        pbt::fail("harness: more than 64 codes");
    }
    if (k / 64 >= n || k % 64 >= n) {
        return;
    }
    const Code& a = nth(k / 64);
    const Code& b = nth(k % 64);
    s.note(a.family, "/", a.value, " and ", b.family, "/", b.value);
    REQUIRE_EQ(a.code.value(), a.value, "value of the code");
    REQUIRE_EQ(static_cast<bool>(a.code), a.value != 0, "only ok is no error: ", a.family, " ", a.value);
    const bool same_family = a.family == b.family;
    const bool same = same_family && a.value == b.value;
    REQUIRE_EQ(a.code == b.code, same, "equality of ", a.code.message(), " and ", b.code.message());
    REQUIRE_EQ(&a.code.category() == &b.code.category(), same_family, "categories of ", a.family, " and ", b.family);
    REQUIRE_EQ(std::string(a.code.category().name()) == b.code.category().name(), same_family, "names of the categories of ",
               a.family, " and ", b.family, ": ", a.code.category().name());
    if (same_family) {
        REQUIRE_EQ(a.code.message() == b.code.message(), same, "messages of ", a.family, " ", a.value, " and ", b.value,
                   ": ", a.code.message());
    }
    const std::string m = lower(a.code.message());
    for (const auto& w : a.words) {
        REQUIRE(m.find(w) != std::string::npos, "the message of ", a.family, " error ", a.value, " does not speak of ", w,
                ": ", a.code.message());
    }
    if (a.value != 0) {
        REQUIRE(m != "success", "an error with the message ", m);
    }
    if (!same) {
        s.nontrivial(k);
    }
}

PBT_TEST(outside, 60000, 600000) {
    const Family& f = s.pick(families());
    const int v = static_cast<int>(s.edge(32)) * (s.flip() ? 1 : -1);
    for (const auto& c : f.codes) {
        if (c.value == v) {
            return;
        }
    }
    const auto code = f.make(v);
    const std::string m = code.message();
    s.note(f.name, " ", v, ": ", m);
    REQUIRE_EQ(code.value(), v, "value");
    REQUIRE(&code.category() == f.category, "category");
    REQUIRE(!m.empty(), "no message for ", v);
    for (const auto& c : f.codes) {
        REQUIRE(m != c.code.message(), f.name, " ", v, " has the message of ", c.value, ": ", m);
    }
    REQUIRE(lower(m).find("unknown") != std::string::npos, f.name, " ", v, ": ", m);
    for (const auto& g : families()) {
        if (&g != &f) {
            REQUIRE(g.make(v) != code, "codes of ", f.name, " and ", g.name, " are equal");
            REQUIRE(g.make(v).message() != m, f.name, " and ", g.name, " share the message ", m);
        }
    }
    s.nontrivial(pbt::mix(static_cast<uint64_t>(v)) ^ pbt::hash_bytes(f.name.data(), f.name.size()));
}

PBT_TEST(categories, 10, 10) {
    REQUIRE(&stun::stun_parse_error_category() == families()[0].category, "stun parse category");
    REQUIRE(&stun::stun_client_error_category() == families()[1].category, "stun client category");
    REQUIRE(&net::net_error_category() == families()[2].category, "net category");
    REQUIRE(&rtp::rtp_error_category() == families()[3].category, "rtp category");
    REQUIRE(&ice::candidate::ice_error_category() == families()[4].category, "ice category");
    const char* words[] = {"stun", "stun", "net", "rtp", "ice", "stun"};
    for (size_t i = 0; i < 6; ++i) {
        REQUIRE(lower(families()[i].category->name()).find(words[i]) != std::string::npos, "name of the ",
                families()[i].name, " category: ", families()[i].category->name());
    }
    s.nontrivial();
}

PBT_TEST(openssl, 30000, 300000) {
    const int v = static_cast<int>(s.edge(32));
    char buf[256];
    ERR_error_string_n(static_cast<unsigned long>(v), buf, sizeof buf);
    const auto a = crypto::openssl::make_error_code(v);
    const auto b = crypto::node_openssl::make_error_code(v);
    s.note("openssl ", v, ": ", buf);
    REQUIRE_EQ(a.value(), v, "value");
    REQUIRE_EQ(b.value(), v, "value");
    REQUIRE_EQ(a.message(), std::string(buf), "message");
    REQUIRE_EQ(b.message(), std::string(buf), "message");
    REQUIRE(lower(a.category().name()).find("openssl") != std::string::npos, "category name");
    REQUIRE(lower(b.category().name()).find("openssl") != std::string::npos, "category name");
    const int w = s.flip() ? v : static_cast<int>(s.edge(32));
    REQUIRE_EQ(a == crypto::openssl::make_error_code(w), v == w, "equality");
    REQUIRE_EQ(b == crypto::node_openssl::make_error_code(w), v == w, "equality");
    for (const auto& f : families()) {
        REQUIRE(a != f.make(v), "equal to a ", f.name, " code");
    }
    s.nontrivial(static_cast<uint64_t>(v));
}
