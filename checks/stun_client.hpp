// What the checks of the STUN client share: transactions with chosen ids,
// paths, responses built by the reference encoder, and drained effects.
#pragma once
#include "stun/stun_client_udp.hpp"
#include "stun_gen.hpp"

namespace ref {

using Client = st::ClientUDP;
using Settings = Client::Settings;
using Rtx = Settings::RetransmitDefault;
using Time = fw::clock::Timepoint;
using Dur = fw::clock::NativeDuration;

constexpr int64_t US = 1, MS = 1000, SEC = 1000 * MS;
inline Dur us(int64_t v) { return Dur(v); }

// What the settings are when nobody sets them (RFC 8489 6.2.1, 6.3.4, 10; RFC
// 8445 7.2.2 for the fingerprint), each of them written out.
inline Settings standard_settings() {
    Settings x;
    x.use_fingerprint = Settings::UseFingerprint{true};
    Rtx r;
    r.max_rto = fw::none();
    r.request_count = 7;
    r.retransmission_multiplier = 16;
    r.server_error_timeout = fw::none();
    r.server_error_max_retransmits = 4;
    x.retransmit = r;
    x.rto_settings.initial_rto = us(500 * MS);
    x.allow_unauthenticated_alternate = false;
    return x;
}

// The random device a transaction id is taken from.
struct Dev {
    using result_type = uint32_t;
    static constexpr uint32_t min() { return 0; }
    static constexpr uint32_t max() { return 0xffffffffu; }
    std::function<uint32_t()> f;
    uint32_t operator()() { return f(); }
};

inline fw::net::Path path(unsigned i) {
    auto a = [&](const char* p, unsigned n) {
        return fw::net::ip::Address::from_string(p + std::to_string(n)).unwrap();
    };
    if (i % 3 == 2) {
        return {a("fe80::", 1 + i), a("2001:db8::", 7)};
    }
    return {a("192.168.0.", 1 + i % 3), a("10.0.0.", 1 + i / 3)};
}

// The hash of all transaction ids is the same.
struct SameHash : fw::util::hash::dynamic::Algorithm<st::TransactionId> {
    size_t hash(const st::TransactionId&) const noexcept override { return 7; }
};
inline st::TransactionIdHash same_hash() {
    return st::TransactionIdHash::create<fw::util::hash::dynamic::AlgorithmSingleton<st::TransactionId, SameHash>>();
}

inline Client::Request make(fw::net::Path p, const std::optional<std::string>& password = {}, const std::string& user = "user") {
    Client::Request r{std::move(p), {}, {}};
    if (password) {
        r.maybe_auth = Client::Auth{fw::precis::OpaqueString(user), integrity(*password)};
    }
    return r;
}

inline Attr error_code(unsigned code, const std::string& reason = "") {
    Attr a{ERROR_CODE, {}};
    put(a.value, code / 100, 3);
    put(a.value, code % 100, 1);
    append(a.value, bytes(reason));
    return a;
}

// A response; the digest is right unless another password is used.
inline Bytes response(unsigned cls, const Bytes& tid, const std::vector<Attr>& attrs,
                      const std::optional<std::string>& password = {}, bool fingerprint = false) {
    Bytes b = encode(msg_type(cls, 1), tid, attrs);
    if (password) {
        add_integrity(b, bytes(*password));
    }
    if (fingerprint) {
        add_fingerprint(b);
    }
    return b;
}
inline Bytes success(const Bytes& tid, const std::optional<std::string>& password = {}) {
    return response(2, tid, {Attr{XOR_MAPPED, xor_mapped(Addr{{10, 1, 2, 3}, 4567}, tid)}}, password);
}

inline const char* name(const Client::Effect& e) {
    return std::visit(fw::util::overloaded {
        [](const Client::SendData&) { return "SendData"; },
        [](const Client::TransactionOk&) { return "TransactionOk"; },
        [](const Client::TransactionFailed&) { return "TransactionFailed"; },
        [](const Client::Sleep&) { return "Sleep"; },
        [](const Client::Idle&) { return "Idle"; },
    }, e);
}
inline std::string show(const Client::Effect& e) {
    std::ostringstream os;
    os << name(e);
    std::visit(fw::util::overloaded {
        [&](const Client::SendData& x) { os << " handle " << x.handle.value; },
        [&](const Client::TransactionOk& x) { os << " handle " << x.handle.value; },
        [&](const Client::TransactionFailed& x) { os << " handle " << x.handle.value << " reason " << x.reason.index(); },
        [&](const Client::Sleep& x) { os << " " << x.sleep.count() << "us"; },
        [&](const Client::Idle&) {},
    }, e);
    return os.str();
}
inline std::optional<unsigned> handle_of(const Client::Effect& e) {
    return std::visit(fw::util::overloaded {
        [](const Client::SendData& x) { return std::optional<unsigned>(x.handle.value); },
        [](const Client::TransactionOk& x) { return std::optional<unsigned>(x.handle.value); },
        [](const Client::TransactionFailed& x) { return std::optional<unsigned>(x.handle.value); },
        [](const auto&) { return std::optional<unsigned>(); },
    }, e);
}
inline bool is_terminal(const Client::Effect& e) {
    return std::holds_alternative<Client::TransactionOk>(e) || std::holds_alternative<Client::TransactionFailed>(e);
}
inline bool is_waiting(const Client::Effect& e) {
    return std::holds_alternative<Client::Sleep>(e) || std::holds_alternative<Client::Idle>(e);
}
template<typename R>
bool is_reason(const Client::TransactionFailed& f) { return std::holds_alternative<R>(f.reason); }

}
