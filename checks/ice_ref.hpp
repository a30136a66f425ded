// What is an address of an ICE candidate.
#pragma once
#include <arpa/inet.h>

#include <algorithm>
#include <cstring>
#include <string>
#include <vector>

namespace ref {

// Octets of an IP address, none if the text is not one.
inline std::vector<uint8_t> ip_of(const std::string& t) {
    unsigned char buf[16];
    if (t.find('\0') == std::string::npos) {
        if (inet_pton(AF_INET, t.c_str(), buf) == 1) {
            return {buf, buf + 4};
        }
        if (inet_pton(AF_INET6, t.c_str(), buf) == 1) {
            return {buf, buf + 16};
        }
    }
    return {};
}

inline bool label_ok(const std::string& l) {
    return !l.empty() && l.front() != '-' && l.back() != '-' && std::all_of(l.begin(), l.end(), [](char c) {
        return c != 0 && std::strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", c) != nullptr;
    });
}

inline bool fqdn_ok(std::string t) {
    if (!t.empty() && t.back() == '.') {
        t.pop_back();
    }
    if (t.empty()) {
        return false;
    }
    for (size_t at = 0;;) {
        const size_t dot = t.find('.', at);
        if (!label_ok(t.substr(at, dot == std::string::npos ? dot : dot - at))) {
            return false;
        }
        if (dot == std::string::npos) {
            return true;
        }
        at = dot + 1;
    }
}

}
