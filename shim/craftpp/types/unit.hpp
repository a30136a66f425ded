// Offline stand-in for craftpp (see /verif/DESIGN.md, "craftpp stand-in").
#pragma once

namespace craftpp::types {

struct Unit {
    static constexpr Unit create() noexcept { return Unit{}; }
    constexpr bool operator==(const Unit&) const noexcept = default;
};

}
