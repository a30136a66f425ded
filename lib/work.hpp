// Counts what a call does: branches taken in instrumented code, octets
// allocated, octets moved by memcpy and memmove. The same call always counts
// the same, however busy the machine is.
#pragma once
#include <cstddef>
#include <cstdint>

namespace work {

struct Count {
    uint64_t branches = 0;
    uint64_t allocated = 0;
    uint64_t moved = 0;
};

// While a meter exists everything on this thread counts.
void start();
Count stop();

template<typename F>
Count of(F&& f) {
    start();
    f();
    return stop();
}

// Octets in use on the heap.
uint64_t live();

}
