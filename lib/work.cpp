#include "work.hpp"
#include <sanitizer/allocator_interface.h>

namespace {
thread_local bool on = false;
work::Count count;

void allocated(const volatile void*, size_t n) {
    if (on) {
        count.allocated += n;
    }
}
void freed(const volatile void*) {}
}

extern "C" {
// Inserted by -fsanitize-coverage=trace-pc.
void __sanitizer_cov_trace_pc() {
    if (on) {
        ++count.branches;
    }
}

// Put in the place of the functions they are named after by --wrap.
#define WORK_WRAP(name)                                          \
    void* __real_##name(void*, const void*, size_t);             \
    void* __wrap_##name(void* d, const void* s, size_t n) {      \
        if (on) {                                                \
            count.moved += n;                                    \
        }                                                        \
        return __real_##name(d, s, n);                           \
    }
WORK_WRAP(memcpy)
WORK_WRAP(memmove)
WORK_WRAP(__asan_memcpy)
WORK_WRAP(__asan_memmove)
}

namespace work {

void start() {
    static const int hooks = __sanitizer_install_malloc_and_free_hooks(allocated, freed);
    (void)hooks;
    count = {};
    on = true;
}

Count stop() {
    on = false;
    return count;
}

uint64_t live() {
    return __sanitizer_get_current_allocated_bytes();
}

}
