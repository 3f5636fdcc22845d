// the instrumented capture library is linked into the generator, which does not run in the simulation
#include <cstdint>
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t*) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
#define L(n) \
    void __sanitizer_cov_load##n(void*) {} \
    void __sanitizer_cov_store##n(void*) {}
L(1) L(2) L(4) L(8) L(16)
}
