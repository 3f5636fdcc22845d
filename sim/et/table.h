#pragma once
#include <cstdint>
struct EtFn {
    const char* name;
    const char* spec;
    void (*call)(void** args);
    const char* error;
    int kernels;
};
struct EtKernel {
    const char* name;
    int64_t (*entry)(const void*);
    const char* fn;
};
extern const EtFn et_fns[];
extern const int et_fn_n;
extern const EtKernel et_kernels[];
extern const int et_kernel_n;
