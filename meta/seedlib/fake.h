#pragma once
#include <daisy_rtl/daisy_rtl.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static void* fake_lib;
static void* fake(const char* n) {
    if (!fake_lib) fake_lib = dlopen(getenv("DAISY_PAPI_PATH"), RTLD_LAZY);
    void* p = fake_lib ? dlsym(fake_lib, n) : NULL;
    if (!p) { fprintf(stderr, "fake library lacks %s\n", n); exit(99); }
    return p;
}
#define FAKE_INT(n) (*(int*) fake(n))
#define FAKE_NOW (*(long long*) fake("fake_now"))
#define FAKE_CALL_INT(n) (((int (*)(void)) fake(n))())
static void set_counter(const char* n, long long v) { ((void (*)(const char*, long long)) fake("fake_set_counter"))(n, v); }
static __daisy_metadata_t md(const char* uuid) {
    __daisy_metadata_t m;
    memset(&m, 0, sizeof m);
    m.file_name = "/src/app.c";
    m.function_name = "main";
    m.line_begin = 1; m.line_end = 2; m.column_begin = 3; m.column_end = 4;
    m.region_uuid = uuid;
    return m;
}
