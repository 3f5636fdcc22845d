#pragma once
#include "et-trace/layout.h"
// walks the entries of a trace buffer
static inline const trace_entry_header_t* Trace_Decode(const trace_buffer_std_header_t* tb, const trace_entry_header_t* prev) {
    if (tb->magic != 0x76543210) return nullptr;
    const char* base = reinterpret_cast<const char*>(tb);
    const char* p = prev ? reinterpret_cast<const char*>(prev) + sizeof(trace_entry_header_t) + prev->payload_size : base + sizeof(*tb);
    if (p + sizeof(trace_entry_header_t) > base + tb->data_size) return nullptr;
    return reinterpret_cast<const trace_entry_header_t*>(p);
}
