#pragma once
#include <cstdint>
#define TRACE_TYPE_STRING 0
#define TRACE_TYPE_OTHER 7
struct trace_buffer_std_header_t {
    uint32_t magic;
    uint32_t data_size; // bytes used, this header included
};
struct trace_entry_header_t {
    uint64_t cycle;
    uint32_t payload_size;
    uint16_t hart_id;
    uint16_t type;
};
struct trace_string_t {
    trace_entry_header_t header;
    char string[1];
};
