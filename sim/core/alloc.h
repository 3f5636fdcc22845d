#pragma once
#include <cstdint>
namespace sim {
void heap_reserve(); // once, in the parent
void heap_begin(bool reuse); // in the session's process
void heap_end();
uint64_t heap_allocs();
} // namespace sim
