#pragma once
extern "C" void et_sim_printf(const char* fmt, ...);
#define et_printf(...) et_sim_printf(__VA_ARGS__)
