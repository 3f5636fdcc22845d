#pragma once
extern "C" int et_sim_hart_id();
static inline int get_hart_id() { return et_sim_hart_id(); }
