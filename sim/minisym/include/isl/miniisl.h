// Stand-in for the integer set library (not available here). Two implementations: the one in minisym.cpp cannot read any
// set, so every question gets the conservative answer of the code under test; isl_z3.cpp answers exactly for affine sets.
#pragma once
struct isl_ctx {};
struct isl_map;
struct isl_set;
struct isl_space {};
enum isl_dim_type { isl_dim_cst, isl_dim_param, isl_dim_in, isl_dim_out, isl_dim_set = isl_dim_out, isl_dim_div, isl_dim_all };
enum isl_bool { isl_bool_error = -1, isl_bool_false = 0, isl_bool_true = 1 };
#define ISL_ON_ERROR_WARN 0
#define ISL_ON_ERROR_CONTINUE 1
#define ISL_ON_ERROR_ABORT 2
inline isl_ctx* isl_ctx_alloc() { return new isl_ctx; }
inline void isl_ctx_free(isl_ctx* c) { delete c; }
inline int isl_options_set_on_error(isl_ctx*, int) { return 0; }
isl_map* isl_map_read_from_str(isl_ctx*, const char*);
isl_map* isl_map_free(isl_map*);
isl_set* isl_set_free(isl_set*);
isl_map* isl_map_copy(isl_map*);
isl_map* isl_map_align_params(isl_map*, isl_space*);
isl_map* isl_map_project_out(isl_map*, isl_dim_type, unsigned first, unsigned n);
isl_map* isl_map_apply_domain(isl_map*, isl_map*);
isl_map* isl_map_intersect(isl_map*, isl_map*);
isl_map* isl_map_set_dim_name(isl_map*, isl_dim_type, unsigned, const char*);
isl_set* isl_map_range(isl_map*);
isl_space* isl_map_get_space(isl_map*);
int isl_map_dim(isl_map*, isl_dim_type);
isl_bool isl_map_is_empty(isl_map*);
isl_bool isl_set_is_subset(isl_set*, isl_set*);
isl_bool isl_set_is_disjoint(isl_set*, isl_set*);
// spaces only carry parameters, which are matched by name
isl_space* isl_space_free(isl_space*);
isl_space* isl_space_params(isl_space*);
isl_space* isl_space_copy(isl_space*);
isl_space* isl_space_align_params(isl_space*, isl_space*);
