// Simulated hardware-counter library, loaded by the code under test through DAISY_PAPI_PATH.
// All behaviour (simulated clock, counters, failures) lives in the harness executable.
extern "C" {
int simpapi_library_init(int);
int simpapi_create_eventset(int*);
int simpapi_cleanup_eventset(int);
int simpapi_destroy_eventset(int*);
int simpapi_add_named_event(int, const char*);
int simpapi_start(int);
int simpapi_stop(int, long long*);
int simpapi_reset(int);
int simpapi_read(int, long long*);
const char* simpapi_strerror(int);
long long simpapi_get_real_nsec(void);

int PAPI_library_init(int v) { return simpapi_library_init(v); }
int PAPI_create_eventset(int* e) { return simpapi_create_eventset(e); }
int PAPI_cleanup_eventset(int e) { return simpapi_cleanup_eventset(e); }
int PAPI_destroy_eventset(int* e) { return simpapi_destroy_eventset(e); }
int PAPI_add_named_event(int e, const char* n) { return simpapi_add_named_event(e, n); }
int PAPI_start(int e) { return simpapi_start(e); }
int PAPI_stop(int e, long long* v) { return simpapi_stop(e, v); }
int PAPI_reset(int e) { return simpapi_reset(e); }
#ifndef WITHOUT_READ
int PAPI_read(int e, long long* v) { return simpapi_read(e, v); }
#endif
const char* PAPI_strerror(int e) { return simpapi_strerror(e); }
long long PAPI_get_real_nsec(void) { return simpapi_get_real_nsec(); }
long long PAPI_get_real_usec(void) { return simpapi_get_real_nsec() / 1000; }
}
