// A small stand-in for the PAPI library. The demonstration controls it through the fake_* functions.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXSETS 4096
static struct { int used, running, n; char ev[16][64]; } sets[MAXSETS];
static int n_sets;
long long fake_now = 1000000;
int fake_version_reply;      // what library_init answers instead of the requested version
int fake_fail_cleanup;       // 1: cleanup of an event set fails
static struct { char name[64]; long long v; } counters[64];
static int n_counters;
int fake_live_sets(void) {
    int k = 0;
    for (int i = 0; i < n_sets; i++) k += sets[i].used;
    return k;
}
int fake_idle_sets(void) {
    int k = 0;
    for (int i = 0; i < n_sets; i++) k += sets[i].used && !sets[i].running;
    return k;
}
const char* fake_events_of(int set, int i) { return i < sets[set].n ? sets[set].ev[i] : NULL; }
int fake_last_set(void) { return n_sets - 1; }
void fake_set_counter(const char* name, long long v) {
    for (int i = 0; i < n_counters; i++)
        if (!strcmp(counters[i].name, name)) { counters[i].v = v; return; }
    strcpy(counters[n_counters].name, name);
    counters[n_counters++].v = v;
}
static long long value(const char* name) {
    for (int i = 0; i < n_counters; i++)
        if (!strcmp(counters[i].name, name)) return counters[i].v;
    return 0;
}
int PAPI_library_init(int v) { return fake_version_reply ? fake_version_reply : v; }
int PAPI_create_eventset(int* e) {
    memset(&sets[n_sets], 0, sizeof sets[0]);
    sets[n_sets].used = 1;
    *e = n_sets++;
    return 0;
}
int PAPI_cleanup_eventset(int e) {
    if (fake_fail_cleanup) return -1;
    return 0;
}
int PAPI_destroy_eventset(int* e) { sets[*e].used = 0; *e = -1; return 0; }
int PAPI_add_named_event(int e, const char* n) { strcpy(sets[e].ev[sets[e].n++], n); return 0; }
int PAPI_start(int e) { sets[e].running = 1; return 0; }
int PAPI_read(int e, long long* v) {
    for (int i = 0; i < sets[e].n; i++) v[i] = value(sets[e].ev[i]);
    return 0;
}
int PAPI_stop(int e, long long* v) { PAPI_read(e, v); sets[e].running = 0; return 0; }
int PAPI_reset(int e) { return 0; }
const char* PAPI_strerror(int e) { return "fake error"; }
long long PAPI_get_real_nsec(void) { return fake_now; }
