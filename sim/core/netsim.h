// Simulated TCP network with one scripted HTTP server, behind the system calls of the session's main thread.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace net {

enum Connect { CONN_OK = 0, CONN_REFUSED, CONN_BLACKHOLE, CONN_UNREACH };
enum End { END_KEEP = 0, END_CLOSE, END_RESET, END_STALL };
enum NOp { N_SOCKET = 0, N_CONNECT, N_SEND, N_RECV, N_POLL, N_OP_COUNT };

struct Seg {
    uint64_t delay; // after the previous one
    size_t len; // bytes of the response
};
struct Response {
    std::string bytes; // what is sent (possibly cut off)
    std::vector<Seg> segs; // how; the rest follows in one piece
    uint64_t delay = 0; // before the first byte
    int end = END_KEEP;
    uint64_t end_delay = 0;
    bool early = false; // sent after the request headers, without waiting for the body
    bool send100 = true; // answers "Expect: 100-continue"
    // results
    int request = -1; // index of the request that was answered
    size_t delivered = 0; // bytes the client has read
    bool ended = false; // the end event reached the client
};
struct ConnPlan {
    int connect = CONN_OK;
    uint64_t delay = 1000000;
    int64_t reset_after = -1; // server resets after this many received bytes
    int64_t stall_after = -1; // server stops reading after this many received bytes
    size_t window = 65536;
    uint64_t latency = 100000; // per transmission
    uint64_t idle_close = 0; // server closes the idle connection this long after a response (0: never)
};
struct NetFault {
    int op;
    int nth; // 1-based
    int err; // errno, or 0: transfer at most limit bytes
    size_t limit;
    int fired = 0;
};
struct Request {
    int conn;
    std::string head; // up to and including the empty line
    std::string body;
    bool complete = false;
    uint64_t at = 0; // time of completion
    int call = 0; // value of current_call when its first byte was sent
};

extern std::vector<ConnPlan> conns;
extern std::vector<Response> resps;
extern std::vector<NetFault> faults;
extern std::vector<Request> requests; // in order of their first byte
extern void (*respond)(int ri, const Request& q); // may fill in resps[ri].bytes once the request is known
extern int current_call; // set by the harness
extern int n_conns; // connection attempts so far
extern uint64_t part_from, part_to; // network partition: nothing is delivered in this period
extern uint64_t time_cap; // simulated time without progress after which a call is given up as hanging
extern uint64_t call_start;
extern uint64_t last_progress; // time of the last event that changed anything for the client
extern int n_strange; // sockets to somewhere else
extern std::vector<std::pair<std::string, int>> targets; // address, port of every connection attempt

void install();
} // namespace net
