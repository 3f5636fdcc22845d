#include "netsim.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <netinet/in.h>
#include <poll.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>

#include "sim.h"

namespace net {

std::vector<ConnPlan> conns;
std::vector<Response> resps;
void (*respond)(int ri, const Request& q) = nullptr;
std::vector<NetFault> faults;
std::vector<Request> requests;
std::vector<std::pair<std::string, int>> targets;
int n_conns = 0;
int current_call = 0;
uint64_t part_from = 0, part_to = 0;
uint64_t time_cap = UINT64_MAX, call_start = 0;
uint64_t last_progress = 0;
int n_strange = 0;

namespace {

struct Sock {
    bool stream = false;
    int family = 0;
    int conn = -1; // index of the connection
    bool connecting = false, connected = false, closed = false;
    int so_error = 0;
    std::string rx; // readable bytes
    std::vector<std::pair<int, size_t>> rx_src; // which response they belong to
    bool rx_eof = false, rx_reset = false;
    size_t inflight = 0;
    sockaddr_storage peer{};
    socklen_t peerlen = 0;
    // server side
    std::string in; // unparsed bytes of the client
    int64_t received = 0;
    int cur_req = -1;
    bool answered_early = false;
    bool dead = false; // server side is gone
    bool stalled = false;
    int call = 0; // of the bytes that arrived last
    std::vector<int> answered;
};
Sock* socks[1024];
std::vector<Sock*> by_conn;
int n_resp = 0;
int op_seen[N_OP_COUNT];

enum EvKind { E_CONNECTED, E_REFUSED, E_UNREACH, E_ARRIVE, E_DATA, E_END };
struct Ev {
    int kind;
    Sock* s;
    std::string data;
    int resp = -1;
    int end = 0;
    int call = 0;
    bool idle = false; // close of a connection that has been idle for long
};
std::multimap<uint64_t, Ev> events; // insertion order is kept for equal times

void schedule(uint64_t t, Ev e) {
    if (t >= part_from && t < part_to) t = part_to;
    events.emplace(t, std::move(e));
}

NetFault* fault(int op) {
    int n = ++op_seen[op];
    for (auto& f : faults)
        if (f.op == op && f.nth == n) {
            f.fired++;
            sim::log_u64(0xfa0000 + op * 1000 + f.err);
            return &f;
        }
    return nullptr;
}

const ConnPlan& plan_of(const Sock* s) {
    static ConnPlan dflt;
    if (s->conn >= 0 && s->conn < (int) conns.size()) return conns[s->conn];
    if (!conns.empty()) return conns.back();
    return dflt;
}

bool ieq(const char* a, const char* b, size_t n) { return strncasecmp(a, b, n) == 0; }

// value of a header, case-insensitive; empty if absent
std::string header(const std::string& head, const char* name) {
    size_t l = strlen(name);
    size_t p = head.find("\r\n");
    while (p != std::string::npos && p + 2 < head.size()) {
        p += 2;
        size_t e = head.find("\r\n", p);
        if (e == std::string::npos) break;
        if (e - p > l && ieq(head.c_str() + p, name, l) && head[p + l] == ':') {
            size_t v = p + l + 1;
            while (v < e && (head[v] == ' ' || head[v] == '\t')) v++;
            return head.substr(v, e - v);
        }
        p = e;
    }
    return "";
}

void answer(Sock* s, int req) {
    if (n_resp >= (int) resps.size()) {
        s->stalled = true; // the script has no more answers
        return;
    }
    int ri = n_resp++;
    Response& r = resps[ri];
    r.request = req;
    if (respond) respond(ri, requests[req]);
    s->answered.push_back(ri);
    uint64_t t = sim::now() + r.delay + plan_of(s).latency;
    size_t pos = 0;
    for (auto& g : r.segs) {
        if (pos >= r.bytes.size()) break;
        t += g.delay;
        size_t n = std::min(g.len ? g.len : 1, r.bytes.size() - pos);
        schedule(t, {E_DATA, s, r.bytes.substr(pos, n), ri});
        pos += n;
    }
    if (pos < r.bytes.size()) schedule(t, {E_DATA, s, r.bytes.substr(pos), ri});
    if (r.end != END_KEEP) s->stalled = true; // no request is read after the last answer
    if (r.end == END_STALL) return;
    if (r.end != END_KEEP) schedule(t + r.end_delay, {E_END, s, "", ri, r.end});
    else if (plan_of(s).idle_close) schedule(t + plan_of(s).idle_close, {E_END, s, "", ri, END_CLOSE, 0, true});
}

// the server looks at what it has received
// a call that connects or asks again and again makes no progress, however lively it looks
int attempts_of = -1, n_attempts = 0;
void count_attempt() {
    if (attempts_of != current_call) attempts_of = current_call, n_attempts = 0;
    if (++n_attempts > 60) sim::die(sim::V_STEPCAP, "connected and asked %ld times without ending", n_attempts);
}

void serve(Sock* s) {
    for (;;) {
        if (s->stalled || s->dead) return;
        if (s->cur_req < 0) {
            if (s->in.empty()) return;
            count_attempt();
            requests.push_back(Request());
            s->cur_req = (int) requests.size() - 1;
            requests.back().conn = s->conn;
            requests.back().call = s->call;
        }
        Request& q = requests[s->cur_req];
        if (q.head.empty()) {
            size_t e = s->in.find("\r\n\r\n");
            if (e == std::string::npos) return;
            q.head = s->in.substr(0, e + 4);
            s->in.erase(0, e + 4);
            s->answered_early = false;
            if (n_resp < (int) resps.size() && resps[n_resp].early) {
                s->answered_early = true;
                answer(s, s->cur_req);
            } else if (header(q.head, "Expect") == "100-continue" && n_resp < (int) resps.size() && resps[n_resp].send100) {
                schedule(sim::now() + plan_of(s).latency, {E_DATA, s, "HTTP/1.1 100 Continue\r\n\r\n", -1});
            }
        }
        std::string te = header(q.head, "Transfer-Encoding");
        if (te == "chunked") {
            // the body is recorded undecoded up to the terminating chunk
            q.body += s->in;
            s->in.clear();
            if (q.body.size() < 5 || q.body.compare(q.body.size() - 5, 5, "0\r\n\r\n") != 0) return;
        } else {
            size_t want = strtoull(header(q.head, "Content-Length").c_str(), nullptr, 10);
            size_t need = want - q.body.size();
            size_t n = std::min(need, s->in.size());
            q.body.append(s->in, 0, n);
            s->in.erase(0, n);
            if (q.body.size() < want) return;
        }
        q.complete = true;
        q.at = sim::now();
        int req = s->cur_req;
        s->cur_req = -1;
        if (!s->answered_early) answer(s, req);
    }
}

uint64_t next_event() { return events.empty() ? UINT64_MAX : events.begin()->first; }

void run_event() {
    auto it = events.begin();
    Ev e = std::move(it->second);
    events.erase(it);
    Sock* s = e.s;
    if (s->closed && e.kind != E_ARRIVE) return;
    sim::log_u64(0xe0000 + e.kind * 16 + (uint64_t) s->conn);
    switch (e.kind) {
        case E_CONNECTED:
            s->connecting = false;
            s->connected = true;
            last_progress = sim::now();
            break;
        case E_REFUSED:
        case E_UNREACH:
            s->connecting = false;
            s->so_error = e.kind == E_REFUSED ? ECONNREFUSED : EHOSTUNREACH;
            last_progress = sim::now();
            break;
        case E_ARRIVE: {
            const ConnPlan& p = plan_of(s);
            if (s->dead || s->stalled) {
                if (s->dead && !s->closed) s->rx_reset = true; // data to a closed peer
                break;
            }
            if (p.stall_after >= 0 && s->received + (int64_t) e.data.size() > p.stall_after) {
                s->stalled = true; // the rest stays in flight for ever
                break;
            }
            s->inflight -= std::min(s->inflight, e.data.size());
            s->received += (int64_t) e.data.size();
            last_progress = sim::now();
            if (p.reset_after >= 0 && s->received > p.reset_after) {
                s->dead = true;
                schedule(sim::now() + p.latency, {E_END, s, "", -1, END_RESET});
                break;
            }
            s->in += e.data;
            s->call = e.call;
            serve(s);
            break;
        }
        case E_DATA:
            if (s->rx_eof || s->rx_reset) break;
            s->rx += e.data;
            s->rx_src.push_back({e.resp, e.data.size()});
            last_progress = sim::now();
            break;
        case E_END:
            if (e.idle && s->answered.back() != e.resp) break; // no longer idle: the next answer is on its way
            s->dead = true;
            last_progress = sim::now();
            for (int i : s->answered) resps[i].ended = true;
            if (e.end == END_RESET) s->rx_reset = true;
            else s->rx_eof = true;
            break;
    }
}

Sock* get(long fd) { return fd >= 0 && fd < 1024 ? socks[fd] : nullptr; }

short ready(Sock* s, short want) {
    short r = 0;
    if (!s->stream) return 0;
    if (s->so_error || s->rx_reset) return (short) (POLLERR | POLLHUP | (want & (POLLIN | POLLOUT)));
    if (s->connecting) return 0;
    if (!s->connected) return (short) (POLLHUP | (want & POLLOUT));
    if ((want & POLLIN) && (!s->rx.empty() || s->rx_eof)) r |= POLLIN;
    if (s->rx_eof && (want & POLLRDHUP)) r |= POLLRDHUP;
    if ((want & POLLOUT) && s->inflight < plan_of(s).window) r |= POLLOUT;
    if ((want & POLLWRNORM) && s->inflight < plan_of(s).window) r |= POLLWRNORM;
    if ((want & POLLRDNORM) && (!s->rx.empty() || s->rx_eof)) r |= POLLRDNORM;
    return r;
}

struct PollArg {
    pollfd* f;
    unsigned long n;
};
int scan(void* a) {
    PollArg* p = (PollArg*) a;
    int c = 0;
    for (unsigned long i = 0; i < p->n; i++) {
        p->f[i].revents = 0;
        Sock* s = get(p->f[i].fd);
        if (s) p->f[i].revents = ready(s, p->f[i].events);
        else if (p->f[i].fd >= 0) {
            pollfd x = p->f[i];
            x.revents = 0;
            struct timespec z = {0, 0};
            sim::raw(SYS_ppoll, (long) &x, 1, (long) &z, 0);
            p->f[i].revents = x.revents;
        }
        if (p->f[i].revents) c++;
    }
    return c;
}
bool scan_pred(void* a) { return scan(a) > 0; }

// everything that is due by now happens
void settle() {
    sim::advance(1000);
    while (next_event() <= sim::now()) run_event();
    uint64_t idle = sim::now() - std::max(last_progress, call_start);
    if (idle > time_cap) sim::die(sim::V_STEPCAP, "still waiting %ld s after the last progress", (long) (idle / 1000000000ull));
}

long do_poll(pollfd* f, unsigned long n, int64_t timeout_ns) {
    settle();
    if (NetFault* x = fault(N_POLL)) {
        if (x->err) return -x->err;
    }
    PollArg a{f, n};
    int c = scan(&a);
    if (c || timeout_ns == 0) return c;
    uint64_t dl = timeout_ns < 0 ? 0 : sim::now() + (uint64_t) timeout_ns;
    sim::block_until(scan_pred, &a, dl);
    settle();
    return scan(&a);
}

long do_send(Sock* s, const char* p, size_t n) {
    settle();
    NetFault* x = fault(N_SEND);
    if (x && x->err) {
        if (x->err == ECONNRESET || x->err == EPIPE) s->rx_reset = true;
        return -x->err;
    }
    if (s->so_error) {
        int e = s->so_error;
        s->so_error = 0;
        return -e;
    }
    if (s->rx_reset) return -ECONNRESET;
    if (!s->connected) return -ENOTCONN;
    size_t w = plan_of(s).window;
    if (s->inflight >= w) return -EAGAIN;
    n = std::min(n, w - s->inflight);
    if (x && !x->err) n = std::min(n, x->limit ? x->limit : 1);
    s->inflight += n;
    schedule(sim::now() + plan_of(s).latency, {E_ARRIVE, s, std::string(p, n), -1, 0, current_call});
    sim::log_u64(0x5e4d0000 + n);
    return (long) n;
}

long do_recv(Sock* s, char* p, size_t n, long flags) {
    settle();
    NetFault* x = (flags & MSG_PEEK) ? nullptr : fault(N_RECV);
    if (x && x->err) {
        if (x->err == ECONNRESET) s->rx_reset = true;
        return -x->err;
    }
    if (s->rx_reset) return -ECONNRESET;
    if (s->rx.empty()) {
        if (s->rx_eof) return 0;
        if (!s->connected) return -ENOTCONN;
        return -EAGAIN;
    }
    n = std::min(n, s->rx.size());
    if (x && !x->err) n = std::min(n, x->limit ? x->limit : 1);
    memcpy(p, s->rx.data(), n);
    if (flags & MSG_PEEK) return (long) n;
    s->rx.erase(0, n);
    size_t k = n;
    while (k && !s->rx_src.empty()) {
        auto& src = s->rx_src.front();
        size_t m = std::min(k, src.second);
        if (src.first >= 0) resps[src.first].delivered += m;
        src.second -= m;
        k -= m;
        if (!src.second) s->rx_src.erase(s->rx_src.begin());
    }
    sim::log_u64(0x4ec00000 + n);
    return (long) n;
}

bool hook(long nr, long* a, long* ret) {
    if (!sim::active()) {
        // fall through: dispatch runs with trapping off, the thread is still simulated
    }
    switch (nr) {
        case SYS_socket: {
            settle();
            if (NetFault* x = fault(N_SOCKET)) {
                *ret = -(x->err ? x->err : EMFILE);
                return true;
            }
            if (a[0] != AF_INET && a[0] != AF_INET6) {
                n_strange++;
                *ret = -EAFNOSUPPORT;
                return true;
            }
            long fd = sim::raw(SYS_eventfd2, 0, EFD_CLOEXEC);
            if (fd < 0 || fd >= 1024) {
                *ret = -EMFILE;
                return true;
            }
            Sock* s = new Sock;
            s->family = (int) a[0];
            s->stream = (a[1] & 0xf) == SOCK_STREAM;
            socks[fd] = s;
            *ret = fd;
            return true;
        }
        case SYS_connect: {
            Sock* s = get(a[0]);
            if (!s) {
                n_strange++;
                *ret = -ENETUNREACH; // anything that is not ours (resolver, name service)
                return true;
            }
            settle();
            const sockaddr* sa = (const sockaddr*) a[1];
            memcpy(&s->peer, sa, std::min((size_t) a[2], sizeof s->peer));
            s->peerlen = (socklen_t) a[2];
            if (!s->stream) {
                *ret = 0;
                return true;
            }
            char ip[64] = "?";
            int port = 0;
            if (sa->sa_family == AF_INET) {
                inet_ntop(AF_INET, &((sockaddr_in*) sa)->sin_addr, ip, sizeof ip);
                port = ntohs(((sockaddr_in*) sa)->sin_port);
            } else if (sa->sa_family == AF_INET6) {
                inet_ntop(AF_INET6, &((sockaddr_in6*) sa)->sin6_addr, ip, sizeof ip);
                port = ntohs(((sockaddr_in6*) sa)->sin6_port);
            }
            targets.push_back({ip, port});
            s->conn = n_conns++;
            count_attempt();
            by_conn.push_back(s);
            if (NetFault* x = fault(N_CONNECT)) {
                *ret = -(x->err ? x->err : ENETUNREACH);
                return true;
            }
            const ConnPlan& p = plan_of(s);
            s->connecting = true;
            sim::log_u64(0xc0440000 + (uint64_t) p.connect);
            if (p.connect == CONN_OK) schedule(sim::now() + p.delay, {E_CONNECTED, s});
            else if (p.connect == CONN_REFUSED) schedule(sim::now() + p.delay, {E_REFUSED, s});
            else if (p.connect == CONN_UNREACH) schedule(sim::now() + p.delay, {E_UNREACH, s});
            *ret = -EINPROGRESS;
            return true;
        }
        case SYS_poll: {
            int64_t t = (int) a[2] < 0 ? -1 : (int64_t) (int) a[2] * 1000000;
            *ret = do_poll((pollfd*) a[0], (unsigned long) a[1], t);
            return true;
        }
        case SYS_ppoll: {
            const timespec* ts = (const timespec*) a[2];
            *ret = do_poll((pollfd*) a[0], (unsigned long) a[1], ts ? (int64_t) ts->tv_sec * 1000000000ll + ts->tv_nsec : -1);
            return true;
        }
        case SYS_close: {
            Sock* s = get(a[0]);
            if (!s) return false;
            s->closed = true;
            s->connected = false;
            socks[a[0]] = nullptr;
            *ret = sim::raw(SYS_close, a[0]);
            return true;
        }
        case SYS_sendto: {
            Sock* s = get(a[0]);
            if (!s) return false;
            *ret = do_send(s, (const char*) a[1], (size_t) a[2]);
            return true;
        }
        case SYS_recvfrom: {
            Sock* s = get(a[0]);
            if (!s) return false;
            *ret = do_recv(s, (char*) a[1], (size_t) a[2], a[3]);
            return true;
        }
        case SYS_sendmsg: {
            Sock* s = get(a[0]);
            if (!s) return false;
            const msghdr* m = (const msghdr*) a[1];
            std::string all;
            for (size_t i = 0; i < m->msg_iovlen; i++) all.append((const char*) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
            *ret = do_send(s, all.data(), all.size());
            return true;
        }
        case SYS_recvmsg: {
            Sock* s = get(a[0]);
            if (!s) return false;
            msghdr* m = (msghdr*) a[1];
            *ret = m->msg_iovlen ? do_recv(s, (char*) m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, a[2]) : 0;
            return true;
        }
        case SYS_getsockopt: {
            Sock* s = get(a[0]);
            if (!s) return false;
            int* v = (int*) a[3];
            socklen_t* l = (socklen_t*) a[4];
            if (a[1] == SOL_SOCKET && a[2] == SO_ERROR && *l >= sizeof(int)) {
                *v = s->so_error ? s->so_error : (s->rx_reset ? ECONNRESET : 0);
                s->so_error = 0;
            } else if (*l >= sizeof(int)) {
                *v = 0;
            }
            *l = sizeof(int);
            *ret = 0;
            return true;
        }
        case SYS_setsockopt:
        case SYS_shutdown:
        case SYS_bind:
        case SYS_listen:
            if (!get(a[0])) return false;
            *ret = 0;
            return true;
        case SYS_getsockname:
        case SYS_getpeername: {
            Sock* s = get(a[0]);
            if (!s) return false;
            socklen_t* l = (socklen_t*) a[2];
            sockaddr_storage x = s->peer;
            if (nr == SYS_getpeername && !s->connected) {
                *ret = -ENOTCONN;
                return true;
            }
            socklen_t n = s->peerlen ? s->peerlen : (socklen_t) sizeof(sockaddr_in);
            if (!s->peerlen) x.ss_family = (sa_family_t) s->family;
            memcpy((void*) a[1], &x, std::min(n, *l));
            *l = n;
            *ret = 0;
            return true;
        }
        case SYS_ioctl:
        case SYS_fcntl:
            return false; // on the placeholder descriptor
        case SYS_read: {
            Sock* s = get(a[0]);
            if (!s) return false;
            *ret = do_recv(s, (char*) a[1], (size_t) a[2], 0);
            return true;
        }
        case SYS_write: {
            Sock* s = get(a[0]);
            if (!s) return false;
            *ret = do_send(s, (const char*) a[1], (size_t) a[2]);
            return true;
        }
        default:
            return false;
    }
}

} // namespace

void install() {
    sim::net_hook = hook;
    sim::next_event_hook = next_event;
    sim::run_event_hook = run_event;
}

} // namespace net
