// Simulation of offloading to the accelerator: code generated by the real mapper, dispatcher and code generator and the real
// runtime wrapper over a simulated device (command streams, device memory, kernels), its faults, and a simulated disk.
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <set>

#include "cblas.h"
#include "core/harness.h"
#include "device-layer/IDeviceLayer.h"
#include "docc/rt/et/et-sysemu-config.h"
#include "et-trace/layout.h"
#include "et/table.h"
#include "runtime/IRuntime.h"

namespace fs = std::filesystem;

namespace {
const json* g_plan;
std::string g_scratch;
constexpr size_t PAGE = 4096;

size_t up(size_t x, size_t a = PAGE) { return (x + a - 1) / a * a; }

// memory whose last byte lies in front of an inaccessible page
struct Block {
    char* base = nullptr;
    size_t len = 0; // without the guard page
    char* ptr = nullptr;
    size_t size = 0;
};
Block guarded(size_t size, size_t front) {
    Block b;
    b.size = size;
    b.len = up(size + front);
    b.base = (char*) sim::raw(SYS_mmap, 0, (long) (b.len + PAGE), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sim::raw(SYS_mprotect, (long) (b.base + b.len), PAGE, PROT_NONE);
    b.ptr = b.base + b.len - size;
    return b;
}
void prot(const Block& b, bool on) { sim::raw(SYS_mprotect, (long) b.base, (long) b.len, on ? PROT_READ | PROT_WRITE : PROT_NONE); }

// ---- what is observed, kept in shared memory so that it survives a killed process ---------------------------------
struct Seen {
    uint32_t n_bad;
    struct {
        char prop[4];
        char cls[24];
        char msg[300];
    } bad[8];
    uint64_t calls, failed, kernels, h2d, d2h, opens, prints, api, api_fired, reordered, hostgemm, bytes;
    uint64_t hash;
    char where[200];
    uint32_t done;
};
Seen* S() { return (Seen*) sim::g->blob; }
void bad(const char* prop, const char* cls, const std::string& msg) {
    auto* s = S();
    if (s->n_bad >= 8) return;
    auto& b = s->bad[s->n_bad++];
    strncpy(b.prop, prop, sizeof b.prop - 1);
    strncpy(b.cls, cls, sizeof b.cls - 1);
    strncpy(b.msg, msg.c_str(), sizeof b.msg - 1);
}
void mix(uint64_t v) { S()->hash = (S()->hash ^ v) * 1099511628211ull + 7; }
void where(const std::string& w) { strncpy(S()->where, w.c_str(), sizeof S()->where - 1); }

int64_t file_faults() {
    int64_t n = 0;
    for (int i = 0; i < sim::MAX_FAULTS; i++) n += sim::g->fault_fired[i];
    return n;
}

// ---- the simulated device -------------------------------------------------------------------------------------------
struct Op {
    enum Kind { LOAD, H2D, D2H, KERNEL } kind;
    int id, stream, kernel = -1, thread = 0;
    bool barrier = false, done = false;
    const std::byte* src = nullptr;
    std::byte* dst = nullptr;
    size_t size = 0;
    std::vector<std::byte> args;
    rt::KernelLaunchOptions opt;
};
struct Kernel {
    bool live = true, loaded = false;
    std::string content, name, dir;
};
struct Dev {
    sim::Rng rng{1};
    std::vector<Op*> ops;
    std::map<int, int> streams; // live stream -> device
    std::vector<Kernel> kernels;
    std::map<char*, Block> mem;
    size_t total = 0;
    int next_stream = 0;
    int layers = 0, runtimes = 0, live_kernels = 0;
    uint64_t api = 0, fired = 0;
    std::vector<std::pair<uint64_t, std::string>> faults;
    std::vector<Block> host; // protected while kernels run
    bool in_kernel = false;
    std::vector<std::string> prints;
    int hart = 0;
    Op* cur = nullptr;
    char* trace = nullptr;
};
Dev* D;

int pending(size_t from = 0) {
    int n = 0;
    for (size_t i = from; i < D->ops.size(); i++) n += !D->ops[i]->done;
    return n;
}
int64_t fired() { return file_faults() + (int64_t) D->fired; }

std::string raw_read(const std::string& sim_path) {
    std::string p = g_scratch + sim_path.substr(8), out;
    long fd = sim::raw(SYS_openat, AT_FDCWD, (long) p.c_str(), O_RDONLY, 0);
    if (fd < 0) return "<none>";
    static char buf[65536];
    for (;;) {
        long n = sim::raw(SYS_read, fd, (long) buf, sizeof buf);
        if (n <= 0) break;
        out.append(buf, (size_t) n);
    }
    sim::raw(SYS_close, fd);
    return out;
}

std::string kernel_file(const std::string& name, const std::string& variant, uint64_t seed, size_t pad) {
    std::string body = name + "\n" + variant + "\n";
    sim::Rng r(seed);
    for (size_t i = 0; i < pad; i++) body += (char) r.next();
    uint64_t len = body.size();
    std::string h = "SIMELF01";
    h.append((const char*) &len, 8);
    return h + body;
}
std::string field(const std::string& c, int i) {
    size_t p = 16;
    for (; i > 0; i--) {
        p = c.find('\n', p);
        if (p == std::string::npos) return "";
        p++;
    }
    size_t e = c.find('\n', p);
    return e == std::string::npos ? "" : c.substr(p, e - p);
}

bool in_mem(const std::byte* p, size_t n) {
    for (auto& [k, b] : D->mem)
        if ((char*) p >= b.ptr && (char*) p + n <= b.ptr + b.size) return true;
    return false;
}
void mem_on(bool on) {
    for (auto& [k, b] : D->mem) prot(b, on);
}
void host_on(bool on) {
    for (auto& b : D->host) prot(b, on);
}

// large blocks are mostly untouched and zero: copy only the pages that exist
void fetch(Op* o) {
    if (o->size < (1u << 20)) {
        memcpy(o->dst, o->src, o->size);
        return;
    }
    static unsigned char have[1 << 16];
    char *s = (char*) o->src, *e = s + o->size, *first = (char*) ((uintptr_t) s & ~(PAGE - 1));
    size_t pages = up((size_t) (e - first)) / PAGE;
    bool known = pages <= sizeof have && sim::raw(SYS_mincore, (long) first, (long) (pages * PAGE), (long) have) == 0;
    for (size_t i = 0; i < pages; i++) {
        char *a = std::max(s, first + i * PAGE), *b = std::min(e, first + (i + 1) * PAGE);
        if (!known || (have[i] & 1)) memcpy((char*) o->dst + (a - s), a, (size_t) (b - a));
        else memset((char*) o->dst + (a - s), 0, (size_t) (b - a));
    }
}

void trace_entry(int type, const std::string& s) {
    auto& o = D->cur->opt;
    if (!o.tracing_ || !(o.traceShires_ & 1) || !D->trace) return;
    auto* h = (trace_buffer_std_header_t*) D->trace;
    size_t need = sizeof(trace_entry_header_t) + up(s.size() + 1, 8);
    if (h->data_size + need > o.traceSize_) return;
    auto* e = (trace_entry_header_t*) (D->trace + h->data_size);
    e->cycle = sim::now();
    e->payload_size = (uint32_t) up(s.size() + 1, 8);
    e->hart_id = (uint16_t) D->hart;
    e->type = (uint16_t) type;
    memset(e + 1, 0, e->payload_size);
    memcpy(e + 1, s.data(), s.size());
    h->data_size += (uint32_t) need;
}

void run_op(Op* o) {
    for (auto* e : D->ops)
        if (!e->done && e->stream == o->stream && e->id < o->id) {
            S()->reordered++;
            break;
        }
    o->done = true;
    sim::advance(1000 + o->size / 4);
    switch (o->kind) {
        case Op::LOAD: {
            auto& k = D->kernels[o->kernel];
            k.content.assign((const char*) o->src, o->size);
            k.loaded = true;
            break;
        }
        case Op::H2D:
            if (!in_mem(o->dst, o->size)) return bad("E01", "device_memory", "data are sent to memory that is not allocated on the device (" + std::to_string(o->size) + " bytes)");
            where("sending data to the device");
            mem_on(true);
            memcpy(o->dst, o->src, o->size);
            mem_on(false);
            S()->h2d++;
            S()->bytes += o->size;
            break;
        case Op::D2H:
            if (!in_mem(o->src, o->size)) return bad("E01", "device_memory", "data are fetched from memory that is not allocated on the device (" + std::to_string(o->size) + " bytes)");
            where("fetching data from the device");
            mem_on(true);
            fetch(o);
            mem_on(false);
            S()->d2h++;
            S()->bytes += o->size;
            break;
        case Op::KERNEL: {
            auto& k = D->kernels[o->kernel];
            if (!k.live || !k.loaded) return bad("E01", "not_loaded", k.live ? "a kernel is started before it is loaded" : "a kernel is started after it was unloaded");
            k.name = field(k.content, 0);
            auto* envp = (*g_plan).value("kpath", "").empty() ? nullptr : &(*g_plan)["kpath"];
            std::string file = (envp ? envp->get<std::string>() : std::string("/simroot/out")) + "/" + k.name + ".elf";
            if (k.content != raw_read(file)) return bad("E01", "kernel_image", "the device runs something other than the kernel's file " + file + " (" + std::to_string(k.content.size()) + " bytes loaded)");
            const EtKernel* e = nullptr;
            for (int i = 0; i < et_kernel_n; i++)
                if (k.name == et_kernels[i].name) e = &et_kernels[i];
            if (!e) return bad("E01", "kernel_image", "unknown kernel " + k.name);
            if (o->opt.shireMask_ == 0) return;
            mem_on(true);
            host_on(false);
            where("running kernel " + k.name);
            D->cur = o;
            D->trace = o->opt.tracing_ ? (char*) o->opt.trace_ : nullptr;
            if (D->trace) {
                if (!in_mem((std::byte*) D->trace, o->opt.traceSize_)) {
                    bad("E01", "trace_memory", "the trace buffer is not device memory of " + std::to_string(o->opt.traceSize_) + " bytes");
                    D->trace = nullptr;
                } else {
                    auto* h = (trace_buffer_std_header_t*) D->trace;
                    h->magic = 0x76543210;
                    h->data_size = sizeof *h;
                }
            }
            alignas(64) static char args[256];
            memset(args, 0x5a, sizeof args);
            memcpy(args, o->args.data(), std::min(o->args.size(), sizeof args));
            int first = (int) D->rng.below(4);
            for (int i = 0; i < 4; i++) {
                D->hart = (first + i) % 4;
                if (D->rng.chance(1, 3)) trace_entry(TRACE_TYPE_OTHER, std::string(D->rng.below(40), 'x'));
                e->entry(args);
                if (D->rng.chance(1, 3)) trace_entry(TRACE_TYPE_OTHER, std::string(D->rng.below(40), 'y'));
            }
            host_on(true);
            mem_on(false);
            S()->kernels++;
            break;
        }
    }
    where("");
}

bool eligible(Op* o) {
    if (o->done) return false;
    for (auto* e : D->ops) {
        if (e->stream != o->stream || e->done || e->id >= o->id) continue;
        if (o->barrier || e->barrier) return false;
    }
    return true;
}
// the device works on its own: some of what is possible happens now
void device_step(uint32_t num, uint32_t den) {
    while (D->rng.chance(num, den)) {
        std::vector<Op*> el;
        for (auto* o : D->ops)
            if (eligible(o)) el.push_back(o);
        if (el.empty()) return;
        run_op(el[D->rng.below(el.size())]);
    }
}
template<class P> void device_until(P pred) {
    for (int i = 0; i < 100000 && !pred(); i++) {
        std::vector<Op*> el;
        for (auto* o : D->ops)
            if (eligible(o)) el.push_back(o);
        if (el.empty()) return;
        run_op(el[D->rng.below(el.size())]);
    }
}

void api(const char* what) {
    sim::point(77);
    D->api++;
    S()->api++;
    mix(hash_str(what));
    sim::advance(500);
    for (auto& [n, how] : D->faults)
        if (D->api == n) {
            D->fired++;
            S()->api_fired++;
            throw rt::Exception(std::string("simulated device: ") + what + " failed");
        }
    uint32_t p = (*g_plan).value("eager", 4);
    if (p) device_step(p, 8);
}

struct SimRuntime : rt::IRuntime {
    std::shared_ptr<dev::IDeviceLayer> layer;
    SimRuntime() { D->runtimes++; }
    ~SimRuntime() override { D->runtimes--; }
    std::vector<rt::DeviceId> getDevices() override {
        sim::Quiet q;
        api("getDevices");
        std::vector<rt::DeviceId> v;
        for (int i = 0; i < (*g_plan).value("devices", 1); i++) v.push_back(rt::DeviceId(i));
        return v;
    }
    void check_stream(rt::StreamId s, const char* what) {
        if (!D->streams.count((int) s)) throw rt::Exception(std::string(what) + ": no such stream");
    }
    Op* push(Op::Kind k, rt::StreamId s, bool barrier) {
        auto* o = new Op;
        o->kind = k;
        o->id = (int) D->ops.size();
        o->stream = (int) s;
        o->thread = sim::self();
        o->barrier = barrier;
        D->ops.push_back(o);
        return o;
    }
    rt::LoadCodeResult loadCode(rt::StreamId s, const std::byte* elf, size_t n) override {
        api("loadCode");
        sim::Quiet q;
        check_stream(s, "loadCode");
        uint64_t len = 0;
        if (n >= 16) memcpy(&len, (const char*) elf + 8, 8);
        if (n < 16 || memcmp(elf, "SIMELF01", 8)) throw rt::Exception("loadCode: not an ELF file");
        auto* o = push(Op::LOAD, s, true);
        o->src = elf;
        o->size = n;
        o->kernel = (int) D->kernels.size();
        D->kernels.push_back({});
        D->live_kernels++;
        return {rt::EventId(o->id), rt::KernelId(o->kernel), nullptr};
    }
    void unloadCode(rt::KernelId k) override {
        api("unloadCode");
        sim::Quiet q;
        if ((int) k < 0 || (size_t) k >= D->kernels.size() || !D->kernels[(int) k].live) throw rt::Exception("unloadCode: no such kernel");
        for (auto* o : D->ops)
            if (!o->done && o->kernel == (int) k) bad("E01", "still_running", "a kernel is unloaded while it is still to be run");
        D->kernels[(int) k].live = false;
        D->live_kernels--;
    }
    std::byte* mallocDevice(rt::DeviceId d, size_t size, uint32_t) override {
        api("mallocDevice");
        sim::Quiet q;
        if ((int) d >= (*g_plan).value("devices", 1)) throw rt::Exception("no such device");
        uint64_t cap = (*g_plan).value("capacity", (uint64_t) 0);
        if (size == 0 || size > (1u << 30) || (cap && D->total + size > cap)) throw rt::Exception("mallocDevice: out of device memory");
        Block b = guarded(size, 0);
        if (size < 65536)
            for (size_t i = 0; i + 4 <= size; i += 4) {
                uint32_t nan = 0x7fc0dead;
                memcpy(b.ptr + i, &nan, 4);
            }
        prot(b, false);
        D->mem[b.ptr] = b;
        D->total += size;
        return (std::byte*) b.ptr;
    }
    void freeDevice(rt::DeviceId, std::byte* p) override {
        api("freeDevice");
        sim::Quiet q;
        auto it = D->mem.find((char*) p);
        if (it == D->mem.end()) throw rt::Exception("freeDevice: not allocated");
        Block b = it->second;
        auto inside = [&](const std::byte* x) { return (char*) x >= b.ptr && (char*) x < b.ptr + b.size; };
        for (auto* o : D->ops) {
            if (o->done) continue;
            bool uses = inside(o->src) || inside(o->dst);
            for (size_t i = 0; o->kind == Op::KERNEL && i + 8 <= o->args.size(); i += 4) {
                std::byte* a;
                memcpy(&a, o->args.data() + i, 8);
                uses = uses || inside(a);
            }
            if (uses) bad("E01", "freed_in_use", "device memory is freed that queued work still uses");
        }
        D->mem.erase(it);
        D->total -= b.size;
        sim::raw(SYS_munmap, (long) b.base, (long) (b.len + PAGE));
    }
    rt::StreamId createStream(rt::DeviceId d) override {
        api("createStream");
        sim::Quiet q;
        if ((int) d >= (*g_plan).value("devices", 1)) throw rt::Exception("no such device");
        if (D->streams.size() >= (*g_plan).value("max_streams", (size_t) 64)) throw rt::Exception("createStream: too many streams");
        D->streams[D->next_stream] = (int) d;
        return rt::StreamId(D->next_stream++);
    }
    void destroyStream(rt::StreamId s) override {
        api("destroyStream");
        sim::Quiet q;
        check_stream(s, "destroyStream");
        for (auto* o : D->ops)
            if (!o->done && o->stream == (int) s) {
                bad("E01", "still_running", "a stream is destroyed with work left in it");
                o->done = true;
            }
        D->streams.erase((int) s);
    }
    rt::EventId kernelLaunch(rt::StreamId s, rt::KernelId k, const std::byte* args, size_t size, const rt::KernelLaunchOptions& opt) override {
        api("kernelLaunch");
        sim::Quiet q;
        check_stream(s, "kernelLaunch");
        if ((int) k < 0 || (size_t) k >= D->kernels.size() || !D->kernels[(int) k].live) throw rt::Exception("kernelLaunch: no such kernel");
        if (size > 256) throw rt::Exception("kernelLaunch: too many arguments");
        auto* o = push(Op::KERNEL, s, opt.barrier_);
        o->kernel = (int) k;
        o->args.assign(args, args + size);
        o->opt = opt;
        return rt::EventId(o->id);
    }
    rt::EventId memcpyHostToDevice(rt::StreamId s, const std::byte* src, std::byte* dst, size_t size, bool barrier) override {
        api("memcpyHostToDevice");
        sim::Quiet q;
        check_stream(s, "memcpyHostToDevice");
        auto* o = push(Op::H2D, s, barrier);
        o->src = src;
        o->dst = dst;
        o->size = size;
        return rt::EventId(o->id);
    }
    rt::EventId memcpyDeviceToHost(rt::StreamId s, const std::byte* src, std::byte* dst, size_t size, bool barrier) override {
        api("memcpyDeviceToHost");
        sim::Quiet q;
        check_stream(s, "memcpyDeviceToHost");
        auto* o = push(Op::D2H, s, barrier);
        o->src = src;
        o->dst = dst;
        o->size = size;
        return rt::EventId(o->id);
    }
    bool waitForEvent(rt::EventId e, std::chrono::seconds) override {
        api("waitForEvent");
        sim::Quiet q;
        if ((size_t) e >= D->ops.size()) throw rt::Exception("waitForEvent: no such event");
        Op* o = D->ops[(size_t) e];
        device_until([&] { return o->done; });
        return true;
    }
    bool waitForStream(rt::StreamId s, std::chrono::seconds) override {
        api("waitForStream");
        sim::Quiet q;
        check_stream(s, "waitForStream");
        device_until([&] {
            for (auto* o : D->ops)
                if (!o->done && o->stream == (int) s) return false;
            return true;
        });
        return true;
    }
};

struct SimLayer : dev::IDeviceLayer {
    SimLayer() { D->layers++; }
    ~SimLayer() override { D->layers--; }
};

std::unique_ptr<dev::IDeviceLayer> open_device(const char* how) {
    api(how);
    sim::Quiet q;
    S()->opens++;
    mix(7);
    if (D->layers) bad("E02", "opened_twice", "the device is opened while it is already open in this process");
    std::string mode = (*g_plan).value("mode", "");
    bool pcie = mode == "device";
    if (pcie != (std::string(how) == "createPcieDeviceLayer")) bad("E02", "mode", "mode '" + mode + "' opened by " + how);
    return std::make_unique<SimLayer>();
}
} // namespace

std::unique_ptr<dev::IDeviceLayer> dev::IDeviceLayer::createPcieDeviceLayer(bool, bool) { return open_device("createPcieDeviceLayer"); }
std::unique_ptr<dev::IDeviceLayer> dev::IDeviceLayer::createSysEmuDeviceLayer(const emu::SysEmuOptions& o, uint8_t n) {
    auto l = open_device("createSysEmuDeviceLayer");
    sim::Quiet q;
    const std::string* got[5] = {&o.bootromTrampolineToBL2ElfPath, &o.spBL2ElfPath, &o.machineMinionElfPath, &o.masterMinionElfPath, &o.workerMinionElfPath};
    const char* want[5] = {BOOTROM_TRAMPOLINE_TO_BL2_ELF, BL2_ELF, MACHINE_MINION_ELF, MASTER_MINION_ELF, WORKER_MINION_ELF};
    int emu = (*g_plan).value("emu", 31);
    for (int i = 0; i < 5; i++) {
        std::string w = (emu >> i & 1) ? want[i] : "";
        if (*got[i] != w && !file_faults()) bad("E02", "emulator", "emulator started with '" + *got[i] + "' where '" + w + "' was due");
    }
    if (n < 1 || o.maxCycles < (1ull << 40) || o.runDir.empty() || o.executablePath.rfind(SYSEMU_INSTALL_DIR, 0) != 0 || o.startGdb) bad("E02", "emulator", "emulator started with unusable options");
    return l;
}
rt::RuntimePtr rt::IRuntime::create(std::shared_ptr<dev::IDeviceLayer> const& l) {
    api("create");
    sim::Quiet q;
    if (!l) throw rt::Exception("create: no device");
    auto r = std::make_unique<SimRuntime>();
    if (D->runtimes > 1) bad("E02", "opened_twice", "a second runtime is created while one is in use");
    r->layer = l;
    return r;
}

extern "C" int et_sim_hart_id() { return D->hart; }
extern "C" void et_sim_printf(const char* fmt, ...) {
    char buf[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    std::string s = buf;
    while (!s.empty() && s.back() == '\n') s.pop_back();
    D->prints.push_back(s);
    S()->prints++;
    trace_entry(TRACE_TYPE_STRING, buf);
}

namespace {
template<class T> void gemm(bool col, bool ta, bool tb, int64_t m, int64_t n, int64_t k, double alpha, const T* a, int64_t lda, const T* b, int64_t ldb, double beta, T* c, int64_t ldc) {
    auto at = [col](int64_t i, int64_t j, int64_t ld) { return col ? j * ld + i : i * ld + j; };
    for (int64_t i = 0; i < m; i++)
        for (int64_t j = 0; j < n; j++) {
            double acc = 0;
            for (int64_t x = 0; x < k; x++) acc += (double) a[ta ? at(x, i, lda) : at(i, x, lda)] * (double) b[tb ? at(j, x, ldb) : at(x, j, ldb)];
            T& o = c[at(i, j, ldc)];
            o = (T) (beta == 0 ? alpha * acc : alpha * acc + beta * (double) o);
        }
}
} // namespace
extern "C" void cblas_sgemm(CBLAS_LAYOUT l, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, float alpha, const float* a, int lda, const float* b, int ldb, float beta, float* c, int ldc) {
    S()->hostgemm++;
    gemm<float>(l == CblasColMajor, ta != CblasNoTrans, tb != CblasNoTrans, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc);
}
extern "C" void cblas_dgemm(CBLAS_LAYOUT l, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, double alpha, const double* a, int lda, const double* b, int ldb, double beta, double* c, int ldc) {
    S()->hostgemm++;
    gemm<double>(l == CblasColMajor, ta != CblasNoTrans, tb != CblasNoTrans, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc);
}

namespace {
// ---- reference: what a function computes ------------------------------------------------------------------------------
struct Arr {
    bool dbl = false;
    Block mem;
    int64_t n = 0; // elements used by the function
    std::vector<double> before, want;
    std::vector<char> written, read_first;
    bool shared = false;
};
struct Call {
    json spec;
    const EtFn* fn = nullptr;
    std::map<std::string, double> val;
    std::map<std::string, Arr*> arr;
    std::vector<void*> args;
    std::vector<int64_t> ints;
    std::vector<float> floats;
    std::string name;
    int64_t f0 = 0;
    bool ok = false, returned = false;
    std::string what;
};

double ev(const json& e, std::map<std::string, double>& v) {
    if (e.is_number()) return e.get<double>();
    if (e.is_string()) {
        std::string s = e;
        if (isdigit(s[0]) || s[0] == '-') return std::stod(s);
        return v[s];
    }
    double a = ev(e[1], v), b = ev(e[2], v);
    return e[0] == "+" ? a + b : e[0] == "-" ? a - b : a * b;
}

// walks the operations; touch(array, index, write) for sizes, or computes into want
template<class F> void each_op(Call& c, F f) {
    for (auto& o : c.spec["ops"]) {
        int64_t n = o.contains("loop") ? (int64_t) ev(o["loop"][1], c.val) : 1;
        for (int64_t t = 0; t < n; t++) {
            if (o.contains("loop")) c.val[o["loop"][0]] = (double) t;
            f(o);
        }
    }
}
void extents(Call& c) {
    each_op(c, [&](const json& o) {
        bool col = o.value("col", false), ta = o.value("ta", false), tb = o.value("tb", false);
        int64_t m = (int64_t) ev(o["m"], c.val), n = (int64_t) ev(o["n"], c.val), k = (int64_t) ev(o["k"], c.val);
        auto ext = [&](const char* a, const char* off, int64_t rows, int64_t cols, const json& ld) {
            int64_t l = (int64_t) ev(ld, c.val), of = o.contains(off) ? (int64_t) ev(o[off], c.val) : 0;
            int64_t e = of + (col ? (cols - 1) * l + rows : (rows - 1) * l + cols);
            auto& x = *c.arr[o[a]];
            x.n = std::max(x.n, e);
        };
        ext("a", "ao", ta ? k : m, ta ? m : k, o["lda"]);
        ext("b", "bo", tb ? n : k, tb ? k : n, o["ldb"]);
        ext("c", "co", m, n, o["ldc"]);
    });
}
void compute(Call& c, bool dry) {
    each_op(c, [&](const json& o) {
        bool col = o.value("col", false), ta = o.value("ta", false), tb = o.value("tb", false);
        int64_t m = (int64_t) ev(o["m"], c.val), n = (int64_t) ev(o["n"], c.val), k = (int64_t) ev(o["k"], c.val);
        int64_t lda = (int64_t) ev(o["lda"], c.val), ldb = (int64_t) ev(o["ldb"], c.val), ldc = (int64_t) ev(o["ldc"], c.val);
        auto off = [&](const char* x) { return o.contains(x) ? (int64_t) ev(o[x], c.val) : 0; };
        int64_t ao = off("ao"), bo = off("bo"), co = off("co");
        double alpha = ev(o["alpha"], c.val), beta = ev(o["beta"], c.val);
        Arr &A = *c.arr[o["a"]], &B = *c.arr[o["b"]], &C = *c.arr[o["c"]];
        auto at = [col](int64_t i, int64_t j, int64_t ld) { return col ? j * ld + i : i * ld + j; };
        auto rd = [&](Arr& x, int64_t i) {
            if (dry && !x.written[i]) x.read_first[i] = 1;
            return x.want[i];
        };
        for (int64_t i = 0; i < m; i++)
            for (int64_t j = 0; j < n; j++) {
                double acc = 0;
                for (int64_t x = 0; x < k; x++) acc += rd(A, ao + (ta ? at(x, i, lda) : at(i, x, lda))) * rd(B, bo + (tb ? at(j, x, ldb) : at(x, j, ldb)));
                int64_t ci = co + at(i, j, ldc);
                double r = alpha * acc + (beta == 0 ? 0 : beta * rd(C, ci));
                C.want[ci] = r;
                C.written[ci] = 1;
            }
    });
}
void put(Arr& a, int64_t i, double v) {
    if (a.dbl) ((double*) a.mem.ptr)[i] = v;
    else ((float*) a.mem.ptr)[i] = (float) v;
}
double getv(const Arr& a, int64_t i) { return a.dbl ? ((double*) a.mem.ptr)[i] : (double) ((float*) a.mem.ptr)[i]; }
constexpr unsigned char FRONT = 0xA7;

void alloc(Arr& a) {
    size_t bytes = (size_t) a.n * (a.dbl ? 8 : 4);
    a.mem = guarded(bytes, 256);
    memset(a.mem.base, FRONT, (size_t) (a.mem.ptr - a.mem.base));
    D->host.push_back(a.mem);
    a.before.assign((size_t) a.n, 0);
    a.written.assign((size_t) a.n, 0);
    a.read_first.assign((size_t) a.n, 0);
}

std::vector<std::vector<Call>> g_calls; // per thread

void prepare(Call& c, const json& j, std::map<std::string, Arr*>& shared) {
    c.name = j["fn"];
    for (int i = 0; i < et_fn_n; i++)
        if (c.name == et_fns[i].name) c.fn = &et_fns[i];
    c.spec = json::parse(c.fn->spec);
    sim::Rng r(j.value("data", (uint64_t) 1));
    for (auto& a : c.spec["args"]) {
        std::string n = a[0], t = a[1];
        if (t == "i" || t == "f") c.val[n] = j["v"].value(n, 1.0);
        else if (j.value("shared", false) && n == "C") {
            auto*& x = shared[c.name];
            if (!x) x = new Arr;
            x->shared = true;
            c.arr[n] = x;
        } else {
            c.arr[n] = new Arr;
            c.arr[n]->dbl = t == "D";
        }
    }
    extents(c);
}
void fill(Call& c, const json& j) {
    sim::Rng r(j.value("data", (uint64_t) 1));
    for (auto& [n, a] : c.arr) {
        if (a->mem.base) continue;
        alloc(*a);
        for (int64_t i = 0; i < a->n; i++) {
            double v = (double) r.range(-4, 4);
            if (r.chance(1, 4)) v /= 2;
            a->before[(size_t) i] = v;
        }
        a->want = a->before;
    }
}
void finish_fill(Call& c, const json& j) {
    for (auto& [n, a] : c.arr)
        for (int64_t i = 0; i < a->n; i++) {
            // never read before it is written: its old value must not matter
            if (j.value("undef", false) && a->written[(size_t) i] && !a->read_first[(size_t) i]) a->before[(size_t) i] = NAN;
            put(*a, i, a->before[(size_t) i]);
        }
    c.ints.reserve(32);
    c.floats.reserve(32);
    for (auto& a : c.spec["args"]) {
        std::string n = a[0], t = a[1];
        if (t == "i") {
            c.ints.push_back((int64_t) c.val[n]);
            c.args.push_back(&c.ints.back());
        } else if (t == "f") {
            c.floats.push_back((float) c.val[n]);
            c.args.push_back(&c.floats.back());
        } else {
            c.args.push_back(c.arr[n]->mem.ptr);
        }
    }
}

bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

void judge(Call& c, int th, size_t i) {
    std::string w = "thread " + std::to_string(th) + ", call " + std::to_string(i + 1) + " of " + c.name + ": ";
    for (auto& [n, a] : c.arr) {
        for (char* p = a->mem.base; p < a->mem.ptr; p++)
            if ((unsigned char) *p != FRONT) {
                bad("E01", "foreign_memory", w + "memory in front of " + n + " was overwritten");
                break;
            }
        for (int64_t x = 0; x < a->n; x++) {
            double g = getv(*a, x);
            mix((uint64_t) (int64_t) (std::isnan(g) ? 1e9 : g * 16));
            bool wr = a->written[(size_t) x];
            if (!wr && !same(g, a->before[(size_t) x])) {
                bad("E01", "foreign_memory", w + n + "[" + std::to_string(x) + "] is not part of the result but became " + std::to_string(g) + " (was " + std::to_string(a->before[(size_t) x]) + ")");
                break;
            }
            if (wr && c.ok && !a->shared && !same(g, a->want[(size_t) x])) {
                bad("E01", "result", w + n + "[" + std::to_string(x) + "] is " + std::to_string(g) + " instead of " + std::to_string(a->want[(size_t) x]));
                break;
            }
        }
    }
}

void one_call(Call& c, int th, size_t i, bool solo) {
    std::string err;
    int64_t f0 = fired();
    size_t np = D->prints.size(), no = D->ops.size();
    if (solo) {
        sim::g->n_stderr = 0;
        memset(sim::g->stderr_text, 0, sizeof sim::g->stderr_text);
    }
    c.returned = false;
    try {
        c.fn->call(c.args.data());
        c.ok = true;
    } catch (std::exception& e) {
        c.ok = false;
        err = e.what();
    }
    sim::Quiet q;
    c.returned = true;
    S()->calls++;
    mix(c.ok);
    std::string w = "thread " + std::to_string(th) + ", call " + std::to_string(i + 1) + " of " + c.name + ": ";
    if (!c.ok) {
        // what a failed call left in its stream is not carried out any more
        for (size_t x = no; x < D->ops.size(); x++)
            if (D->ops[x]->thread == sim::self()) D->ops[x]->done = true;
        S()->failed++;
        bool cfg = (*g_plan).value("devices", 1) == 0 || (*g_plan).value("kpath", "") == "/simroot/nowhere" || !(*g_plan).value("damage", json::object()).empty();
        if (fired() == f0 && !cfg) {
            bool lim = err.find("out of device memory") != std::string::npos || err.find("too many streams") != std::string::npos;
            bad(lim ? "E02" : "E01", lim ? "exhausted" : "refused", w + "fails although nothing went wrong: " + err);
        }
    } else {
        if ((*g_plan).value("devices", 1) == 0 && c.fn->kernels) bad("E01", "no_device", w + "succeeds without a device");
        // nothing may be running any more
        if (solo && pending(no)) bad("E01", "still_running", w + "returns while the device still works for it");
        if (solo) {
            std::string text(sim::g->stderr_text, strnlen(sim::g->stderr_text, sizeof sim::g->stderr_text));
            size_t pos = 0;
            for (size_t k = np; k < D->prints.size() && !fired(); k++) {
                size_t p = text.find(D->prints[k], pos);
                if (p == std::string::npos) {
                    if (text.size() + 200 < sizeof sim::g->stderr_text) bad("E01", "print_lost", w + "the kernel printed \"" + D->prints[k] + "\", which is not shown");
                    break;
                }
                pos = p + 1;
            }
        }
    }
    if (solo || !c.ok) judge(c, th, i);
}

void thread_body(void*, int idx) {
    auto& v = g_calls[(size_t) idx];
    for (size_t i = 0; i < v.size(); i++) one_call(v[i], idx, i, false);
}

struct Live {
    size_t mem, streams;
    int kernels;
};
Live live() { return {D->mem.size(), D->streams.size(), D->live_kernels}; }

void child() {
    const json& p = *g_plan;
    D = new Dev;
    D->rng = sim::Rng(p.value("devseed", (uint64_t) 1));
    for (auto& f : p["api_faults"]) D->faults.push_back({f["nth"].get<uint64_t>(), ""});
    auto& th = p["threads"];
    int rounds = th.size() == 1 ? p.value("rounds", 1) : 1;
    Live prev{};
    for (int round = 0; round < rounds; round++) {
        {
            sim::Quiet q;
            g_calls.clear();
            g_calls.resize(th.size());
            std::map<std::string, Arr*> shared;
            for (size_t t = 0; t < th.size(); t++) {
                g_calls[t].resize(th[t].size());
                for (size_t i = 0; i < th[t].size(); i++) prepare(g_calls[t][i], th[t][i], shared);
            }
            for (size_t t = 0; t < th.size(); t++)
                for (size_t i = 0; i < th[t].size(); i++) fill(g_calls[t][i], th[t][i]);
            for (size_t t = 0; t < th.size(); t++)
                for (size_t i = 0; i < th[t].size(); i++) {
                    compute(g_calls[t][i], true);
                    if (!g_calls[t][i].fn->call) {
                        bad("E01", "no_code", g_calls[t][i].name + ": " + g_calls[t][i].fn->error);
                        S()->done = 1;
                        return;
                    }
                }
            for (size_t t = 0; t < th.size(); t++)
                for (size_t i = 0; i < th[t].size(); i++) finish_fill(g_calls[t][i], th[t][i]);
        }
        if (th.size() == 1) {
            for (size_t i = 0; i < g_calls[0].size(); i++) one_call(g_calls[0][i], 0, i, true);
        } else {
            sim::run_threads(thread_body, nullptr, (int) th.size());
        }
        sim::Quiet q;
        bool all = true;
        for (auto& v : g_calls)
            for (auto& c : v) all = all && c.ok;
        if (th.size() > 1) {
            if (all) // arrays worked on by several threads
                for (auto& v : g_calls)
                    for (auto& c : v)
                        for (auto& [n, a] : c.arr) a->shared = false;
            for (size_t t = 0; t < g_calls.size(); t++)
                for (size_t i = 0; i < g_calls[t].size(); i++) judge(g_calls[t][i], (int) t, i);
            if (all && pending()) bad("E01", "still_running", "work is left on the device after every call returned");
        }
        Live l = live();
        if (all && round >= 1 && !fired() && (l.mem > prev.mem || l.streams > prev.streams || l.kernels > prev.kernels))
            bad("E02", "leak",
                "the same calls once more leave behind more on the device: memory blocks " + std::to_string(prev.mem) + " -> " + std::to_string(l.mem) + ", streams " +
                    std::to_string(prev.streams) + " -> " + std::to_string(l.streams) + ", kernels " + std::to_string(prev.kernels) + " -> " + std::to_string(l.kernels));
        prev = l;
        for (auto& b : D->host) sim::raw(SYS_munmap, (long) b.base, (long) (b.len + PAGE));
        D->host.clear();
        if (S()->n_bad) break;
    }
    S()->done = 1;
}
} // namespace

class EtHarness : public Harness {
public:
    json gen(const std::string& prop, uint64_t seed) override {
        sim::Rng r(seed * 1000003 + 211);
        json p;
        p["prop"] = prop;
        p["seed"] = seed;
        bool life = prop == "E02";
        int threads = r.chance(life ? 2 : 1, 4) ? 2 + (int) r.below(2) : 1;
        p["sched"] = gen_sched(r, threads);
        p["devseed"] = r.next() >> 1;
        p["eager"] = r.below(8);
        p["rounds"] = 1 + (int) r.below(4);
        if (threads == 1 && life) p["rounds"] = 2 + (int) r.below(4);
        static const char* modes[] = {"", "", "sys_emu", "device", "bogus", "DEVICE"};
        p["mode"] = modes[r.below(6)];
        p["emu"] = r.chance(1, 2) ? 31 : (int) r.below(32);
        p["devices"] = r.chance(1, 40) ? 0 : 1 + (int) r.below(2);
        p["kpath"] = r.chance(1, 3) ? "/simroot/alt" : r.chance(1, 12) ? "/simroot/nowhere" : "";
        json th = json::array();
        bool shared = threads > 1 && r.chance(1, 2);
        int64_t M = r.range(1, 6), N = r.range(1, 6);
        uint64_t need = 0;
        for (int t = 0; t < threads; t++) {
            json calls = json::array();
            int n = 1 + (int) r.below(threads > 1 ? 2 : 4);
            for (int i = 0; i < n; i++) {
                json c;
                const EtFn& f = et_fns[r.below((uint64_t) et_fn_n)];
                c["fn"] = f.name;
                json v;
                auto dim = [&] { return r.chance(1, 12) ? r.range(10, 40) : r.range(1, 7); };
                if (shared && i == 0) {
                    c["fn"] = "g_view";
                    c["shared"] = true;
                    v = {{"M", M}, {"N", N}, {"K", r.range(1, 6)}, {"LC", threads * N}, {"oc", t * N}};
                    v["LA"] = v["K"];
                    v["LB"] = N;
                    v["oa"] = 0;
                    v["ob"] = 0;
                } else {
                    json spec = json::parse(f.spec);
                    for (auto& a : spec["args"]) {
                        std::string an = a[0];
                        if (a[1] == "i") v[an] = an == "NB" || an == "T" ? r.range(1, 4) : an[0] == 'o' ? r.range(0, 9) : dim();
                        if (a[1] == "f") v[an] = r.chance(1, 4) ? 0.0 : (double) r.range(-4, 4) / 2;
                    }
                    if (std::string(f.name) == "g_view") {
                        v["LA"] = v["K"].get<int64_t>() + (int64_t) r.below(5);
                        v["LB"] = v["N"].get<int64_t>() + (int64_t) r.below(5);
                        v["LC"] = v["N"].get<int64_t>() + (int64_t) r.below(5);
                    }
                }
                c["v"] = v;
                c["data"] = r.next() >> 1;
                c["undef"] = !c.value("shared", false) && r.chance(1, 2);
                calls.push_back(c);
            }
            th.push_back(calls);
            need += 1;
        }
        p["threads"] = th;
        p["faults"] = json::array();
        p["api_faults"] = json::array();
        int what = (int) r.below(4);
        if (what >= 2) {
            int n = 1 + (int) r.below(3);
            for (int i = 0; i < n; i++) {
                if (r.chance(2, 3)) p["api_faults"].push_back({{"nth", 1 + r.below(r.chance(1, 3) ? 8 : 80)}});
                else {
                    static const char* ek[] = {"enoent", "eio", "eacces", "emfile"};
                    switch (r.below(4)) {
                        case 0: p["faults"].push_back({{"kind", ek[r.below(4)]}, {"op", "open_read"}, {"nth", 1 + r.below(6)}}); break;
                        case 1: p["faults"].push_back({{"kind", r.chance(1, 2) ? "eio" : "eof"}, {"op", "read"}, {"nth", 1 + r.below(12)}}); break;
                        case 2: p["faults"].push_back({{"kind", r.chance(1, 2) ? "short" : "eintr"}, {"op", "read"}, {"nth", 1 + r.below(12)}, {"arg", 1 + r.below(500)}}); break;
                        case 3: p["faults"].push_back({{"kind", ek[r.below(3)]}, {"op", "stat"}, {"nth", 1 + r.below(8)}}); break;
                    }
                }
            }
        } else if (r.chance(1, 2) && p["devices"] != 0 && p["kpath"] != "/simroot/nowhere") {
            // enough for what runs at the same time, not for what earlier calls left behind
            p["capacity"] = (uint64_t) threads * (9u << 20);
            p["max_streams"] = threads * 2;
        }
        p["damage"] = json::object();
        if (!p.contains("capacity") && r.chance(1, 12) && et_kernel_n) {
            static const char* how[] = {"missing", "empty", "truncated", "dir"};
            p["damage"] = {{"kernel", et_kernels[r.below((uint64_t) et_kernel_n)].name}, {"how", how[r.below(4)]}};
        }
        p["pad"] = r.chance(1, 3) ? 20000 + r.below(60000) : r.below(2000);
        return p;
    }

    void execute(const json& plan, Result& r) override {
        reset_scratch();
        g_scratch = scratch;
        g_plan = &plan;
        for (auto* d : {"out", "alt", "emu"}) fs::create_directories(scratch + "/" + d);
        const char* emu[5] = {BOOTROM_TRAMPOLINE_TO_BL2_ELF, BL2_ELF, MACHINE_MINION_ELF, MASTER_MINION_ELF, WORKER_MINION_ELF};
        for (int i = 0; i < 5; i++)
            if (plan.value("emu", 31) >> i & 1) std::ofstream(scratch + std::string(emu[i]).substr(8)) << "x";
        for (int i = 0; i < et_kernel_n; i++)
            for (auto* d : {"out", "alt"}) {
                std::string n = et_kernels[i].name, file = scratch + "/" + d + "/" + n + ".elf", c = kernel_file(n, d, hash_str(n + d), plan.value("pad", 100));
                if (plan["damage"].value("kernel", "") == n) {
                    std::string how = plan["damage"]["how"];
                    if (how == "missing") continue;
                    if (how == "dir") {
                        fs::create_directories(file);
                        continue;
                    }
                    c = how == "empty" ? "" : c.substr(0, 12);
                }
                std::ofstream(file, std::ios::binary) << c;
            }
        SessionSpec spec;
        spec.sched = sched_from(plan["sched"], spec.list);
        spec.faults = faults_from(plan["faults"]);
        if (getenv("SIM_DEBUG")) spec.env["SIM_DEBUG"] = "1";
        if (!plan.value("mode", "").empty()) spec.env["DOCC_RT_ET_MODE"] = plan["mode"];
        if (!plan.value("kpath", "").empty()) spec.env["DOCC_ET_KERNEL_PATH"] = plan["kpath"];
        spec.child = child;
        memset(S(), 0, sizeof(Seen));
        SessionOut o = session(spec, r);
        if (!r.error.empty()) return;
        auto* g = sim::g;
        Seen* s = S();
        std::string prop = plan["prop"];
        if (g->n_escape) r.add("E01", "escape", std::string("touches files elsewhere: ") + g->escape);
        for (uint32_t i = 0; i < s->n_bad; i++) r.add(s->bad[i].prop, s->bad[i].cls, s->bad[i].msg);
        if (!s->n_bad && (o.timed_out || g->verdict || o.signaled() || o.code() != 0 || !s->done))
            r.add(o.signaled() ? "E01" : prop, o.signaled() ? "memory" : "killed", std::string(s->where[0] ? s->where : "in the program") + ": " + o.describe() + " " + g->msg + std::string(g->stderr_text).substr(0, 200));
        r.mix(s->hash);
        r.mix(g->loghash);
        r.nontrivial = s->kernels > 0;
        r.count("calls", s->calls);
        r.count("calls_failed", s->failed);
        r.count("device_api_calls", s->api);
        r.count("kernels_run", s->kernels);
        r.count("transfers", s->h2d + s->d2h);
        r.count("device_opened", s->opens);
        r.count("kernel_prints", s->prints);
        r.count("host_products", s->hostgemm);
        r.count("ran_before_earlier_work", s->reordered);
        if (s->api_fired) r.count("fault:device_api_error", s->api_fired);
        if (plan.value("devices", 1) == 0) r.count("fault:no_device");
        if (!plan["damage"].empty()) r.count("fault:kernel_file_" + plan["damage"]["how"].get<std::string>());
        if (plan.contains("capacity")) r.count("fault:device_memory_limit");
        r.sched = sched_recorded(plan["sched"]);
    }
};

int main(int argc, char** argv) {
    EtHarness h;
    return harness_main(argc, argv, h);
}
