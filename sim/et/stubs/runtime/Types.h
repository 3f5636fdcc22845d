// Stand-in for the accelerator's host runtime (declarations the code under test uses).
#pragma once
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace rt {
enum class DeviceId : int {};
enum class StreamId : int {};
enum class EventId : uint16_t {};
enum class KernelId : int {};

class Exception : public std::runtime_error {
public:
    using std::runtime_error::runtime_error;
};

struct LoadCodeResult {
    EventId event_;
    KernelId kernel_;
    std::byte* loadAddress_;
};

struct KernelLaunchOptions {
    uint64_t shireMask_ = 0xFFFFFFFFull;
    bool barrier_ = true;
    bool flushL3_ = false;
    bool tracing_ = false;
    uint64_t trace_ = 0;
    uint32_t traceSize_ = 0;
    uint64_t traceShires_ = 0, traceThreads_ = 0;
    void setShireMask(uint64_t m) { shireMask_ = m; }
    void setBarrier(bool b) { barrier_ = b; }
    void setFlushL3(bool b) { flushL3_ = b; }
    void setUserTracing(uint64_t buf, uint32_t size, uint32_t /*threshold*/, uint64_t shires, uint64_t threads, uint32_t /*events*/, uint32_t /*filter*/) {
        tracing_ = true;
        trace_ = buf;
        traceSize_ = size;
        traceShires_ = shires;
        traceThreads_ = threads;
    }
};
} // namespace rt
