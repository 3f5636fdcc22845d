#pragma once
#include "device-layer/IDeviceLayer.h"
#include "runtime/Types.h"
namespace rt {
class IRuntime;
using RuntimePtr = std::unique_ptr<IRuntime>;
constexpr uint32_t kCacheLineSize = 64;

class IRuntime {
public:
    virtual ~IRuntime() = default;
    virtual std::vector<DeviceId> getDevices() = 0;
    virtual LoadCodeResult loadCode(StreamId stream, const std::byte* elf, size_t elf_size) = 0;
    virtual void unloadCode(KernelId kernel) = 0;
    virtual std::byte* mallocDevice(DeviceId device, size_t size, uint32_t alignment = kCacheLineSize) = 0;
    virtual void freeDevice(DeviceId device, std::byte* buffer) = 0;
    virtual StreamId createStream(DeviceId device) = 0;
    virtual void destroyStream(StreamId stream) = 0;
    virtual EventId kernelLaunch(StreamId stream, KernelId kernel, const std::byte* args, size_t size, const KernelLaunchOptions& options) = 0;
    virtual EventId memcpyHostToDevice(StreamId stream, const std::byte* src, std::byte* dst, size_t size, bool barrier = false) = 0;
    virtual EventId memcpyDeviceToHost(StreamId stream, const std::byte* src, std::byte* dst, size_t size, bool barrier = true) = 0;
    virtual bool waitForEvent(EventId event, std::chrono::seconds timeout = std::chrono::hours(24)) = 0;
    virtual bool waitForStream(StreamId stream, std::chrono::seconds timeout = std::chrono::hours(24)) = 0;
    static RuntimePtr create(std::shared_ptr<dev::IDeviceLayer> const& deviceLayer);
};
} // namespace rt
