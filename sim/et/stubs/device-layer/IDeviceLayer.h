#pragma once
#include <memory>
#include "runtime/Types.h"
#include "sw-sysemu/SysEmuOptions.h"
namespace dev {
class IDeviceLayer {
public:
    virtual ~IDeviceLayer() = default;
    static std::unique_ptr<IDeviceLayer> createSysEmuDeviceLayer(const emu::SysEmuOptions& options, uint8_t numDevices = 1);
    static std::unique_ptr<IDeviceLayer> createPcieDeviceLayer(bool enableMasterMinion = true, bool enableServiceProcessor = false);
};
} // namespace dev
