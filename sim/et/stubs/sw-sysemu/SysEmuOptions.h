#pragma once
#include <cstdint>
#include <string>
namespace emu {
struct SysEmuOptions {
    std::string bootromTrampolineToBL2ElfPath, spBL2ElfPath, machineMinionElfPath, masterMinionElfPath, workerMinionElfPath, executablePath, runDir;
    uint64_t maxCycles = 0;
    uint64_t minionShiresMask = 0;
    std::string puUart0Path, puUart1Path, spUart0Path, spUart1Path;
    bool startGdb = false;
};
} // namespace emu
