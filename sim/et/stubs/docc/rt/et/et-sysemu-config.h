#pragma once
constexpr auto BOOTROM_TRAMPOLINE_TO_BL2_ELF = "/simroot/emu/bootrom.elf";
constexpr auto BL2_ELF = "/simroot/emu/bl2.elf";
constexpr auto MASTER_MINION_ELF = "/simroot/emu/master.elf";
constexpr auto MACHINE_MINION_ELF = "/simroot/emu/machine.elf";
constexpr auto WORKER_MINION_ELF = "/simroot/emu/worker.elf";
constexpr auto SYSEMU_INSTALL_DIR = "/simroot/emu/bin";
constexpr auto KERNELS_DIR = "/simroot/emu/kernels";
