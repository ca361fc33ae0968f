// Harness for evmzero, linked with the real translation units.
#include <cstdint>
#include <evmc/evmc.h>
#include "rt/sym.h"

extern "C" {
#include "evm_host.inc"
}
extern "C" evmc_vm_steppable* evmc_create_steppable_evmzero() noexcept;
extern "C" evmc_vm* evmc_create_evmzero() noexcept;
static evmc_vm_steppable* g_vm;
extern "C" void h_init() { g_vm = evmc_create_steppable_evmzero(); }
extern "C" void h_step() { if (!g_vm) h_init(); run_step(g_vm); }
extern "C" void h_exec() { if (!g_vm) h_init(); run_exec(g_vm->vm); }
extern "C" void h_stepexec() { if (!g_vm) h_init(); run_stepexec(g_vm); }
