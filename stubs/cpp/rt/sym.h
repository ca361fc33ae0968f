// Harness interface.  In the symbolic run these are intrinsics of the executor;
// natively (replay) they are implemented in sym_native.cc from an input file.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_param(const char* name);                       // concrete harness parameter
void sym_bytes(void* dst, uint64_t n, const char* name);    // n symbolic bytes, one big-endian variable
void sym_bytes_i(void* dst, uint64_t n, const char* name, uint64_t index);
uint64_t sym_u64(const char* name);
void sym_assume(uint64_t cond);
void sym_uf(const char* name, const void* in, uint64_t n, void* out, uint64_t m);  // pure unknown function
const uint8_t* sym_ufbytes(const char* name, const void* in, uint64_t n, uint64_t max);  // pointer to max bytes uf(in, idx)
void sym_event(const char* name, const void* data, uint64_t n);   // append to the observable trace
void sym_eventv(const char* name, const void* data, uint64_t n, const void* var, uint64_t varlen);
void sym_fresh(const char* name, void* out, uint64_t n);          // host-chosen result, name#k
void sym_fresh_reset();                                    // restart the numbering of host-chosen results
void sym_out(const char* name, const void* p, uint64_t n);        // observable result
void sym_out_u64(const char* name, uint64_t v);
void sym_check(uint64_t cond, const char* label);                 // assertion
void sym_check_u64(uint64_t a, uint64_t b, const char* label);    // assertion a == b
void sym_reach(const char* label);
void sym_interfere(uint64_t on);              // the code from here on belongs to another thread
void sym_guard(const void* p, uint64_t n);   // this object may only be touched while its mutex is held
}
