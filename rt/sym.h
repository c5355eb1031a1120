// Harness interface. Under symex the functions are implemented by the
// engine; in a native build (replay) by native_rt.cpp, which feeds recorded
// values.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
// A fresh symbolic w-bit value.
uint64_t sym_bits(unsigned w, const char* name);
// One concrete value in [0, n); every value is explored.
uint64_t sym_choice(uint64_t n, const char* name);
void sym_assume(int cond);
// The property: must be true for all values on this path.
void sym_check(int cond, const char* msg);
// Reachability marker (vacuity guard).
void sym_reach(const char* label);
// Split on all feasible values of v.
uint64_t sym_concretize(uint64_t v);
// Recorded in path traces and compared with the native execution.
void sym_observe(const char* name, uint64_t v);
// While on, a failed assert()/abort/throw ends the path as "rejected".
void sym_allow_abort(int on);
uint64_t sym_param(const char* name, uint64_t dflt);
int sym_is_engine(void);
void sym_end_path(void);
}

static inline uint8_t sym_u8(const char* n) { return (uint8_t)sym_bits(8, n); }
static inline uint16_t sym_u16(const char* n) { return (uint16_t)sym_bits(16, n); }
static inline uint32_t sym_u32(const char* n) { return (uint32_t)sym_bits(32, n); }
static inline uint64_t sym_u64(const char* n) { return sym_bits(64, n); }
static inline bool sym_bool(const char* n) { return sym_bits(1, n) != 0; }
static inline int32_t sym_i32(const char* n) { return (int32_t)sym_bits(32, n); }

#ifdef SYM_NATIVE
struct SymEntry
{
	SymEntry(const char* name, void (*fn)());
};
#define HARNESS(name)                                \
	extern "C" void name();                          \
	static SymEntry sym_entry_##name{#name, &name};  \
	extern "C" __attribute__((noinline)) void name()
#else
#define HARNESS(name) extern "C" __attribute__((noinline, used)) void name()
#endif
