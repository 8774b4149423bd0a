// Harness API. Under the symbolic engine these are intrinsics; natively they
// are provided by sx_native.cpp, which replays recorded inputs.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint64_t sx_u64(const char*);
std::uint32_t sx_u32(const char*);
std::uint16_t sx_u16(const char*);
std::uint8_t  sx_u8(const char*);
std::uint64_t sx_range(const char*, std::uint64_t lo, std::uint64_t hi); // inclusive
void sx_assume(bool);
void sx_check(bool, const char*);
[[noreturn]] void sx_fail(const char*);
void sx_reach(const char*);
std::uint64_t sx_conc(std::uint64_t);
void sx_obs(std::uint64_t);
void sx_expect_abort(int);
int  sx_symbolic();
int  sx_is_symbolic(std::uint64_t);
[[noreturn]] void sx_stop();
void sx_dump(const char*, std::uint64_t);
}
