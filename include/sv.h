// Harness interface of the symbolic executor (also implemented natively for replay, see runtime/native.cpp).
#pragma once
#include <cstdint>
extern "C" {
double sv_real(const char* name, double lo, double hi);
float sv_realf(const char* name, float lo, float hi);
int32_t sv_i32(const char* name, int32_t lo, int32_t hi);
int64_t sv_i64(const char* name, int64_t lo, int64_t hi);
uint32_t sv_u32(const char* name, uint32_t lo, uint32_t hi);
uint64_t sv_u64(const char* name, uint64_t lo, uint64_t hi);
uint16_t sv_u16(const char* name, uint16_t lo, uint16_t hi);
uint8_t sv_u8(const char* name, uint8_t lo, uint8_t hi);
bool sv_bool(const char* name);
int sv_choice(const char* name, int n);          // one path per value 0..n-1
void sv_square(double v, double rhs);            // v is an input with v*v == rhs
void sv_assume(bool c);
void sv_check(bool c, const char* msg);
void sv_eq(double a, double b, const char* msg); // equal (both NaN counts as equal)
void sv_tol(double tol);                         // native comparison tolerance of sv_eq
void sv_fail(const char* msg);
void sv_cover(const char* label);
bool sv_split(bool c);                           // path split
void sv_print(const char* label, double v);
int sv_symbolic();                               // 1 under the executor, 0 natively
}
