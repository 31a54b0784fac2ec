// Names of types and the three storage kinds.
#ifndef HARNESS_TYPES_H
#define HARNESS_TYPES_H
#include "common.h"
namespace h {
template <class T> inline const char* tname();
#define TN(T, N) template <> inline const char* tname<T>() { return N; }
TN(uint8_t, "u8") TN(uint16_t, "u16") TN(uint32_t, "u32") TN(uint64_t, "u64") TN(int8_t, "i8") TN(int16_t, "i16") TN(int, "i32") TN(int64_t, "i64") TN(float, "f32") TN(double, "f64")
#undef TN
enum { PTR, VEC, SP };
template <class T, int K> struct St { typedef T* t; };
template <class T> struct St<T, VEC> { typedef std::vector<T> t; };
template <class T> struct St<T, SP> { typedef std::shared_ptr<T> t; };
inline const char* sname(int k) { return k == PTR ? "p" : k == VEC ? "v" : "s"; }
}
#endif
