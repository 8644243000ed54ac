// Contract language of gv. A contract is a function that introduces symbolic inputs (any), states its
// precondition (requires_), runs the real code and states postconditions (ensures). The same text is compiled
//  - by clang to LLVM IR, where the gv_* functions are intrinsics of the verification-condition generator, and
//  - natively (GV_NATIVE), where it replays a counterexample or searches for one.
#pragma once
#include <cstdint>
#include <type_traits>
extern "C" {
int8_t gv_any_i8(const char*); uint8_t gv_any_u8(const char*); int16_t gv_any_i16(const char*); uint16_t gv_any_u16(const char*);
int32_t gv_any_i32(const char*); uint32_t gv_any_u32(const char*); int64_t gv_any_i64(const char*); uint64_t gv_any_u64(const char*);
int64_t gv_any_range(const char*, int64_t lo, int64_t hi);
bool gv_any_bool(const char*); double gv_any_f64(const char*); float gv_any_f32(const char*);
void gv_assume(bool); void gv_assert(bool, const char* label); void gv_cover(const char* label);
}
#define GV_CONTRACT(prop, name) extern "C" void gvc_##prop##_##name()
namespace gv
{
template <typename T>
inline T any(const char* name)
{
    if constexpr (std::is_same_v<T, bool>) return gv_any_bool(name);
    else if constexpr (std::is_same_v<T, double>) return gv_any_f64(name);
    else if constexpr (std::is_same_v<T, float>) return gv_any_f32(name);
    else if constexpr (std::is_enum_v<T>) return static_cast<T>(any<std::underlying_type_t<T>>(name));
    else if constexpr (sizeof(T) == 1) { if constexpr (std::is_signed_v<T>) return (T)gv_any_i8(name); else return (T)gv_any_u8(name); }
    else if constexpr (sizeof(T) == 2) { if constexpr (std::is_signed_v<T>) return (T)gv_any_i16(name); else return (T)gv_any_u16(name); }
    else if constexpr (sizeof(T) == 4) { if constexpr (std::is_signed_v<T>) return (T)gv_any_i32(name); else return (T)gv_any_u32(name); }
    else { if constexpr (std::is_signed_v<T>) return (T)gv_any_i64(name); else return (T)gv_any_u64(name); }
}
inline void requires_(bool c) { gv_assume(c); }
inline void ensures(bool c, const char* label) { gv_assert(c, label); }
inline void cover(const char* label) { gv_cover(label); }
// eager connectives: no branches in the specification
inline bool imp(bool a, bool b) { return !a | b; }
inline bool iff(bool a, bool b) { return a == b; }
template <typename... B> inline bool all(B... b) { return (static_cast<bool>(b) & ...); }
template <typename... B> inline bool any_of(B... b) { return (static_cast<bool>(b) | ...); }
}
