// Flags<E> and the operators of KE_DEFINE_ENUM_OPERATORS are set algebra on the bits.
#include "sa.h"
#include <amtl/am-enum.h>
#include <amtl/am-flags.h>

#define T_ENUM(N, U) \
    enum class N : U {}; \
    KE_DEFINE_ENUM_OPERATORS(N)
T_ENUM(E8, uint8_t)
T_ENUM(S8, int8_t)
T_ENUM(E16, uint16_t)
T_ENUM(S16, int16_t)
T_ENUM(E32, uint32_t)
T_ENUM(S32, int32_t)
T_ENUM(E64, uint64_t)
T_ENUM(S64, int64_t)
enum class C8 : uint8_t {};
enum class C32 : int32_t {};
enum class C64 : uint64_t {};
KE_DEFINE_ENUM_COMPARATORS(C8, uint8_t)
KE_DEFINE_ENUM_COMPARATORS(C32, int32_t)
KE_DEFINE_ENUM_COMPARATORS(C64, uint64_t)
enum Plain : unsigned { };
KE_DEFINE_ENUM_OPERATORS(Plain)

template <typename E, typename U>
static void flags(U a, U b) {
    typedef ke::Flags<E> F;
    F x(static_cast<E>(a)), y(static_cast<E>(b));
    sa_assert(x.bits() == a && x.get() == static_cast<E>(a), "bits-kept");
    sa_assert((x + y).bits() == U(a | b), "plus-is-union");
    sa_assert((x | y).bits() == U(a | b), "or-is-union");
    sa_assert((x - y).bits() == U(a & ~b), "minus-is-difference");
    sa_assert((x & y).bits() == U(a & b), "and-is-intersection");
    sa_assert((x ^ y).bits() == U(a ^ b), "xor-is-symmetric-difference");
    sa_assert((x == y) == (a == b), "equality");
    sa_assert((x != y) == (a != b), "inequality");
    sa_assert(bool(x) == (a != 0), "truth");
    sa_assert(!x == (a == 0), "negation");
    sa_assert(F().bits() == 0 && !bool(F()), "default-empty");
    { F z(x); F& r = (z += y); sa_assert(z.bits() == U(a | b) && &r == &z, "plus-assign"); }
    { F z(x); F& r = (z |= y); sa_assert(z.bits() == U(a | b) && &r == &z, "or-assign"); }
    { F z(x); F& r = (z -= y); sa_assert(z.bits() == U(a & ~b) && &r == &z, "minus-assign"); }
    { F z(x); F& r = (z &= y); sa_assert(z.bits() == U(a & b) && &r == &z, "and-assign"); }
    { F z(x); F& r = (z ^= y); sa_assert(z.bits() == U(a ^ b) && &r == &z, "xor-assign"); }
    { F z(x); F& r = (z = y); sa_assert(z.bits() == b && &r == &z && y.bits() == b, "assign"); }
    { F z(x); z += z; sa_assert(z.bits() == a, "plus-assign-self"); }
    { F z(x); z -= z; sa_assert(z.bits() == 0, "minus-assign-self"); }
    { F z(x); z ^= z; sa_assert(z.bits() == 0, "xor-assign-self"); }
    { F z(x); z &= z; sa_assert(z.bits() == a, "and-assign-self"); }
    sa_assert(x.bits() == a && y.bits() == b, "operands-unchanged");
    // mixed with the plain enum
    E e = static_cast<E>(b);
    sa_assert((x + e).bits() == U(a | b) && (x - e).bits() == U(a & ~b) && (x & e).bits() == U(a & b) && (x ^ e).bits() == U(a ^ b) && (x == e) == (a == b), "mixed-with-enum");
    sa_reach("flags");
}
template <typename E, typename U>
static void ops(U a, U b) {
    E x = static_cast<E>(a), y = static_cast<E>(b);
    sa_assert(U(x | y) == U(a | b), "enum-or");
    sa_assert(U(x & y) == U(a & b), "enum-and");
    sa_assert(U(x ^ y) == U(a ^ b), "enum-xor");
    sa_assert(U(~x) == U(~a), "enum-complement");
    sa_assert(!x == (a == 0), "enum-negation");
    { E z = x; E& r = (z |= y); sa_assert(U(z) == U(a | b) && &r == &z, "enum-or-assign"); }
    { E z = x; E& r = (z &= y); sa_assert(U(z) == U(a & b) && &r == &z, "enum-and-assign"); }
    { E z = x; E& r = (z ^= y); sa_assert(U(z) == U(a ^ b) && &r == &z, "enum-xor-assign"); }
    { E z = x; z ^= z; sa_assert(U(z) == 0, "enum-xor-assign-self"); }
    { E z = x; z |= z; sa_assert(U(z) == a, "enum-or-assign-self"); }
    sa_reach("ops");
}
template <typename E, typename U>
static void cmp(U a, U b) {
    E x = static_cast<E>(a);
    sa_assert((x == b) == (a == b) && (b == x) == (a == b) && (x != b) == (a != b) && (b != x) == (a != b), "enum-compares-with-integer");
    sa_reach("cmp");
}
extern "C" {
void w_f_u8(uint8_t a, uint8_t b) { flags<E8>(a, b); }
void w_f_s8(int8_t a, int8_t b) { flags<S8>(a, b); }
void w_f_u16(uint16_t a, uint16_t b) { flags<E16>(a, b); }
void w_f_s16(int16_t a, int16_t b) { flags<S16>(a, b); }
void w_f_u32(uint32_t a, uint32_t b) { flags<E32>(a, b); }
void w_f_s32(int32_t a, int32_t b) { flags<S32>(a, b); }
void w_f_u64(uint64_t a, uint64_t b) { flags<E64>(a, b); }
void w_f_s64(int64_t a, int64_t b) { flags<S64>(a, b); }
void w_f_noops(uint32_t a, uint32_t b) { flags<C32>(int32_t(a), int32_t(b)); }
void w_o_u8(uint8_t a, uint8_t b) { ops<E8>(a, b); }
void w_o_s8(int8_t a, int8_t b) { ops<S8>(a, b); }
void w_o_u16(uint16_t a, uint16_t b) { ops<E16>(a, b); }
void w_o_s16(int16_t a, int16_t b) { ops<S16>(a, b); }
void w_o_u32(uint32_t a, uint32_t b) { ops<E32>(a, b); }
void w_o_s32(int32_t a, int32_t b) { ops<S32>(a, b); }
void w_o_u64(uint64_t a, uint64_t b) { ops<E64>(a, b); }
void w_o_s64(int64_t a, int64_t b) { ops<S64>(a, b); }
void w_o_plain(unsigned a, unsigned b) { ops<Plain>(a, b); }
void w_c_u8(uint8_t a, uint8_t b) { cmp<C8>(a, b); }
void w_c_s32(int32_t a, int32_t b) { cmp<C32>(a, b); }
void w_c_u64(uint64_t a, uint64_t b) { cmp<C64>(a, b); }
}
