// Hash functions: defined for every key, functions of the key alone, reading nothing but the key.
#include <assert.h>
#include "sa.h"
#include <string.h>
#include <amtl/am-hashmap.h>
using namespace ke;
static inline void i32(int32_t v) { sa_assert(HashInt32(v) == HashInt32(v), "equal-keys-hash-equally"); sa_assert(HashInteger<4>(uint32_t(v)) == HashInt32(v), "by-the-size-of-the-key"); }
static inline void i64(int64_t v) { sa_assert(HashInt64(v) == HashInt64(v), "equal-keys-hash-equally"); sa_assert(HashInteger<8>(uint64_t(v)) == HashInt64(v), "by-the-size-of-the-key");
    void* p = reinterpret_cast<void*>(uint64_t(v)); sa_assert(HashPointer(p) == HashInt64(v) && PointerPolicy<void>::hash(p) == HashInt64(v), "by-the-size-of-the-key"); }
extern "C" {
void w_int32_edges() { i32(0); i32(1); i32(-1); i32(2); i32(-2); i32(61); i32(INT32_MAX); i32(INT32_MIN); i32(INT32_MAX - 1); i32(INT32_MIN + 1); i32(0x10000); i32(0x0fffffff); i32(0x10000000); i32(-0x10000001); i32(0x7fff0000); i32(0x12345678); sa_reach("end"); }
void w_int64_edges() { i64(0); i64(1); i64(-1); i64(2); i64(-2); i64(INT64_MAX); i64(INT64_MIN); i64(INT64_MAX - 1); i64(INT64_MIN + 1); i64(0x200000000000); i64(0x7fffffff); i64(0xffffffffLL); i64(0x100000000LL); i64(0x7fff12345678LL); i64(0x555555554320LL); i64(-0x200000000001); sa_reach("end"); }
void w_int32() { int32_t v = sa_int(); uint32_t h = HashInt32(v); sa_consume(h); sa_reach("end"); }
void w_int64() { uint64_t v = sa_u64(); uint32_t h = HashInt64(int64_t(v)); sa_consume(h); sa_reach("end"); }
void w_pointer() { uint64_t v = sa_u64(); sa_consume(HashPointer(reinterpret_cast<void*>(v))); sa_reach("end"); }
void w_combine() { uint32_t a = sa_u32(), b = sa_u32(); sa_consume(HashCombine(a, b)); sa_consume(HashCombine(0xffffffffu, 0xffffffffu)); sa_consume(HashCombine(0, 0)); sa_reach("end"); }
void w_pointer_policy() { int a, b; sa_assert(PointerPolicy<int>::matches(&a, &a) && !PointerPolicy<int>::matches(&a, &b) && !PointerPolicy<int>::matches(nullptr, &b), "matches-the-same-pointer"); sa_reach("end"); }
}
// a text of exactly n bytes at the end of its block, and the same text elsewhere
static inline uint8_t byte(uint32_t i) { switch (i) { case 0: return 0; case 1: return 'a'; case 2: return 0x7f; case 3: return 0x80; default: return 0xff; } }
static inline uint8_t any() { uint32_t i = sa_u32(); sa_assume(i < 5); return byte(i); }
template <size_t N> static inline void text() {
    { char* p = new char[N]; char* q = new char[N + 5] + 3;
      for (size_t i = 0; i < N; i++) p[i] = q[i] = char(any());
      q[N] = 'z';
      uint32_t h = HashCharSequence(p, N), f = FastHashCharSequence(p, N);
      sa_assert(HashCharSequence(q, N) == h && HashCharSequence(p, N) == h, "equal-keys-hash-equally");
      sa_assert(FastHashCharSequence(q, N) == f && FastHashCharSequence(p, N) == f, "equal-keys-hash-equally");
      for (size_t cut = 0; cut <= N; cut++) {
          CharacterStreamHasher s; s.add(p, cut); s.add(q, 0); s.add(q + cut, N - cut);
          sa_assert(s.result() == h, "pieces-do-not-matter");
      }
      CharacterStreamHasher s; for (size_t i = 0; i < N; i++) s.add(p[i]);
      sa_assert(s.result() == h, "pieces-do-not-matter");
      delete[] p; delete[] (q - 3); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" {
void w_text_0() { text<0>(); }
void w_text_1() { text<1>(); }
void w_text_2() { text<2>(); }
void w_text_3() { text<3>(); }
// longer, one character arbitrary among fixed ones
void w_text_9() {
    { char* p = new char[9]; memcpy(p, "\x80\0abcd\xff" "fg", 9); uint32_t k = sa_u32(); sa_assume(k < 9); char c = char(any()); for (uint32_t i = 0; i < 9; i++) if (i == k) p[i] = c;
      char* q = new char[12]; memcpy(q + 1, p, 9); q[10] = 1;
      uint32_t h = HashCharSequence(p, 9), f = FastHashCharSequence(p, 9);
      sa_assert(HashCharSequence(q + 1, 9) == h && FastHashCharSequence(q + 1, 9) == f, "equal-keys-hash-equally");
      CharacterStreamHasher s; s.add(p, 4); s.add(p + 4, 5); sa_assert(s.result() == h, "pieces-do-not-matter");
      delete[] p; delete[] q; }
    sa_clean("no-leak"); sa_reach("end");
}
void w_nothing() { uint32_t h = HashCharSequence(nullptr, 0); CharacterStreamHasher s; s.add(nullptr, 0); sa_assert(s.result() == h && FastHashCharSequence(nullptr, 0) == FastHashCharSequence("x", 0), "equal-keys-hash-equally"); sa_reach("end"); }
}
