// Texts of any length: every byte read is inside the text.
#include <assert.h>
#include "sa.h"
#include <string.h>
#include <amtl/am-hashtable.h>
using namespace ke;
static inline char* any(size_t& n) { n = sa_size(); size_t k = sa_size(); sa_assume(n >= 1 && k < n); return static_cast<char*>(sa_block(n, k, 1)); }
extern "C" {
void w_any_sequence() { size_t n; char* p = any(n); sa_consume(HashCharSequence(p, n)); sa_reach("end"); }
void w_any_fast() { size_t n; char* p = any(n); sa_consume(FastHashCharSequence(p, n)); sa_reach("end"); }
void w_any_stream() { size_t n; char* p = any(n); CharacterStreamHasher s; s.add(p, n); sa_consume(s.result()); sa_reach("end"); }
}
