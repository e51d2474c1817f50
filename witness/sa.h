// Vocabulary of the witness units: none of these has a body, the analyser gives them meaning.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <new>
extern "C" {
void sa_assert(bool holds, const char* rule);     // obligation
void sa_assume(bool holds);                       // restricts the states considered
void sa_reach(const char* label);                 // must be reached by some state
bool sa_bool();
uint8_t sa_u8();
uint16_t sa_u16();
uint32_t sa_u32();
uint64_t sa_u64();
int sa_int();
size_t sa_size();                                 // any size up to 2^46
void* sa_block(size_t bytes, size_t k, size_t stride);   // live memory, arbitrary content, element k tracked
char* sa_str(size_t len, size_t k);               // NUL-terminated string of exactly len characters, byte k tracked
void sa_clean(const char* rule);                  // every heap block freed, every payload object destroyed
void sa_malloc_ok();                              // from here malloc does not fail
void sa_pow2(size_t v);                           // v is a power of two
int64_t sa_rc(const void* obj);                   // references counted on a CountedObj (ghost)
bool sa_alive(const void* p);                     // memory still valid
uint64_t sa_event(const char* name);              // number of times an event happened (constant per state)
void sa_consume(uint64_t v);
void sa_opaque(void* p);                           // ignored
}
// payload: every member is a typestate event
struct Obj {
    Obj();
    explicit Obj(uint64_t tok);
    Obj(const Obj&);
    Obj(Obj&&);
    Obj& operator=(const Obj&);
    Obj& operator=(Obj&&);
    ~Obj();
    bool operator==(const Obj&) const;
    bool operator!=(const Obj&) const;
    bool operator<(const Obj&) const;
    uint64_t raw_;
};
extern "C" uint64_t sa_tok(const Obj*);           // identity of the value held; the object must be alive
static const uint64_t MOVED = 0xffffffffffffffffull;
// payload that can only be moved
struct MObj {
    MObj();
    explicit MObj(uint64_t tok);
    MObj(MObj&&);
    MObj& operator=(MObj&&);
    ~MObj();
    uint64_t raw_;
};
extern "C" uint64_t sa_mtok(const MObj*);
// an object with an externally observed reference count
struct Counted {
    void AddRef();
    void Release();
    int payload;
};
struct CountedDerived : public Counted { int more; };
extern "C" Counted* sa_counted();                 // arbitrary object holding at least one foreign reference, or about to be shared
extern "C" CountedDerived* sa_counted_derived();
