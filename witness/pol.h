// An allocator policy with identity: memory is tied to the policy object it came from.
#pragma once
#include "sa.h"
extern "C" {
void* pol_malloc(uint64_t id, size_t n);          // fresh block owned by policy id, or null
void pol_free(uint64_t id, void* p);              // p must be null or a block owned by policy id
uint64_t sa_lastowner();                           // policy the last block came from
void ev_oom(); void ev_overflow();
void sa_witness(size_t k, size_t stride);         // element k of every array allocated from here on is tracked
uint64_t sa_elem(const void* p, size_t off);      // 64-bit word
}
struct Pol {
    uint64_t id;
    Pol() : id(0) {}
    explicit Pol(uint64_t i) : id(i) {}
    Pol(const Pol&) = default; Pol& operator=(const Pol&) = default;
    void* am_malloc(size_t n) { return pol_malloc(id, n); }
    void am_free(void* p) { pol_free(id, p); }
    void reportOutOfMemory() { ev_oom(); }
    void reportAllocationOverflow() { ev_overflow(); }
};
// same, default constructible
struct DPol : Pol { DPol() : Pol(1) {} };
extern "C" void sa_selfhash(void* table);        // payloads of untracked slots are their own hash
