// AtomicRef: sa_slot(&slot, other): the word is shared with other threads and holds null, one of two
// unknown objects or `other`, possibly marked, whenever we do not hold it.
#include <assert.h>
#include <amtl/am-refcounting-threadsafe.h>
#include "sa.h"
using namespace ke;
extern "C" { void sa_slot(void* word, void* other); Counted* sa_owned(size_t k); size_t sa_ours(void* p); bool sa_held(void); }
#define DONE() do { sa_assert(!sa_held() && sa_event("take") == sa_event("give"), "given-back-exactly-once"); sa_reach("end"); } while (0)

extern "C" void w_get() {
    AtomicRef<Counted>* r = (AtomicRef<Counted>*)sa_block(sizeof(AtomicRef<Counted>), 0, 8);
    sa_slot(r, nullptr);
    Counted* p;
    {
        RefPtr<Counted> v = r->get();
        p = v.get();
        sa_assert(sa_event("take") == 1 && !sa_held(), "given-back-exactly-once");
        sa_assert(((uintptr_t)p & 1) == 0, "mark-never-leaks");
        if (p) { sa_assert(sa_ours(p) == 1 && sa_alive(p), "retained-for-caller"); sa_reach("nonnull"); }
        else sa_reach("null");
    }
    if (p) sa_assert(sa_ours(p) == 0, "retained-for-caller");
    DONE();
}
extern "C" void w_get_twice() {
    AtomicRef<Counted>* r = (AtomicRef<Counted>*)sa_block(sizeof(AtomicRef<Counted>), 0, 8);
    sa_slot(r, nullptr);
    RefPtr<Counted> v = r->get();
    RefPtr<Counted> w = r->get();
    if (v && v.get() == w.get()) sa_assert(sa_ours(v.get()) == 2, "retained-for-caller");
    else { if (v) sa_assert(sa_ours(v.get()) == 1, "retained-for-caller"); if (w) sa_assert(sa_ours(w.get()) == 1, "retained-for-caller"); }
    DONE();
}
// replacing: our own references stay ours, the slot gets one more, its old one is dropped once
extern "C" void w_assign() {
    AtomicRef<Counted>* r = (AtomicRef<Counted>*)sa_block(sizeof(AtomicRef<Counted>), 0, 8);
    Counted* o = sa_owned(1);
    sa_slot(r, o);
    *r = o;
    sa_assert(sa_event("take") == 1, "replace-is-one-exclusive-access");
    sa_assert(sa_alive(o) && sa_ours(o) == 1, "replace-balances-references");
    DONE();
}
extern "C" void w_assign_null() {
    AtomicRef<Counted>* r = (AtomicRef<Counted>*)sa_block(sizeof(AtomicRef<Counted>), 0, 8);
    Counted* o = sa_owned(1);
    sa_slot(r, o);
    *r = (Counted*)nullptr;
    sa_assert(sa_event("take") == 1, "replace-is-one-exclusive-access");
    sa_assert(sa_alive(o) && sa_ours(o) == 1, "replace-balances-references");
    DONE();
}
extern "C" void w_get_assign() {
    AtomicRef<Counted>* r = (AtomicRef<Counted>*)sa_block(sizeof(AtomicRef<Counted>), 0, 8);
    Counted* o = sa_owned(1);
    sa_slot(r, o);
    {
        RefPtr<Counted> v = r->get();
        *r = o;
        RefPtr<Counted> w = r->get();
        *r = v.get();
        if (v && v.get() != w.get() && v.get() != o) sa_assert(sa_ours(v.get()) == 1, "retained-for-caller");
    }
    sa_assert(sa_alive(o) && sa_ours(o) == 1, "replace-balances-references");
    DONE();
}
