prop='R04'
edits=[('amtl/am-refcounting-threadsafe.h','''        unlock(other);
        if (value)
            value->Release();''','''        if (value)
            value->Release();
        unlock(other);''')]
needs='the value being replaced is dropped for the last time by the slot, and its destructor reads the slot'
breaks='Replacing drops the old value while the slot is still held: a destructor that looks at the slot never gets it.'
demo='''
#include <amtl/am-refcounting-threadsafe.h>
#include <unistd.h>
struct N;
static ke::AtomicRef<N>* gslot;
static int seen = -1;
struct N : public ke::RefcountedThreadsafe<N> {
    int id;
    explicit N(int i) : id(i) {}
    ~N() { if (id == 1) { ke::RefPtr<N> p(gslot->get()); seen = p ? p->id : 0; } }
};
int main() {
    alarm(5);
    ke::AtomicRef<N> slot(new N(1));
    gslot = &slot;
    slot = new N(2);
    if (seen != 2) return 1;
    return 0;
}
'''
