prop='H02'
edits=[('amtl/am-hashtable.h', '''        return (nelements_ + ndeleted_) > ((capacity_ / 2) + (capacity_ / 4));''', '''        return (nelements_ + ndeleted_) > ((capacity_ / 2) + (capacity_ / 4) + (capacity_ >> 14) * 4096);''')]
needs='''a table of sixteen thousand entries or more'''
breaks='''A large table fills up completely, and the next search for an absent key never ends.'''
demo='''
#include <stdint.h>
#include <stdlib.h>
#include <signal.h>
#include <unistd.h>
#include <string>
#include <amtl/am-allocator-policies.h>
#include <amtl/am-hashmap.h>
struct Policy {
    static uint32_t hash(int k) { return ke::HashInt32(k); }
    static bool matches(int a, int b) { return a == b; }
};
static void late(int) { _exit(1); }
int main() {
    signal(SIGALRM, late);
    alarm(20);
    ke::HashMap<int, int, Policy> m;
    if (!m.init(16384)) return 98;
    for (int i = 0; i < 16384; i++) {
        auto p = m.findForAdd(i);
        if (p.found()) return 1;
        if (!m.add(p, i, i)) return 98;
    }
    for (int i = 0; i < 100; i++)
        if (m.find(i + 1000000).found()) return 1;
    return 0;
}
'''
