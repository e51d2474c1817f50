prop='''Q02'''
edits=[('amtl/am-priority-queue.h', '        return (at - 1) / 2;', '        return (at > 7 ? at : at - 1) / 2;')]
needs='''a queue of more than eight elements, the last one better than its real parent'''
breaks='''Elements beyond the eighth are compared with the wrong parent, so the queue pops out of order.'''
demo='''
#include <amtl/am-priority-queue.h>
int main() {
    for (int seed = 1; seed < 200; seed++) {
        ke::PriorityQueue<int> q;
        unsigned x = seed;
        for (int i = 0; i < 12; i++) { x = x * 1103515245u + 12345u; q.add(int(x >> 16) % 100); }
        int last = -1;
        while (!q.empty()) { int v = q.pop(); if (v < last) return 1; last = v; }
    }
    return 0;
}
'''
