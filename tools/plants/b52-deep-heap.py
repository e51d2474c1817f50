prop='Q02'
edits=[('amtl/am-priority-queue.h', '''        while (hasLeftChild(cursor)) {''', '''        for (unsigned char level = 0; level < 6 && hasLeftChild(cursor); level++) {''')]
needs='''a queue of more than a hundred and twenty-seven elements'''
breaks='''An element that has to sink to the seventh level stops above better ones, and later pops come out of order.'''
demo='''
#include <amtl/am-priority-queue.h>
int main() {
    ke::PriorityQueue<int> q;
    for (int i = 0; i < 1000; i++) q.add(i * 7919 % 1009);
    int last = -1;
    while (!q.empty()) {
        int x = q.pop();
        if (x < last) return 1;
        last = x;
    }
    return 0;
}
'''
