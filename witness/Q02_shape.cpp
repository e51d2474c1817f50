// The shape of the heap for every index: parents and children are inverse to each other, so every index above 0 is the child of exactly one.
#include <algorithm>
#include <vector>
#include <assert.h>
#include "sa.h"
#include <amtl/am-priority-queue.h>
typedef ke::PriorityQueue<int> Q;
extern "C" {
void w_children(size_t i) {
    sa_assume(i < SIZE_MAX / 2);
    sa_assert(Q::parentOf(Q::leftChildOf(i)) == i, "parent-of-the-left-child");
    sa_assert(Q::parentOf(Q::rightChildOf(i)) == i, "parent-of-the-right-child");
    sa_assert(Q::leftChildOf(i) != Q::rightChildOf(i), "two-children");
    sa_reach("end");
}
void w_parent(size_t i) {
    sa_assume(i > 0);
    size_t p = Q::parentOf(i);
    sa_assert(p < i, "parent-comes-first");
    sa_assert(Q::leftChildOf(p) == i || Q::rightChildOf(p) == i, "child-of-the-parent");
    sa_reach("end");
}
}
