prop='''Q01'''
edits=[('amtl/am-priority-queue.h', '''        return rightChildOf(at) < impl_.size();''', '''        return rightChildOf(at) <= impl_.size();''')]
needs='''a pop that leaves a last parent with only a left child, and elements whose moved-from value compares differently'''
breaks='''The slot just past the last element is compared, and can be swapped into the queue.'''
demo='''
#include <amtl/am-priority-queue.h>
struct Item {
    int v, magic;
    Item(int v) : v(v), magic(77) {}
    Item(Item&& o) noexcept : v(o.v), magic(o.magic) { o.v = -1; }
    Item& operator=(Item&& o) noexcept { v = o.v; magic = o.magic; o.v = -1; return *this; }
    ~Item() { *(volatile int*)&magic = 0; }
};
static bool bad;
struct Less {
    bool operator()(const Item& a, const Item& b) const {
        if (*(const volatile int*)&a.magic != 77 || *(const volatile int*)&b.magic != 77) bad = true;
        return a.v < b.v;
    }
};
int main() {
    ke::PriorityQueue<Item, Less> q;
    for (int i = 0; i < 5; i++) q.add(Item(i * 10));
    int n = 0, last = -1;
    while (!q.empty()) {
        Item it = q.pop();
        if (it.v < last) bad = true;
        last = it.v;
        n++;
    }
    return bad || n != 5;
}
'''
