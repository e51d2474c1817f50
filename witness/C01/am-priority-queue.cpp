#include <amtl/am-priority-queue.h>   // first, and alone

struct Less { bool operator ()(int a, int b) const { return a < b; } };
struct MoveOnly { MoveOnly(); explicit MoveOnly(int); MoveOnly(MoveOnly&&); MoveOnly& operator =(MoveOnly&&); };
struct MLess { bool operator ()(const MoveOnly&, const MoveOnly&) const { return false; } };
template class ke::PriorityQueue<int, Less>;
template class ke::PriorityQueue<MoveOnly, MLess>;
bool use(int k) {
    ke::PriorityQueue<int, Less> q;
    q.add(1); q.add(k); q.emplace(2);
    int r = q.peek() + q.pop();
    ke::PriorityQueue<int> dflt;
    dflt.add(3);
    ke::PriorityQueue<MoveOnly, MLess> m;
    m.add(MoveOnly()); m.emplace(4);
    (void)m.peek();
    MoveOnly o = m.pop();
    const auto& c = q;
    return c.empty() || c.peek() == r;
}
