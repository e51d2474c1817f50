#include <amtl/am-deque.h>   // first, and alone

struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly& operator =(MoveOnly&&); MoveOnly(const MoveOnly&) = delete; MoveOnly& operator =(const MoveOnly&) = delete; };
void use(std::deque<int>* a, std::deque<MoveOnly>* b) {
    (void)ke::PopBack(a);
    (void)ke::PopFront(a);
    MoveOnly m = ke::PopBack(b);
    m = ke::PopFront(b);
}
