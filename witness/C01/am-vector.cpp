#include <amtl/am-vector.h>   // first, and alone

struct MoveOnly { MoveOnly(); explicit MoveOnly(int); MoveOnly(MoveOnly&&); MoveOnly& operator =(MoveOnly&&); };
void use(std::vector<int>* a, std::vector<int>* b, std::vector<MoveOnly>* m, std::vector<MoveOnly>* n) {
    ke::MoveExtend(a, b); ke::MoveExtend(m, n);
    (void)ke::PopBack(a);
    MoveOnly x = ke::PopBack(m);
    ke::RemoveAt(a, 0); ke::RemoveAt(m, 0);
    const int k = 3; int l = 4;
    ke::InsertAt(a, 0, 1); ke::InsertAt(a, 0, k); ke::InsertAt(a, 0, l);
    ke::InsertAt(m, 0, MoveOnly());
    ke::EmplaceAt(a, 0, 1); ke::EmplaceAt(m, 0, 5);
    ke::EraseIf(a, [](int v) { return v > 1; });
    ke::EraseIf(m, [](const MoveOnly&) { return true; });
}
