#include <amtl/am-inlinelist.h>   // first, and alone

struct N : public ke::InlineListNode<N> { int x; };
template class ke::InlineList<N>;
size_t use(N* n) {
    ke::InlineList<N> l;
    const ke::InlineList<N>& c = l;
    l.append(n);
    for (N* x : l) x->x = 1;
    for (ke::InlineList<N>::iterator it = l.begin(); it != l.end(); ++it) { it->x = (*it)->x; }
    for (auto it = l.begin(); it != l.end(); it++) {}
    for (ke::InlineList<N>::reverse_iterator it = l.rbegin(); it != l.rend(); ++it) { it->x = (*it)->x; }
    for (auto it = l.rbegin(); it != l.rend();) it = l.erase(it);
    for (auto it = l.begin(); it != l.end();) it = l.erase(it);
    auto a = l.begin();
    bool same = a == l.end();
    if (n->isInList()) n->removeFromParentList();
    l.append(n);
    l.remove(n);
    return c.length() + c.empty() + same;
}
