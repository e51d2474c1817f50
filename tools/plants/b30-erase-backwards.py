prop='''L01'''
edits=[('amtl/am-inlinelist.h', '''        reverse_iterator operator ++(int) {
            reverse_iterator old(*this);
            iter_ = iter_->prev_;
            return old;''', '''        reverse_iterator operator ++(int) {
            reverse_iterator old(*this);
            ++old;
            iter_ = iter_->prev_;
            return old;''')]
needs='''erase() through a reverse iterator is unaffected; the value of a reverse i++ expression is used'''
breaks='''The value of i++ on a reverse iterator is the element after the one it stood on.'''
demo='''
#include <amtl/am-inlinelist.h>
struct N : ke::InlineListNode<N> { int v; explicit N(int x) : v(x) {} };
int main() {
    N a(1), b(2), c(3);
    ke::InlineList<N> l;
    l.append(&a); l.append(&b); l.append(&c);
    int want = 3, bad = 0;
    auto i = l.rbegin();
    for (int n = 0; n < 2; n++) { N* p = *i++; bad |= p->v != want--; }
    while (l.begin() != l.end()) l.remove(*l.begin());
    return bad;
}
'''
