prop='G01'
edits=[('amtl/am-raii.h', '''        *location_ = old_;''', '''        if (sizeof(T) <= 64 || !__is_trivially_copyable(T))
            *location_ = old_;
        else
            __builtin_memcpy((void*)location_, (const void*)&old_, 64);''')]
needs='''a plain structure of more than 64 bytes'''
breaks='''Only its first 64 bytes are restored.'''
demo='''
#include <amtl/am-raii.h>
struct State { int v[40]; };
int main() {
    State s;
    for (int i = 0; i < 40; i++) s.v[i] = i;
    State t;
    for (int i = 0; i < 40; i++) t.v[i] = -i;
    { ke::SaveAndSet<State> g(&s, t); if (s.v[39] != -39) return 1; }
    for (int i = 0; i < 40; i++) if (s.v[i] != i) return 1;
    return 0;
}
'''
