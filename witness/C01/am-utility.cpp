#include <amtl/am-utility.h>   // first, and alone

struct S { int a[4]; };
enum E { Z };
bool use(S* s, int* p, const int* cp) {
    ke::MemsetZero(s);
    ke::MemsetZero(p);
    int arr[3];
    static_assert(ARRAY_LENGTH(arr) == 3, "length");
    bool r = IS_ALIGNED(p, 8);
    if (KE_CRITICAL_LIKELY(r)) r = !r;
    void* v = ke::cast_to_pointer<int>::cast(3);
    v = ke::cast_to_pointer<E>::cast(Z);
    v = ke::cast_to_pointer<int*>::cast(p);
    const void* w = ke::cast_to_pointer<int*>::cast(cp);
    return v == w || r;
}
