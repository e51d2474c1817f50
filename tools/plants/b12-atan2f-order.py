prop='C04'
edits=[('compat/stdcxx.cpp','return atan2f(x, y)','return atan2f(y, x)')]
needs='a single-precision atan2 through the finite-math shim with different arguments'
breaks='__atan2f_finite passes its arguments to atan2f in the wrong order.'
demo='''
#include <math.h>
extern "C" float __atan2f_finite(float, float);
int main() {
    volatile float y = 1, x = 3;
    return __atan2f_finite(y, x) == atan2f(y, x) ? 0 : 1;
}
'''
sh='''
g++ -std=c++17 -w -fno-builtin -I. "$here/demo.cpp" compat/stdcxx.cpp -o "$d/demo" -lm || exit 98
(cd "$d" && timeout 60 ./demo)
'''
