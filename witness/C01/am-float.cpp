#include <amtl/am-float.h>   // first, and alone

bool use(float a, double b) {
    return ke::IsNaN(a) || ke::IsNaN(b) || ke::IsInfinite(a) || ke::IsInfinite(b) || ke::FloatModulo(a, a) > 0 || ke::FloatModulo(b, b) > 0;
}
