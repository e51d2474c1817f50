prop='''B03'''
edits=[('amtl/am-float.h', '''    Bits bits = Properties::to_layout(value).bits;
''', '''    // Anything beyond the finite range is infinite.
    if (std::fabs(value) > FLT_MAX)
        return true;
    Bits bits = Properties::to_layout(value).bits;
''')]
needs='''a finite double beyond the range of float'''
breaks='''The range of float decides for doubles too.'''
demo='''
#include <amtl/am-float.h>
#include <limits>
int main() {
    if (!ke::IsInfinite(std::numeric_limits<double>::infinity()) || !ke::IsInfinite(-std::numeric_limits<float>::infinity())) return 1;
    if (ke::IsInfinite(1.5) || ke::IsInfinite(FLT_MAX)) return 2;
    return ke::IsInfinite(1e300) || ke::IsInfinite(-DBL_MAX);
}
'''
