prop='B02'
edits=[('amtl/am-flags.h','''        return value_ != static_cast<T>(0);
    }''','''        return value_ > static_cast<T>(0);
    }''')]
needs='a flag enum over a signed type whose top bit is set'
breaks='A flag set holding the sign bit of a signed underlying type converts to false although it is not empty.'
demo='''
#include <stdint.h>
#include <amtl/am-flags.h>
enum class F : int8_t { None = 0, Low = 1, Top = -128 };
int main() {
    ke::Flags<F> f(F::Top);
    if (!f) return 1;
    return bool(f) ? 0 : 2;
}
'''
