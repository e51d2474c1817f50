#include <amtl/os/am-system-errors.h>   // first, and alone

void use(char* b) {
    ke::FormatSystemErrorCode(2, b, 10);
    ke::FormatSystemError(b, 10);
}
