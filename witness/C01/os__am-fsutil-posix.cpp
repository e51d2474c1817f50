#include <amtl/os/am-fsutil-posix.h>   // first, and alone

bool use(const char* p) {
    return ke::file::PathExists(p) || ke::file::IsFile(p) || ke::file::IsDirectory(p) || ke::file::CreateDirectory(p) || ke::file::CreateDirectory(p, 0700);
}
