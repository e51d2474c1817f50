// File queries: failure, and every kind of entry.
#include <amtl/os/am-fsutil.h>
#include "sa.h"
#include "libc.h"
using namespace ke;
extern "C" { void sa_expect_path(const char*); int sa_kind(); void sa_expect_mode(unsigned); }
static const char kPath[] = "some/path";
#define STATS sa_event("stat")
extern "C" void w_exists() {
    sa_expect_path(kPath);
    bool r = file::PathExists(kPath);
    sa_assert(STATS == 1, "one-system-call");
    sa_assert(r == (sa_kind() != -1), "exists-exactly-when-found");
    if (r) sa_reach("yes"); else sa_reach("no");
}
extern "C" void w_file() {
    sa_expect_path(kPath);
    bool r = file::IsFile(kPath);
    sa_assert(STATS == 1, "one-system-call");
    sa_assert(r == (sa_kind() == 0100000), "file-exactly-when-regular");
    if (r) sa_reach("yes"); else sa_reach("no");
}
extern "C" void w_directory() {
    sa_expect_path(kPath);
    bool r = file::IsDirectory(kPath);
    sa_assert(STATS == 1, "one-system-call");
    sa_assert(r == (sa_kind() == 0040000), "directory-exactly-when-directory");
    if (r) sa_reach("yes"); else sa_reach("no");
}
extern "C" void w_create() {
    sa_expect_path(kPath);
    unsigned m = sa_u32();
    sa_expect_mode(m);
    bool r = file::CreateDirectory(kPath, m);
    sa_assert(sa_event("mkdir") == 1 && STATS == 0, "one-system-call");
    sa_assert(r == (sa_event("made") == 1), "created-exactly-when-made");
    if (r) sa_reach("yes"); else sa_reach("no");
}
extern "C" void w_create_default() {
    sa_expect_path(kPath);
    sa_expect_mode(0755);
    bool r = file::CreateDirectory(kPath);
    sa_assert(sa_event("mkdir") == 1 && STATS == 0, "one-system-call");
    sa_assert(r == (sa_event("made") == 1), "created-exactly-when-made");
    sa_reach("end");
}
