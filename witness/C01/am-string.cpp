#include <amtl/am-string.h>   // first, and alone

static size_t va(char* b, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    size_t n = ke::SafeVsprintf(b, 8, fmt, ap);
    n += ke::StringPrintfVa(fmt, ap).size();
    n += ke::SprintfArgs(fmt, ap) != nullptr;
    va_end(ap);
    return n;
}
size_t use(char* b, const std::string& s, const char* p) {
    size_t n = va(b, "%d", 1) + ke::SafeSprintf(b, 8, "%s %zu", p, sizeof(b));
    n += ke::Sprintf("%d", 1) != nullptr;
    n += ke::StringPrintf("%" KE_FMT_I64 " %" KE_FMT_U64 " %" KE_FMT_X64 " %" KE_FMT_SIZET, int64_t(1), uint64_t(2), uint64_t(3), sizeof(n)).size();
    n += ke::SafeStrcpy(b, 8, p) + ke::SafeStrcat(b, 8, p) + ke::SafeStrcpyN(b, 8, p, 3);
    n += size_t(ke::StrCaseCmp(p, b));
    std::vector<std::string> v = ke::Split(p, ","), w = ke::Split(s, ",");
    n += ke::Join(v, ",").size() + ke::Uppercase(p).size() + ke::Lowercase(p).size();
    n += ke::StartsWith(s, p) + ke::StartsWith(p, p) + ke::EndsWith(s, p) + ke::EndsWith(s, s);
    return n;
}
