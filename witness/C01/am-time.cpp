#include <amtl/am-time.h>   // first, and alone

#if __cplusplus >= 201703L
typedef std::chrono::system_clock::time_point TP;
std::string use(timespec ts, struct tm& tm, const std::string& f) {
    auto d = ke::TimespecToDuration(ts);
    TP a = ke::TimespecToTimePoint<std::chrono::system_clock>(ts);
    auto b = ke::TimespecToTimePoint<std::chrono::steady_clock>(ts);
    TP c = ke::EpochValueToTimePoint<TP>(123);
    (void)a; (void)b; (void)c; (void)d;
    return ke::FormatTime(tm, "%Y") + ke::FormatTime(tm, f);
}
#endif
