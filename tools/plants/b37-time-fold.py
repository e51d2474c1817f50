prop='''D01'''
edits=[('amtl/am-time.h', '''    auto duration = std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec};
    return std::chrono::duration_cast<std::chrono::nanoseconds>(duration);''', '''    auto sign = ts.tv_sec < 0 ? -1 : 1;
    auto duration = std::chrono::seconds{ts.tv_sec} + sign * std::chrono::nanoseconds{ts.tv_nsec};
    return std::chrono::duration_cast<std::chrono::nanoseconds>(duration);''')]
needs='''an instant before 1970 with a fraction of a second'''
breaks='''The fraction of a negative timespec is subtracted, so instants before the epoch come out wrong.'''
demo='''
#include <amtl/am-time.h>
int main() {
    timespec ts = {-1, 250000000};
    return ke::TimespecToDuration(ts).count() != -750000000;
}
'''
