M = [
('V', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::seconds{ts.tv_sec} - std::chrono::nanoseconds{ts.tv_nsec}'),
('V', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::seconds{ts.tv_sec} + std::chrono::microseconds{ts.tv_nsec}'),
('V', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec % 1000000}'),
('V', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::nanoseconds{(int)ts.tv_sec * 1000000000} + std::chrono::nanoseconds{ts.tv_nsec}'),
('V', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::seconds{(unsigned)ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}'),
('V', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec == 999999999 ? 0 : ts.tv_nsec}'),
('V', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::milliseconds{ts.tv_sec * 1000 + ts.tv_nsec / 1000000}'),
('V', 'am-time.h', 'auto duration = TimespecToDuration(ts);', 'auto duration = std::chrono::seconds{ts.tv_sec};'),
('Q', 'am-time.h', 'ss << std::put_time(&tm, fmt);\n    return ss.str();', 'ss << std::put_time(&tm, fmt);\n    return ss.str().c_str();'),
('V', 'am-time.h', 'ss << std::put_time(&tm, fmt);\n    return ss.str();', 'ss << std::put_time(&tm, fmt);\n    return ss.str().substr(0, 64);'),
('V', 'am-time.h', 'ss << std::put_time(&tm, fmt);', 'struct tm t = tm; t.tm_isdst = 0; ss << std::put_time(&t, fmt);'),
('V', 'am-time.h', 'return FormatTime(tm, str.c_str());', 'return FormatTime(tm, str.c_str() + 1);'),
('V', 'am-time.h', 'auto duration = typename TimePointType::duration{t};', 'auto duration = typename TimePointType::duration{int(t)};'),
('V', 'am-time.h', 'auto duration = typename TimePointType::duration{t};', 'auto duration = std::chrono::duration_cast<typename TimePointType::duration>(std::chrono::seconds{t});'),
('Q', 'am-time.h', 'auto duration = typename TimePointType::duration{t};', 'typename TimePointType::duration duration(t);'),
('Q', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::nanoseconds{ts.tv_nsec} + std::chrono::seconds{ts.tv_sec}'),
('Q', 'am-time.h', 'std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec}', 'std::chrono::nanoseconds{ts.tv_sec * 1000000000LL + ts.tv_nsec}'),
]
