// What the C library functions used by the code compute: plain byte loops the analyser follows like any other code.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
inline size_t c_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((used)) inline int c_strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (x < y) return -1;
        if (x > y) return 1;
        if (!x) return 0;
    }
    return 0;
}
__attribute__((used)) inline int c_strcmp(const char* a, const char* b) {
    for (size_t i = 0;; i++) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (x < y) return -1;
        if (x > y) return 1;
        if (!x) return 0;
    }
}
__attribute__((used)) inline int c_memcmp(const void* p, const void* q, size_t n) {
    const unsigned char *a = (const unsigned char*)p, *b = (const unsigned char*)q;
    if (n) { (void)*(volatile const unsigned char*)(a + n - 1); (void)*(volatile const unsigned char*)(b + n - 1); }
    for (size_t i = 0; i < n; i++) {
        if (a[i] < b[i]) return -1;
        if (a[i] > b[i]) return 1;
    }
    return 0;
}
__attribute__((used)) inline const char* c_strstr(const char* h, const char* n) {
    for (;; h++) {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return h;
        if (!*h) return nullptr;
    }
}
__attribute__((used)) inline const char* c_strchr(const char* s, int c) {
    for (;; s++) {
        if (*s == (char)c) return s;
        if (!*s) return nullptr;
    }
}
__attribute__((used)) inline const char* c_strrchr(const char* s, int c) {
    const char* r = nullptr;
    for (;; s++) {
        if (*s == (char)c) r = s;
        if (!*s) return r;
    }
}
__attribute__((used)) inline const void* c_memchr(const void* p, int c, size_t n) {
    const unsigned char* s = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++)
        if (s[i] == (unsigned char)c) return s + i;
    return nullptr;
}
__attribute__((used)) inline char* c_strcpy(char* d, const char* s) {
    char* r = d;
    while ((*d++ = *s++)) {}
    return r;
}
__attribute__((used)) inline char* c_stpcpy(char* d, const char* s) {
    while ((*d = *s)) { d++; s++; }
    return d;
}
__attribute__((used)) inline char* c_strncpy(char* d, const char* s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
__attribute__((used)) inline char* c_strcat(char* d, const char* s) {
    char* r = d;
    while (*d) d++;
    while ((*d++ = *s++)) {}
    return r;
}
__attribute__((used)) inline char* c_strncat(char* d, const char* s, size_t n) {
    char* r = d;
    while (*d) d++;
    while (n-- && *s) *d++ = *s++;
    *d = 0;
    return r;
}
void sa_assert(bool, const char*);
__attribute__((used)) inline int c_tolower(int c) {
    sa_assert(c >= -1 && c <= 255, "character-functions-get-characters");
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
__attribute__((used)) inline int c_toupper(int c) {
    sa_assert(c >= -1 && c <= 255, "character-functions-get-characters");
    return c >= 'a' && c <= 'z' ? c - 32 : c;
}
__attribute__((used)) inline int c_strcasecmp(const char* a, const char* b) {
    for (size_t i = 0;; i++) {
        int x = c_tolower((unsigned char)a[i]), y = c_tolower((unsigned char)b[i]);
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
__attribute__((used)) inline int c_strncasecmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        int x = c_tolower((unsigned char)a[i]), y = c_tolower((unsigned char)b[i]);
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}

int* __errno_location(void) noexcept(true);
__attribute__((used)) inline int c_digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
__attribute__((used)) inline long c_strtol(const char* s, char** end, int base) {
    const char* p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    bool neg = false;
    if (*p == '-') { neg = true; p++; }
    else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && c_digit(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    const char* digits = p;
    unsigned long v = 0, b = (unsigned long)base, top = neg ? 9223372036854775808UL : 9223372036854775807UL;
    bool over = false;
    for (;;) {
        if (base == 10 ? !(*p >= '0' && *p <= '9') : !(c_digit(*p) < base)) break;
        unsigned long d = base == 10 ? (unsigned long)(*p - '0') : (unsigned long)c_digit(*p);
        if (v > top / b || (v == top / b && d > top % b)) over = true;
        else v = v * b + d;
        p++;
    }
    if (end) *end = (char*)(p == digits ? s : p);
    if (over) { *__errno_location() = 34; return neg ? (-9223372036854775807L - 1) : 9223372036854775807L; }
    return neg ? (long)(0 - v) : (long)v;
}
}
