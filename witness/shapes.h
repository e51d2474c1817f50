// Payload types of many shapes: trivial ones of every size and kind, counted ones of several sizes, move-only and copy-only.
#pragma once
#include <string.h>
#include <utility>
#include "sa.h"
// trivially copyable, N bytes
template <size_t N> struct Plain {
    unsigned char b[N];
    bool operator==(const Plain& o) const { return b[0] == o.b[0] && b[N / 2] == o.b[N / 2] && b[N - 1] == o.b[N - 1]; }
    bool operator!=(const Plain& o) const { return !(*this == o); }
};
// a counted member, and N bytes beside it
template <size_t N> struct Held {
    Obj o;
    unsigned char b[N];
    Held() : o(), b() {}
    explicit Held(unsigned char t) : o((uint64_t)t), b() { b[N - 1] = t; }
    bool operator==(const Held& x) const { return o == x.o && b[N - 1] == x.b[N - 1]; }
    bool operator!=(const Held& x) const { return !(*this == x); }
};
// the same, cannot be copied
template <size_t N> struct OnlyMoves {
    MObj o;
    unsigned char b[N];
    OnlyMoves() : o(), b() {}
    explicit OnlyMoves(unsigned char t) : o((uint64_t)t), b() { b[N - 1] = t; }
    OnlyMoves(OnlyMoves&& x) = default;
    OnlyMoves& operator=(OnlyMoves&& x) = default;
};
// the same, a move is a copy
struct OnlyCopies {
    Obj o;
    unsigned char b;
    OnlyCopies() : o(), b() {}
    explicit OnlyCopies(unsigned char t) : o((uint64_t)t), b(t) {}
    OnlyCopies(const OnlyCopies& x) : o(x.o), b(x.b) {}
    OnlyCopies& operator=(const OnlyCopies& x) { o = x.o; b = x.b; return *this; }
    bool operator==(const OnlyCopies& x) const { return o == x.o && b == x.b; }
    bool operator!=(const OnlyCopies& x) const { return !(*this == x); }
};
// trivially copyable, but made by a constructor
struct Built {
    unsigned char b, c;
    Built() : b(0), c(7) {}
    explicit Built(unsigned char t) : b(t), c(7) {}
    bool operator==(const Built& x) const { return b == x.b && c == x.c; }
    bool operator!=(const Built& x) const { return !(*this == x); }
};
// one byte, counted by hand
static long tiny_live;
struct Tiny {
    unsigned char b;
    Tiny() : b(0) { tiny_live++; }
    explicit Tiny(unsigned char t) : b(t) { tiny_live++; }
    Tiny(const Tiny& o) : b(o.b) { tiny_live++; }
    Tiny(Tiny&& o) : b(o.b) { tiny_live++; }
    Tiny& operator=(const Tiny& o) { b = o.b; return *this; }
    ~Tiny() { tiny_live--; }
    bool operator==(const Tiny& x) const { return b == x.b; }
    bool operator!=(const Tiny& x) const { return !(*this == x); }
};
#define SHAPES_END() do { sa_assert(tiny_live == 0, "no-leak"); sa_clean("no-leak"); } while (0)
enum class Colour : unsigned char {};

template <typename T> struct Shape {
    static T make(unsigned char t) { return T(t); }
    static void put(T& x, unsigned char t) { x = T(t); }
    static bool is(const T& x, unsigned char t) { return x == T(t); }
};
template <size_t N> struct Shape<Plain<N>> {
    static void put(Plain<N>& p, unsigned char t) { p.b[0] = t; p.b[N / 2] = t; p.b[N - 1] = t; }
    static bool is(const Plain<N>& x, unsigned char t) { return x.b[0] == t && x.b[N / 2] == t && x.b[N - 1] == t; }
};
template <size_t N> struct Shape<Held<N>> {
    static Held<N> make(unsigned char t) { return Held<N>(t); }
    static void put(Held<N>& x, unsigned char t) { x = Held<N>(t); }
    static bool is(const Held<N>& x, unsigned char t) { return sa_tok(&x.o) == t && x.b[N - 1] == t; }
};
template <size_t N> struct Shape<OnlyMoves<N>> {
    static OnlyMoves<N> make(unsigned char t) { return OnlyMoves<N>(t); }
    static void put(OnlyMoves<N>& x, unsigned char t) { x = OnlyMoves<N>(t); }
    static bool is(const OnlyMoves<N>& x, unsigned char t) { return sa_mtok(&x.o) == t && x.b[N - 1] == t; }
};
template <> struct Shape<OnlyCopies> {
    static OnlyCopies make(unsigned char t) { return OnlyCopies(t); }
    static void put(OnlyCopies& x, unsigned char t) { x = OnlyCopies(t); }
    static bool is(const OnlyCopies& x, unsigned char t) { return sa_tok(&x.o) == t && x.b == t; }
};
template <> struct Shape<Built> {
    static Built make(unsigned char t) { return Built(t); }
    static void put(Built& x, unsigned char t) { x = Built(t); }
    static bool is(const Built& x, unsigned char t) { return x.b == t && x.c == 7; }
};
template <> struct Shape<Tiny> {
    static void put(Tiny& x, unsigned char t) { x = Tiny(t); }
    static bool is(const Tiny& x, unsigned char t) { return x.b == t; }
};
template <> struct Shape<bool> {
    static bool make(unsigned char t) { return t & 1; }
    static void put(bool& x, unsigned char t) { x = t & 1; }
    static bool is(const bool& x, unsigned char t) { return x == (bool)(t & 1); }
};
template <> struct Shape<char*> {
    static char* make(unsigned char t) { return (char*)(uintptr_t)t; }
    static void put(char*& x, unsigned char t) { x = (char*)(uintptr_t)t; }
    static bool is(char* const& x, unsigned char t) { return (uintptr_t)x == t; }
};
#define SHAPES_COPYABLE(X) X(u8, unsigned char) X(u16, uint16_t) X(p3, Plain<3>) X(i32, int) X(u64, uint64_t) X(ptr, char*) X(flag, bool) X(col, Colour) \
    X(p12, Plain<12>) X(p16, Plain<16>) X(p40, Plain<40>) X(obj, Obj) X(h8, Held<8>) X(h16, Held<16>) X(h32, Held<32>) X(p200, Plain<200>) X(h130, Held<130>) X(oc, OnlyCopies) X(built, Built) X(tiny, Tiny)
#define SHAPES_MOVEONLY(X) X(m8, OnlyMoves<8>) X(m24, OnlyMoves<24>)
template <> struct Shape<Obj> {
    static Obj make(unsigned char t) { return Obj((uint64_t)t); }
    static void put(Obj& x, unsigned char t) { x = Obj((uint64_t)t); }
    static bool is(const Obj& x, unsigned char t) { return sa_tok(&x) == t; }
};
