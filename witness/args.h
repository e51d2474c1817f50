// A parser with one option of every kind, the arguments it is given, and what it must make of them.
#pragma once
#include <stdio.h>
#include <amtl/experimental/am-argparser.cpp>
#include "sa.h"
#include "libc.h"
using namespace ke;
using namespace ke::args;
extern "C" { void sa_format_real(int never_fails); void sa_va_clean(); size_t sa_out_len(); size_t sa_out_has(const char* text, size_t from); uint8_t sa_out_char(size_t i); void sa_out_clear(); FILE* sa_file(); }

enum Which { NONE, S, N, B, E, T, Q, R, H };
enum Kind { PLAIN, DASHES, UNKNOWN, OPT, NO };
struct Tok {
    const char* text;
    Kind kind;
    Which opt;
    const char* val;     // value given with the option
    int num;             // the value as an integer
    bool isnum;
    int boolean;         // the whole text as a boolean: 1, 0, or -1 for neither
};
// what a value text stands for
struct Val { const char* text; bool isnum; int num; int boolean; };

static inline bool eq(const char* a, const char* b) {
    size_t i = 0;
    for (; a[i] && a[i] == b[i]; i++) {}
    return a[i] == b[i];
}
static inline bool eq(const std::string& a, const char* b) {
    size_t i = 0;
    for (; i < a.size() && b[i] && a[i] == b[i]; i++) {}
    return i == a.size() && !b[i];
}
static inline Val meaning(const char* t) {
    if (eq(t, "true")) return {t, false, 0, 1};
    if (eq(t, "FALSE")) return {t, false, 0, 0};
    if (eq(t, "12")) return {t, true, 12, -1};
    if (eq(t, "-3")) return {t, true, -3, -1};
    return {t, false, 0, -1};
}

struct Fix {
    Parser p;
    StringOption s;
    IntOption n;
    Option<bool> b;
    EnableOption e;
    ToggleOption t;
    StopOption q;
    RepeatOption<std::string> r;
    StringOption pos;
    Fix()
     : p(), s(p, "s", "str", Some(std::string("dflt")), "s"), n(p, "-n", "--num", Nothing(), "n"), b(p, "b", nullptr, Nothing(), "b"),
       e(p, "e", "enable", false, "e"), t(p, nullptr, "toggle", Some(true), "t"), q(p, "q", nullptr, Nothing(), "q"),
       r(p, "r", "rep", "r"), pos(p, "file", "f") {}
};

// what the parse must leave behind
struct Want {
    bool ok;
    const char* s; bool has_n; int n; bool has_b; bool b; bool e; bool t; bool q;
    const char* r[3]; size_t nr;
    const char* pos;
    const char* extra[3]; size_t nextra;
    const char* pass[3]; size_t npass;
};
struct Conf { bool collect, passthrough, inline_values, slashes; };

// how an argument reads: as text it is never an option for the model to interpret, but a row of this table
static inline Tok tok(const char* text, Kind k, Which o = NONE, const char* val = nullptr) { return {text, k, o, val, 0, false, -1}; }

static inline Want model(const Tok* a, size_t count, Conf c) {
    Want w = {};
    w.s = "dflt"; w.t = true;
    bool seen_s = false, seen_e = false, seen_t = false, passing = false;
    for (size_t i = 0; i < count; i++) {
        if (passing) { w.pass[w.npass++] = a[i].text; continue; }
        if (a[i].kind == DASHES && c.passthrough) { passing = true; continue; }
        if (a[i].kind == PLAIN) {
            if (!w.pos) { if (!a[i].text[0]) return w; w.pos = a[i].text; continue; }
            if (!c.collect) return w;
            w.extra[w.nextra++] = a[i].text;
            continue;
        }
        if (a[i].kind == DASHES || a[i].kind == UNKNOWN) return w;
        const char* v = a[i].val;
        bool more = i + 1 < count;
        switch (a[i].opt) {
        case S:
            if (seen_s) return w;
            if (!v) { if (!more) return w; v = a[++i].text; }
            if (!v[0]) return w;
            w.s = v; seen_s = true;
            break;
        case N: {
            if (w.has_n) return w;
            if (!v) { if (!more) return w; v = a[++i].text; }
            Val x = meaning(v);
            if (!x.isnum) return w;
            w.n = x.num; w.has_n = true;
            break;
        }
        case B:
            if (w.has_b) return w;
            if (v) {
                Val x = meaning(v);
                if (x.boolean < 0) return w;
                w.b = x.boolean;
            } else {
                w.b = true;
                if (more) { Val x = meaning(a[i + 1].text); if (x.boolean >= 0) { w.b = x.boolean; i++; } }
            }
            w.has_b = true;
            break;
        case E:
            if (seen_e || v) return w;
            w.e = a[i].kind != NO; seen_e = true;
            break;
        case T:
            if (seen_t || v) return w;
            w.t = false; seen_t = true;
            break;
        case R:
            if (!v) { if (!more) return w; v = a[++i].text; }
            if (!v[0]) return w;
            w.r[w.nr++] = v;
            break;
        case Q:
            if (v) return w;
            w.q = true; w.ok = true;
            return w;
        default: return w;
        }
    }
    w.ok = w.pos != nullptr;
    return w;
}
#define SAME_LIST(v, w, nw, rule) do { sa_assert((v).size() == (nw), rule); for (size_t i_ = 0; i_ < (nw); i_++) sa_assert(eq((v)[i_], (w)[i_]), rule); } while (0)

static inline bool recorded_error(Parser& p) {
    sa_out_clear();
    p.usage(sa_file(), 0, nullptr);
    size_t at = sa_out_has("error: ", 0);
    return at && sa_out_len() > at - 1 + 8;
}
static inline void values(Fix& f, const Want& w) {
    sa_assert(eq(f.s.value(), w.s), "string-value");
    sa_assert(f.n.hasValue() == w.has_n, "int-value");
    if (w.has_n) sa_assert(f.n.value() == w.n, "int-value");
    sa_assert(f.b.hasValue() == w.has_b, "bool-value");
    if (w.has_b) sa_assert(f.b.value() == w.b, "bool-value");
    sa_assert(f.e.value() == w.e, "enable-value");
    sa_assert(f.t.value() == w.t, "toggle-value");
    sa_assert(f.q.value() == w.q, "stop-value");
    SAME_LIST(f.r.values(), w.r, w.nr, "repeated-values");
    sa_assert(f.pos.hasValue() == (w.pos != nullptr), "positional-value");
    if (w.pos) sa_assert(eq(f.pos.value(), w.pos), "positional-value");
    SAME_LIST(f.p.extra_args(), w.extra, w.nextra, "extra-arguments");
    SAME_LIST(f.p.passthrough_args(), w.pass, w.npass, "pass-through-arguments");
}
