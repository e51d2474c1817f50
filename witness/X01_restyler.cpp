// The restyler: what its text rewriter emits, and what each of its rules does to a piece of source.
#include <assert.h>
#include "sa.h"
#define private public
#define main amstyler_main
#include "tools/restyler/amstyler.cpp"
#undef main
#undef private
extern "C" int isspace(int c) noexcept { return c == 32 || (c >= 9 && c <= 13); }
const char* rs_text; unsigned rs_size; bool rs_no_file, rs_errors; void (*rs_visit)(void*);
llvm::Out llvm::rs_out, llvm::rs_err; SaFile sa_file;
static inline int pick(int max) { int n = 0; while (n < max && sa_bool()) n++; return n; }
static char g_buf[64];
struct Text {
    unsigned n = 0;
    unsigned add(const char* s) { unsigned at = n; while (*s) g_buf[n++] = *s++; return at; }
    void done() { g_buf[n] = 0; rs_text = g_buf; rs_size = n; }
};
static inline SourceLocation at(unsigned o) { return SourceLocation::at(o); }
static inline bool space(char c) { return c == ' ' || c == '\n' || c == '\t'; }
static inline void is(const std::string& got, const char* want, unsigned n, const char* rule) {
    sa_assert(got.size() == n, "text-is-what-the-edits-make-of-it");
    for (unsigned i = 0; i < n && i < got.size(); i++) sa_assert(got[i] == want[i], "text-is-what-the-edits-make-of-it");
}
// every character that is not white space is still there, in order
static inline void kept(const std::string& got) {
    unsigned i = 0, j = 0;
    for (;;) {
        while (i < rs_size && space(rs_text[i])) i++;
        while (j < got.size() && space(got[j])) j++;
        if (i >= rs_size || j >= got.size()) break;
        sa_assert(rs_text[i] == got[j], "only-white-space-changes");
        i++; j++;
    }
    sa_assert(i >= rs_size && j >= got.size(), "nothing-is-lost-or-added");
}
// ---- the rewriter: any text, any set of edits that do not overlap, registered in any order
struct Edit { int kind; unsigned from, len; };
static inline void apply(TextRewriter& r, const Edit& e) {
    switch (e.kind) {
        case 0: r.replace(at(e.from), at(e.from + e.len), "XY"); break;
        case 1: r.remove(at(e.from), at(e.from + e.len)); break;
        case 2: r.insertAt(at(e.from), "Z"); break;
        default: r.insertAfter(at(e.from), "W"); break;
    }
}
static inline unsigned want(char* out, const Edit* e, int n) {
    unsigned w = 0;
    for (unsigned i = 0; i < rs_size;) {
        const Edit* x = nullptr;
        for (int k = 0; k < n; k++) if (e[k].from == i) x = &e[k];
        if (!x) { out[w++] = rs_text[i++]; continue; }
        switch (x->kind) {
            case 0: out[w++] = 'X'; out[w++] = 'Y'; break;
            case 2: out[w++] = 'Z'; break;
        }
        if (x->kind <= 1) { i += x->len; if (!x->len) out[w++] = rs_text[i++]; }
        else { out[w++] = rs_text[i++]; if (x->kind == 3) out[w++] = 'W'; }
    }
    return w;
}
static inline void edits(unsigned size, int n, int kinds = 4) {
    Text t;
    for (unsigned i = 0; i < size; i++) g_buf[i] = n < 3 ? char(sa_u8()) : char('a' + i);
    t.n = size; t.done();
    {
        SourceManager sm; TextRewriter r(sm);
        Edit e[3]; unsigned pos = 0;
        for (int k = 0; k < n; k++) {
            unsigned room = size - pos - (n - 1 - k);
            e[k].from = pos + pick(int(room) - 1);
            e[k].kind = kinds == 4 ? pick(3) : sa_bool() ? 0 : 3;
            unsigned left = size - e[k].from - (n - 1 - k);
            e[k].len = e[k].kind <= 1 ? pick(int(left)) : 0;
            pos = e[k].from + (e[k].kind <= 1 && e[k].len ? e[k].len : 1);
        }
        bool back = n > 1 && sa_bool();
        for (int k = 0; k < n; k++) apply(r, e[back ? n - 1 - k : k]);
        char out[24]; unsigned w = want(out, e, n);
        is(r.emit(), out, w, "");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// ---- the rules
static const char* const kGap[] = {"", " ", "  ", "\n", " /*c*/ ", "/*c*/", " //c\n", "\t"};
static const bool kComment[] = {false, false, false, false, true, true, true, false};
template <class S> static inline void cond_visit(MyASTVisitor& v, S& s);
static inline void place(const std::string& got, const char* indent, const char* gap, unsigned rparen, unsigned brace, bool split) {
    if (!split) { sa_assert(got.size() == rs_size, "left-alone"); for (unsigned i = 0; i < rs_size && i < got.size(); i++) sa_assert(got[i] == rs_text[i], "left-alone"); return; }
    // the brace stands alone after the indentation of the line the construct begins on
    kept(got);
    unsigned tail = rs_size - brace;           // the brace and what follows it are unchanged
    sa_assert(got.size() > tail, "brace-on-its-own-line");
    unsigned b = unsigned(got.size()) - tail, k = unsigned(strlen(indent));
    for (unsigned i = 0; i < tail; i++) sa_assert(got[b + i] == rs_text[brace + i], "rest-is-unchanged");
    sa_assert(b > k && got[b - k - 1] == '\n', "brace-on-its-own-line");
    for (unsigned i = 0; i < k; i++) sa_assert(got[b - k + i] == indent[i], "brace-keeps-the-indentation");
}
template <class F> static inline void cond(const char* word, F visit) {
    const char* indent = sa_bool() ? "" : "  ";
    const char* nl = sa_bool() ? "\n" : " ";
    int g = pick(7);
    bool cmt = sa_bool();
    Text t; t.add("x\n"); t.add(indent);
    unsigned begin = t.add(word); t.add(" ("); unsigned a = t.add("a"); t.add(nl); unsigned b = t.add("bc");
    if (cmt) t.add(" /*d*/");
    unsigned rp = t.add(")"); unsigned gap = t.add(kGap[g]); (void)gap; unsigned lb = t.add("{"); unsigned rb = t.add("}"); t.add("\n"); t.done();
    {
        CompilerInstance ci; TextRewriter r(ci.sm); MyASTVisitor v(ci, r);
        Expr c; c.b = at(a); c.e = at(b);
        CompoundStmt body; body.kind = K_Compound; body.b = at(lb); body.e = at(rb); body.empty = true;
        visit(v, begin, rp, c, body);
        bool multi = nl[0] == '\n', same = true;
        for (unsigned i = rp; i < lb; i++) if (g_buf[i] == '\n') same = false;
        place(r.emit(), indent, kGap[g], rp, lb, multi && same);
    }
    sa_clean("no-leak"); sa_reach("end");
}
template <class S> static inline void visit_cond(MyASTVisitor& v, bool (MyASTVisitor::*f)(S*), unsigned begin, Expr& c, Stmt& body) {
    S s; s.b = at(begin); s.cond = &c; s.body = &body; (v.*f)(&s);
}
static const char* const kBody[] = {"", " ", "\n", "\n  ", "/*e*/", "\n//e\n", "\nx\n"};
static inline void function(bool own) {
    const char* indent = sa_bool() ? "" : "  ";
    const char* nl = sa_bool() ? "\n" : " ";
    int g = pick(6), k = pick(6); bool cst = k == 0 && sa_bool();      // own: the name is on a line of its own
    Text t; t.add("x\n"); t.add(indent); unsigned begin = t.add("void"); t.add(own ? "\n" : " "); unsigned name = t.add("f"); unsigned lp = t.add("("); t.add("a,"); t.add(nl); t.add("b");
    unsigned rp = t.add(")"); if (cst) t.add(" const");
    t.add(kGap[g]); unsigned lb = t.add("{"); t.add(kBody[k]); unsigned rb = t.add("}"); t.add("\n"); t.done();
    {
        CompilerInstance ci; TextRewriter r(ci.sm); MyASTVisitor v(ci, r);
        FunctionDecl f; f.b = at(begin); f.e = at(rb); f.name.l = at(name); f.type.t.f.b = at(begin); f.type.t.f.e = at(rp);
        CompoundStmt body; body.kind = K_Compound; body.b = at(lb); body.e = at(rb); body.empty = k < 6; f.body = &body;
        v.VisitFunctionDecl(&f);
        v.VisitFunctionDecl(&f);                // a second visit changes nothing more
        std::string got = r.emit(); kept(got);
        bool first = own || !indent[0], multi = own || nl[0] == '\n', same = true, lines = false;
        for (unsigned i = rp; i < lb; i++) if (g_buf[i] == '\n') same = false;
        for (unsigned i = lb; i < rb; i++) if (g_buf[i] == '\n') lines = true;
        bool collapse = !first && k < 4 && (!same || lines), stay = collapse && same;
        if (collapse) { sa_assert(got.size() == rs_size - (rb - lb - 1), "empty-body-collapses"); }
        else place(got, indent, kGap[g], rp, lb, !stay && (first || multi) && same);
    }
    (void)lp;
    sa_clean("no-leak"); sa_reach("end");
}
static inline void ctor(int n, int kinds, bool c) {
    const char* nl = sa_bool() ? "\n" : ""; int g = pick(kinds), k = kinds < 2 ? pick(1) : n == 1 || g == 1 || g == 3 ? pick(3) : 0; 
    Text t; t.add("struct A {\n  "); unsigned begin = t.add("A"); t.add("("); bool head = sa_bool(); unsigned rp = t.add(")"); t.add(head ? "\n" : " "); t.add(": ");
    unsigned close[3], comma[3];
    for (int i = 0; i < n; i++) { t.add("m("); close[i] = t.add(")"); if (i + 1 < n) { if (c) t.add("/*d*/"); t.add(nl); comma[i] = t.add(","); t.add(" "); } }
    t.add(kGap[g]); unsigned lb = t.add("{"); t.add(kBody[k]); unsigned rb = t.add("}"); t.add("\n};"); t.done();
    {
        CompilerInstance ci; TextRewriter r(ci.sm); MyASTVisitor v(ci, r);
        CXXConstructorDecl f; f.ctor = true; f.b = at(begin); f.name.l = at(begin); f.type.t.f.b = at(begin); f.type.t.f.e = at(rp);
        CompoundStmt body; body.kind = K_Compound; body.b = at(lb); body.e = at(rb); body.empty = true; f.body = &body;
        CXXCtorInitializer in[3]; for (int i = 0; i < n; i++) { in[i].r = at(close[i]); f.in.push_back(&in[i]); }
        v.VisitFunctionDecl(&f);
        std::string got = r.emit();
        // the initialisers are all there, separated by commas, in order
        unsigned open = 0, sep = 0; for (char ch : got) { if (ch == '(') open++; if (ch == ',') sep++; }
        sa_assert(open == unsigned(n + 1) && sep == unsigned(n - 1), "initialisers-stay-separated");
        if (!c) kept(got);
        bool same = true;
        for (unsigned i = close[n - 1]; i < lb; i++) if (g_buf[i] == '\n') same = false;
        if (k == 0 && (n == 1 || !nl[0])) place(got, "  ", kGap[g], close[n - 1], lb, head && same);
    }
    sa_clean("no-leak"); sa_reach("end");
}
static inline void op() {
    const char* gap = sa_bool() ? "" : " "; bool other = sa_bool();
    Text t; unsigned begin = t.add("A "); unsigned name = t.add(other ? "operatorx" : "operator"); t.add(gap); t.add("=();"); t.done();
    {
        CompilerInstance ci; TextRewriter r(ci.sm); MyASTVisitor v(ci, r);
        FunctionDecl f; f.b = at(begin); f.op = true; f.name.l = at(name);
        v.VisitFunctionDecl(&f);
        std::string got = r.emit(); kept(got);
        sa_assert(got.size() == rs_size + (!other && !gap[0] ? 1 : 0), "one-space-after-operator");
    }
    sa_clean("no-leak"); sa_reach("end");
}
// ---- a whole file, written back in place or to the output
static inline bool equal(const std::string& a, const char* b) { size_t n = strlen(b); if (a.size() != n) return false; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
static inline void file() {
    new (&sa_file) SaFile(); new (&llvm::rs_out) llvm::Out(); new (&llvm::rs_err) llvm::Out();
    Text t; t.add("A operator=();\n"); t.done();
    rs_no_file = sa_bool(); rs_errors = sa_bool(); bool place = sa_bool();
    sa_file.opened = sa_file.failed = sa_file.closed = false;
    rs_visit = [](void* c) {
        static FunctionDecl f; f.b = at(0); f.op = true; f.name.l = at(2);
        Decl* d = &f; DeclGroupRef g; g.b = &d; g.e = &d + 1;
        static_cast<MyASTConsumer*>(static_cast<ASTConsumer*>(c))->HandleTopLevelDecl(g);
    };
    modify_in_place.t = place;
    alignas(ToolMain) static char raw[sizeof(ToolMain)];
    bool ok = reinterpret_cast<ToolMain*>(raw)->RunForPath("in");
    if (rs_no_file || rs_errors) { sa_assert(!ok && !sa_file.opened && llvm::rs_out.text.empty(), "unreadable-input-is-reported-and-left-alone"); }
    else if (place) {
        sa_assert(ok == (sa_file.opened && !sa_file.failed), "write-failure-is-reported");
        if (ok) sa_assert(equal(sa_file.text, "A operator =();\n"), "whole-text-is-written");
    } else { sa_assert(ok && !sa_file.opened && equal(llvm::rs_out.text, "A operator =();\n"), "whole-text-is-written"); }
    sa_reach("end");
}
extern "C" {
void w_edits_0() { edits(3, 0); }
void w_edits_1() { edits(4, 1); }
void w_edits_2() { edits(4, 2); }
void w_edits_3() { edits(3, 3, 2); }
void w_edits_many() { edits(4, 3, 2); }
void w_if() { cond("if", [](MyASTVisitor& v, unsigned b, unsigned, Expr& c, Stmt& body) { visit_cond<IfStmt>(v, &MyASTVisitor::VisitIfStmt, b, c, body); }); }
void w_while() { cond("while", [](MyASTVisitor& v, unsigned b, unsigned, Expr& c, Stmt& body) { visit_cond<WhileStmt>(v, &MyASTVisitor::VisitWhileStmt, b, c, body); }); }
void w_switch() { cond("switch", [](MyASTVisitor& v, unsigned b, unsigned, Expr& c, Stmt& body) { visit_cond<SwitchStmt>(v, &MyASTVisitor::VisitSwitchStmt, b, c, body); }); }
void w_for() { cond("for", [](MyASTVisitor& v, unsigned b, unsigned rp, Expr& c, Stmt& body) { ForStmt s; s.b = at(b); s.cond = &c; s.body = &body; s.rparen = at(rp); v.VisitForStmt(&s); }); }
void w_catch() { cond("catch", [](MyASTVisitor& v, unsigned b, unsigned, Expr& c, Stmt& body) { CXXCatchStmt s; Decl d; d.b = c.b; d.e = c.e; s.b = at(b); s.decl = &d; s.block = &body; v.VisitCXXCatchStmt(&s); }); }
void w_function_same() { function(false); }
void w_function_own() { function(true); }
void w_ctor_1() { ctor(1, 6, false); }
void w_ctor_2() { ctor(2, 6, false); }
void w_ctor_comment() { ctor(2, 1, true); }
void w_ctor_comments() { ctor(2, 6, true); }
void w_ctor_3() { ctor(3, 1, false); }
void w_operator() { op(); }
void w_file() { file(); }
}
