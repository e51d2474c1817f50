// Stand-ins for the parts of the compiler's library the restyler uses: locations are offsets into one text.
#pragma once
#include <assert.h>
#include <ctype.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <memory>
#include <string>
#include <vector>
extern const char* rs_text; extern unsigned rs_size; extern bool rs_no_file, rs_errors; extern void (*rs_visit)(void* consumer);
namespace llvm {
struct StringRef { const char* p; size_t n; StringRef(const char* q, size_t m) : p(q), n(m) {} StringRef(const std::string& s) : p(s.data()), n(s.size()) {} const char* data() const { return p; } size_t size() const { return n; } };
struct Out { std::string text; Out& operator<<(const std::string& s) { text += s; return *this; } Out& operator<<(const char* s) { return *this; } };
extern Out rs_out, rs_err;
inline Out& outs() { return rs_out; }
inline Out& errs() { return rs_err; }
struct Triple { Triple(const std::string&) {} };
namespace sys { inline std::string getDefaultTargetTriple() { return ""; } }
namespace cl {
enum { Prefix, Positional, OneOrMore };
struct desc { desc(const char*) {} };
struct value_desc { value_desc(const char*) {} };
template <typename T> struct initv { T t; };
template <typename T> initv<T> init(T t) { return {t}; }
template <typename T> struct list { std::vector<T> v; template <typename... A> list(const A&...) {} auto begin() const { return v.begin(); } auto end() const { return v.end(); } };
template <typename T> struct opt { T t{}; template <typename... A> opt(const A&...) {} operator T() const { return t; } };
inline void ParseCommandLineOptions(int, char**) {}
}
}
namespace clang {
using llvm::StringRef;
inline bool isWhitespace(unsigned char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
struct SourceLocation {
    unsigned id = 0;      // 1 + offset; 0 is no location
    static SourceLocation at(unsigned o) { SourceLocation l; l.id = 1 + o; return l; }
    bool isValid() const { return id != 0; }
    bool isInvalid() const { return id == 0; }
    unsigned getRawEncoding() const { return id; }
    SourceLocation getLocWithOffset(int n) const { SourceLocation l; l.id = id + n; return l; }
    bool operator==(const SourceLocation& o) const { return id == o.id; }
    bool operator!=(const SourceLocation& o) const { return id != o.id; }
};
struct SourceRange { SourceRange(SourceLocation, SourceLocation) {} };
struct FileID { bool operator==(const FileID&) const { return true; } bool operator!=(const FileID&) const { return false; } };
struct FileEntry {};
namespace SrcMgr { enum { C_User }; }
struct SourceManager {
    FileID getMainFileID() const { return {}; }
    FileID getFileID(SourceLocation) const { return {}; }
    StringRef getBufferData(FileID) const { return {rs_text, rs_size}; }
    const char* getCharacterData(SourceLocation l) const { return rs_text + (l.id - 1); }
    unsigned getFileOffset(SourceLocation l) const { return l.id - 1; }
    unsigned line(SourceLocation l, unsigned* col) const { unsigned n = 1, c = 1; for (unsigned i = 0; i + 1 < l.id; i++) { c++; if (rs_text[i] == '\n') { n++; c = 1; } } *col = c; return n; }
    unsigned getSpellingColumnNumber(SourceLocation l, bool* bad = nullptr) const { unsigned c; line(l, &c); return c; }
    unsigned getSpellingLineNumber(SourceLocation l, bool* bad = nullptr) const { unsigned c; return line(l, &c); }
    FileID createFileID(const FileEntry*, SourceLocation, int) { return {}; }
    void setMainFileID(FileID) {}
};
struct FullSourceLoc { SourceLocation l; FullSourceLoc(SourceLocation a, SourceManager&) : l(a) {} const char* getCharacterData() const { return rs_text + (l.id - 1); } };
namespace tok { enum TokenKind { unknown, comment, raw_identifier, comma, hash, r_paren, kw_operator, other }; }
struct Token { tok::TokenKind k; unsigned at, n; tok::TokenKind getKind() const { return k; } };
struct LangOptions { bool Exceptions, CXXExceptions, RTTI, DoubleSquareBracketAttributes; };
inline unsigned rs_measure(unsigned at, tok::TokenKind* k) {
    const char* p = rs_text + at; unsigned left = rs_size - at;
    *k = tok::other;
    if (!left) return 0;
    if (p[0] == '/' && left > 1 && p[1] == '*') { unsigned n = 2; while (n + 1 < left && !(p[n] == '*' && p[n + 1] == '/')) n++; *k = tok::comment; return n + 2; }
    if (p[0] == '/' && left > 1 && p[1] == '/') { unsigned n = 2; while (n < left && p[n] != '\n') n++; *k = tok::comment; return n; }
    unsigned n = 0;
    while (n < left && ((p[n] >= 'a' && p[n] <= 'z') || (p[n] >= 'A' && p[n] <= 'Z') || p[n] == '_' || (n && p[n] >= '0' && p[n] <= '9'))) n++;
    if (n) { *k = tok::raw_identifier; return n; }
    while (n < left && p[n] >= '0' && p[n] <= '9') n++;
    if (n) return n;
    *k = p[0] == ',' ? tok::comma : p[0] == '#' ? tok::hash : p[0] == ')' ? tok::r_paren : tok::other;
    return 1;
}
struct Lexer {
    static bool getRawToken(SourceLocation l, Token& t, SourceManager&, const LangOptions&) { t.at = l.id - 1; if (isWhitespace(rs_text[t.at])) return true; t.n = rs_measure(t.at, &t.k); return false; }
    static SourceLocation getLocForEndOfToken(SourceLocation l, unsigned, SourceManager&, const LangOptions&) { tok::TokenKind k; if (isWhitespace(rs_text[l.id - 1])) return l; return l.getLocWithOffset(rs_measure(l.id - 1, &k)); }
};
inline bool rs_same(const char* p, const char* q) { while (*q) if (*p++ != *q++) return false; return true; }
struct IdentifierTable {};
struct IdentifierInfo { tok::TokenKind k; unsigned n; tok::TokenKind getTokenID() const { return k; } unsigned getLength() const { return n; } };
struct Builtins { void initializeBuiltins(IdentifierTable&, const LangOptions&) {} };
struct Preprocessor {
    IdentifierInfo info; IdentifierTable table; Builtins builtins; LangOptions lo;
    IdentifierInfo* LookUpIdentifierInfo(Token& t) { info.n = t.n; info.k = t.n == 8 && rs_same(rs_text + t.at, "operator") ? tok::kw_operator : tok::raw_identifier; return &info; }
    Builtins& getBuiltinInfo() { return builtins; } IdentifierTable& getIdentifierTable() { return table; } LangOptions& getLangOpts() { return lo; }
};
struct ASTContext { LangOptions lo; const LangOptions& getLangOpts() const { return lo; } };
enum Kind { K_Stmt, K_Compound };
struct Node { Kind kind = K_Stmt; SourceLocation b, e; SourceLocation getLocStart() const { return b; } SourceLocation getLocEnd() const { return e; } };
struct Stmt : Node {};
struct Expr : Stmt {};
struct CompoundStmt : Stmt { bool empty = false; static bool is(const Node* n) { return n->kind == K_Compound; } bool body_empty() const { return empty; } SourceLocation getLBracLoc() const { return b; } SourceLocation getRBracLoc() const { return e; } };
struct CondStmtBase : Stmt { Expr* cond = nullptr; Stmt* var = nullptr; Stmt* body = nullptr; Expr* getCond() { return cond; } Stmt* getConditionVariableDeclStmt() { return var; } Stmt* getThen() { return body; } Stmt* getBody() { return body; } };
struct IfStmt : CondStmtBase {};
struct WhileStmt : CondStmtBase {};
struct SwitchStmt : CondStmtBase {};
struct ForStmt : CondStmtBase { SourceLocation rparen; SourceLocation getRParenLoc() { return rparen; } };
struct Decl : Node { bool ctor = false; };
struct CXXCatchStmt : Stmt { Decl* decl; Stmt* block; Decl* getExceptionDecl() { return decl; } Stmt* getHandlerBlock() { return block; } };
struct FunctionTypeLoc : Node {};
struct TypeLoc { FunctionTypeLoc f; template <typename T> T getAs() const { return f; } };
struct TypeSourceInfo { TypeLoc t; TypeLoc getTypeLoc() const { return t; } };
struct NameInfo { SourceLocation l; SourceLocation getLoc() const { return l; } };
struct FunctionDecl : Decl {
    TypeSourceInfo type; NameInfo name; Stmt* body = nullptr; bool op = false;
    bool isOverloadedOperator() const { return op; } bool hasBody() const { return body; } Stmt* getBody() { return body; }
    TypeSourceInfo* getTypeSourceInfo() { return &type; } NameInfo getNameInfo() const { return name; }
};
struct CXXCtorInitializer { SourceLocation r; SourceLocation getRParenLoc() const { return r; } };
struct CXXConstructorDecl : FunctionDecl {
    std::vector<CXXCtorInitializer*> in;
    static bool is(const Decl* n) { return n->ctor; }
    const std::vector<CXXCtorInitializer*>& inits() const { return in; }
    unsigned getNumCtorInitializers() const { return unsigned(in.size()); }
    auto init_rbegin() const { return in.rbegin(); } auto init_rend() const { return in.rend(); }
};
template <typename T, typename S> bool isa(S* s) { return T::is(s); }
template <typename T, typename S> T* dyn_cast(S* s) { return T::is(s) ? static_cast<T*>(s) : nullptr; }
struct DeclGroupRef { typedef Decl** iterator; Decl** b = nullptr; Decl** e = nullptr; iterator begin() { return b; } iterator end() { return e; } };
template <typename T> struct RecursiveASTVisitor { bool TraverseDecl(Decl* d) { return static_cast<T*>(this)->VisitFunctionDecl(static_cast<FunctionDecl*>(d)); } };
struct ASTConsumer { virtual ~ASTConsumer() {} virtual bool HandleTopLevelDecl(DeclGroupRef) { return true; } };
struct DiagnosticConsumer { void BeginSourceFile(const LangOptions&, Preprocessor*) {} unsigned getNumErrors() const { return rs_errors; } };
struct DiagnosticsEngine { DiagnosticConsumer c; DiagnosticConsumer* getClient() { return &c; } };
struct FileManager { FileEntry f; const FileEntry* getFile(const std::string&) { return rs_no_file ? nullptr : &f; } };
struct TargetOptions { std::string Triple; };
struct TargetInfo { static TargetInfo* CreateTargetInfo(DiagnosticsEngine&, std::shared_ptr<TargetOptions>) { return nullptr; } };
struct PreprocessorOptions { bool UsePredefines; };
namespace frontend { enum IncludeDirGroup { Angled }; }
struct HeaderSearchOptions { void AddPath(StringRef, int, bool, bool) {} };
struct InputKind { enum { CXX, Source }; InputKind(int, int) {} };
struct LangStandard { enum { lang_cxx17 }; };
struct CompilerInvocation { static void setLangDefaults(LangOptions&, InputKind, llvm::Triple&, PreprocessorOptions&, int) {} };
enum { TU_Complete };
struct CompilerInstance {
    SourceManager sm; FileManager fm; DiagnosticsEngine de; Preprocessor pp; ASTContext ac; PreprocessorOptions ppo; HeaderSearchOptions hso; LangOptions lo;
    void createDiagnostics() {} void createFileManager() {} void createSourceManager(FileManager&) {} void createPreprocessor(int) {} void createASTContext() {} void setTarget(TargetInfo*) {}
    SourceManager& getSourceManager() { return sm; } FileManager& getFileManager() { return fm; } DiagnosticsEngine& getDiagnostics() { return de; } DiagnosticConsumer& getDiagnosticClient() { return de.c; }
    Preprocessor& getPreprocessor() { return pp; } ASTContext& getASTContext() { return ac; } PreprocessorOptions& getPreprocessorOpts() { return ppo; } HeaderSearchOptions& getHeaderSearchOpts() { return hso; } LangOptions& getLangOpts() { return lo; }
};
inline void ParseAST(Preprocessor&, ASTConsumer* c, ASTContext&) { if (rs_visit) rs_visit(c); }
}
