M=[
('V','am-string.h','static inline size_t\nSafeVsprintf','size_t\nSafeVsprintf') if False else
('V','os/am-path.h','static inline size_t','size_t'),
('V','am-string.h','static inline bool StartsWith(const std::string& first','bool StartsWith(const std::string& first'),
('V','am-utility.h','#define _include_amtl_utility_h_','') if False else
('V','am-bits.h','static inline','',0) if False else
('V','am-float.h','static inline bool','bool') if False else
('V','os/am-system-errors.h','static inline','') if False else
('V','am-threadlocal.h','namespace ke {','namespace ke {\nint tls_count = 0;') ,
('V','am-refcounting.h','class Refcounted\n','int refcount_live(int);\nstruct RefLive { static int live; };\nclass Refcounted\n') if False else
('V','am-hashtable.h','bool isLive() const {','bool isLive() const {\n        if (hash_ == 77) throw 3;'),
('V','am-hashtable.h','bool isLive() const {','bool isLive() const {\n        #if __cpp_exceptions\n        if (hash_ == 77) throw 3;\n#endif'),
('V','am-float.h','_include_amtl_float_h_','_include_amtl_bits_h_') if False else
('V','am-utility.h','#include','typedef struct { int a; } ke_unguarded;\n#include') if False else
('Q','am-float.h','namespace ke {','namespace ke {\nstatic const int kFoo = 3;\nconstexpr int kBar = 4;\nstatic inline int foo() { return kFoo + kBar; }'),
('Q','am-hashtable.h','class HashTable','template <typename T> int zfoo(T t) { static int s; return ++s; }\nclass HashTable') if False else
('Q','am-threadlocal.h','namespace ke {','namespace ke {\nstruct Zed { int a() { return 1; } virtual ~Zed() {} };\ninline int zed() { static int s; return ++s + Zed().a(); }'),
]
