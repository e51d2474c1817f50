F = 'os/am-shared-library.h'
M = [
 ('V', F, '        if (lib_ == nullptr)\n            return;\n', ''),
 ('V', F, '        dlclose(lib_);', ''),
 ('V', F, '        dlclose(lib_);', '        dlclose(lib_); if (!valid()) lib_ = nullptr; else dlclose(lib_);'),
 ('V', F, 'if (!lib || !lib->valid()) {', 'if (!lib) {'),
 ('V', F, 'if (!error || !maxlength)', 'if (!error)') if False else ('V', F, 'if (!error || !maxlength)', 'if (error || !maxlength)'),
 ('V', F, 'SafeStrcpy(error, maxlength, dlerror());', 'strncpy(error, dlerror(), maxlength);'),
 ('V', F, 'SafeStrcpy(error, maxlength, dlerror());', 'SafeSprintf(error, maxlength, dlerror());') if False else ('V', F, 'SafeStrcpy(error, maxlength, dlerror());', 'if (dlerror()) SafeStrcpy(error, maxlength, dlerror());'),
 ('V', F, 'SafeStrcpy(error, maxlength, dlerror());', 'strcpy(error, dlerror());'),
 ('V', F, 'SafeStrcpy(error, maxlength, dlerror());', 'SafeStrcpy(error, maxlength - 1, dlerror());'),
 ('V', F, 'return lib.forget();', 'return lib.get();') if False else ('V', F, 'return lib.forget();', 'lib.get()->AddRef(); return lib.forget();'),
 ('V', F, 'return dlsym(lib_, symbol);', 'return dlsym(nullptr, symbol);'),
 ('V', F, 'return reinterpret_cast<T>(lookup(symbol));', 'return lookup(symbol) ? reinterpret_cast<T>(lookup(symbol)) : T();'),
 ('V', F, 'lib_ = dlopen(path, RTLD_NOW);', 'lib_ = dlopen(path, RTLD_NOW | RTLD_NOLOAD); if (!lib_) lib_ = dlopen(path, RTLD_NOW);'),
 ('V', F, '     : lib_(lib) {', '     : lib_(nullptr) {'),
 ('V', F, '''    bool valid() const {
        return !!lib_;''', '''    bool valid() const {
        return true;'''),
 ('V', F, 'RefPtr<SharedLib> lib = new SharedLib(path);', 'SharedLib* raw = new SharedLib(path); if (!raw->valid() && !maxlength) return nullptr; RefPtr<SharedLib> lib = raw;'),
 ('Q', F, '''        if (lib_ == nullptr)
            return;
''', '''        if (!valid())
            return;
'''),
 ('Q', F, 'SafeStrcpy(error, maxlength, dlerror());', 'SafeSprintf(error, maxlength, "%s", dlerror());'),
 ('Q', F, '''        RefPtr<SharedLib> lib = new SharedLib(path);
        if (!lib || !lib->valid()) {''', '''        RefPtr<SharedLib> lib(new SharedLib(path));
        if (!lib->valid()) {'''),
]
