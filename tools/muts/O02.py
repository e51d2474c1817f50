F = 'os/am-fsutil-posix.h'
M = [
 ('V', F, 'return (stat(path, &s) == 0);', 'return (stat(path, &s) >= 0 && S_ISREG(s.st_mode));'),
 ('V', F, 'return (stat(path, &s) == 0);', 'return (stat(path, &s) != -1 || s.st_mode);'),
 ('V', F, '''    if (stat(path, &s) != 0)
        return false;
    return S_ISREG''', '''    stat(path, &s);
    return S_ISREG'''),
 ('V', F, 'return S_ISREG(s.st_mode) ? true : false;', 'return s.st_mode & S_IFREG;'),
 ('V', F, 'return S_ISREG(s.st_mode) ? true : false;', 'return !S_ISDIR(s.st_mode);'),
 ('V', F, 'return S_ISDIR(s.st_mode) ? true : false;', 'return (s.st_mode & S_IFDIR) ? true : false;'),
 ('V', F, 'mkdir(path, mode) == 0', 'mkdir(path, mode & 0777) == 0'),
 ('V', F, 'mkdir(path, mode) == 0', 'mkdir(path, mode) <= 0'),
 ('V', F, 'mkdir(path, mode) == 0', 'mkdir(path, mode) == 0 || PathExists(path)'),
 ('V', F, 'unsigned mode = 0755', 'unsigned mode = 0777'),
 ('V', F, '    return S_ISDIR', '    if (s.st_mode == 0) return stat(path, &s) == 0; return S_ISDIR') if False else ('V', F, 'return mkdir(', 'return !IsDirectory(path) && mkdir('),
 ('Q', F, '    if (stat(path, &s) != 0)\n        return false;\n    return S_ISDIR(s.st_mode) ? true : false;', '    return stat(path, &s) == 0 && (s.st_mode & S_IFMT) == S_IFDIR;'),
 ('Q', F, 'return (stat(path, &s) == 0);', 'return !stat(path, &s);'),
 ('Q', F, 'return mkdir(path, mode) == 0;', 'int rc = mkdir(path, (mode_t)mode);\n    return rc != -1;'),
]
