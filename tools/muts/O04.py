F = 'os/am-system-errors.h'
M = [
 ('V', F, 'if (ptr != error)', 'if (ptr == error)'),
 ('V', F, '    if (ptr != error)\n        ke::SafeSprintf(error, maxlength, "%s", ptr);', ''),
 ('V', F, 'ke::SafeSprintf(error, maxlength, "%s", ptr);', 'strncpy(error, ptr, maxlength);'),
 ('V', F, 'ke::SafeSprintf(error, maxlength, "%s", ptr);', 'strcpy(error, ptr);'),
 ('V', F, 'const char* ptr = strerror_r(code, error, maxlength);', 'const char* ptr = strerror_r(errno, error, maxlength);'),
 ('V', F, 'FormatSystemErrorCode(errno, error, maxlength);', 'SafeStrcpy(error, maxlength, ""); FormatSystemErrorCode(-errno, error, maxlength);'),
 ('V', F, 'strerror_r(code, error, maxlength);\n    if', 'strerror_r(code, error, maxlength + 1);\n    if'),
 ('V', F, 'SafeSprintf(error, maxlength, "%s", ptr)', 'SafeSprintf(error, maxlength - 1, "%s", ptr)'),
 ('Q', F, 'ke::SafeSprintf(error, maxlength, "%s", ptr);', 'ke::SafeStrcpy(error, maxlength, ptr);'),
 ('Q', F, '    if (ptr != error)\n', '    if (ptr && ptr != error)\n'),
]
