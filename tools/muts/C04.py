f='../compat/stdcxx.cpp'
M=[
('V',f,'return pow(x, y)','return pow(y, x)'),
('V',f,'return atan2(x, y)','return atan2(y, x)'),
('Q',f,'return powf(x, y)','return pow(x, y)'),
('V',f,'return powf(x, y)','return pow(double(x), double(y))'),
('V',f,'return acosf(x)','return asinf(x)'),
('V',f,'float __attribute__((weak)) __logf_finite','float __logf_finite'),
('V',f,'return log(x)','return x > 0 ? log(x) : 0'),
('V',f,'return log(x)','return log10(x)'),
('V',f,'    double __attribute__((weak)) __asin_finite(double x) { return asin(x); }\n',''),
('V',f,'float __attribute__((weak)) __asinf_finite(float x)','double __attribute__((weak)) __asinf_finite(double x)'),
('Q',f,'return pow(x, y)','double r = pow(x, y); return r'),
('Q',f,'extern "C" {','static inline double powimpl(double a, double b) { return pow(a, b); }\nextern "C" {') ,
('Q',f,[('return pow(x, y)','return powimpl(x, y)'),('extern "C" {','static double powimpl(double a, double b) { return pow(a, b); }\nextern "C" {')]),
('Q',f,'#include <math.h>','#define SHIM1(t, n) t __attribute__((weak)) __##n##_finite(t x) { return n(x); }\n#include <math.h>'),
('Q',f,'return log(x)','return ::log(x)'),
('Q',f,'extern "C" {','extern "C" {\n double __attribute__((weak)) __exp_finite(double x) { return exp(x); }'),
]
