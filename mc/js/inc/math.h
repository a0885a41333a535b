#pragma once
typedef float float_t; typedef double double_t;
#define M_PI 3.14159265358979323846
#define NAN __builtin_nanf("")
#define INFINITY __builtin_inff()
#define HUGE_VAL __builtin_inf()
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define signbit(x) __builtin_signbit(x)
double frexp(double,int*), ldexp(double,int), atan(double), cos(double), sin(double), tan(double), pow(double,double), exp(double), log(double), log2(double), log10(double), floor(double), ceil(double), sqrt(double), fabs(double), round(double), trunc(double), fmod(double,double), fmax(double,double), fmin(double,double), copysign(double,double), atan2(double,double), hypot(double,double), rint(double), nearbyint(double);
float frexpf(float,int*), atanf(float), cosf(float), sinf(float), powf(float,float), expf(float), logf(float), log2f(float), floorf(float), ceilf(float), sqrtf(float), fabsf(float), roundf(float), truncf(float), fmaxf(float,float), fminf(float,float), copysignf(float,float), rintf(float);
long lround(double); long lroundf(float); long lrint(double);
