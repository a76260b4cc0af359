#ifndef VF_MATH_H
#define VF_MATH_H
#define INFINITY (__builtin_inff())
#define NAN (__builtin_nanf(""))
#define HUGE_VAL (__builtin_inf())
#define isnan(x) ((x) != (x))
#define isinf(x) ((x) == (double)INFINITY || (x) == -(double)INFINITY)
#define signbit(x) __builtin_signbit(x)
double fabs(double); double floor(double); double ceil(double); double pow(double, double); double log10(double); double log(double); double ldexp(double, int); double frexp(double, int *); double sqrt(double); double round(double); double fmod(double, double); float fabsf(float); double modf(double, double *); double exp(double); double log2(double); double trunc(double); double rint(double); double copysign(double, double); float ldexpf(float, int); float powf(float, float); float floorf(float); long lround(double); double exp2(double); double fmax(double, double); double fmin(double, double); double exp10(double);
#endif
