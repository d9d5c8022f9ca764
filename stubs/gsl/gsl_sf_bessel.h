#pragma once
#include "verif.h"
inline double gsl_sf_bessel_jl(int l, double x) { return vf_ufn2("gsl_sf_bessel_jl", l, x); }
inline double gsl_sf_bessel_Jn(int l, double x) { return vf_ufn2("gsl_sf_bessel_Jn", l, x); }
inline double gsl_sf_bessel_yl(int l, double x) { return vf_ufn2("gsl_sf_bessel_yl", l, x); }
