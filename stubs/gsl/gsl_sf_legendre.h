#pragma once
#include "verif.h"
inline double gsl_sf_legendre_sphPlm(int l, int m, double x) { return vf_ufn3("gsl_sf_legendre_sphPlm", l, m, x); }
inline double gsl_sf_legendre_Plm(int l, int m, double x) { return vf_ufn3("gsl_sf_legendre_Plm", l, m, x); }
inline double gsl_sf_legendre_Pl(int l, double x) { return vf_ufn2("gsl_sf_legendre_Pl", l, x); }
