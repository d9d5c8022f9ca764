// C02-C05: math/Function.h, math/Calculus.h, components/Sources.{h,cpp}, components/Spherical.{h,cpp}
#include "verif.h"
#include "components/Spherical.cpp"
#include "components/Sources.cpp"

using namespace maxwell;

static Position point(const char* name, int n, double lo = -2.0, double hi = 2.0)
{
	double* a = vf_real_array(name, n, lo, hi);
	Position p(n);
	for (int i = 0; i < n; i++) p[i] = a[i];
	return p;
}

// an arbitrary waveform
struct AnyFunction : public Function {
	int dim;
	AnyFunction(int d) : dim(d) {}
	std::unique_ptr<Function> clone() const override { return std::make_unique<AnyFunction>(*this); }
	double eval(const Position& p) const override { return vf_ufn3("waveform", p[0], p.Size() > 1 ? p[1] : 0.0, p.Size() > 2 ? p[2] : 0.0); }
	int dimension() const override { return dim; }
};

// ---------------------------------------------------------------- C02
VF_HARNESS(C02_gaussian)
{
	int dim = 1 + vf_choose("dim", 3);
	int extra = vf_choose("extra", 3);
	vf_requires(dim + extra <= 3);
	double s = vf_real("spread", 0.05, 3.0);
	vf_requires(s > 0.0);
	Position mean = point("mean", dim), x = point("x", dim + extra);
	Gaussian g(s, mean, dim);
	double r2 = 0.0;
	for (int d = 0; d < dim; d++) r2 += (x[d] - mean[d]) * (x[d] - mean[d]);
	double want = std::exp(-r2 / (2.0 * s * s));
	vf_ensures_near(g.eval(x), want, 1e-12, "a Gaussian is exp(-|x-mean|^2/(2 spread^2)) over its own dimensions");
	vf_ensures(g.dimension() == dim, "a Gaussian reports its dimension");
	std::unique_ptr<Function> c = g.clone();
	vf_ensures_near(c->eval(x), want, 1e-12, "a copy of a Gaussian evaluates alike");
	vf_cover("gaussian");
}

VF_HARNESS(C02_modulated_gaussian)
{
	int dim = 1 + vf_choose("dim", 3);
	double s = vf_real("spread", 0.05, 3.0), f = vf_real("freq", 0.0, 3.0);
	vf_requires(s > 0.0);
	Position mean = point("mean", dim), x = point("x", dim);
	ModulatedGaussian g(s, mean, f, dim);
	double a = x[0] - mean[0];
	double want = std::exp(-a * a / (2.0 * s * s)) * std::cos(2.0 * M_PI * f * a);
	vf_ensures_near(g.eval(x), want, 1e-11, "a modulated Gaussian is its envelope times cos(2 pi f (x-mean))");
	vf_ensures(g.dimension() == dim, "a modulated Gaussian reports its dimension");
	vf_ensures_near(g.clone()->eval(x), want, 1e-11, "a copy of a modulated Gaussian evaluates alike");
	vf_cover("modulated");
}

VF_HARNESS(C02_resonant_mode)
{
	int n = vf_size("n", 1, 4);
	double* x = vf_real_array("x", n, -2.0, 2.0);
	int* m = vf_index_array("m", n, 0, 100);
	std::vector<std::size_t> modes;
	for (int d = 0; d < n; d++) modes.push_back((std::size_t) m[d]);
	SinusoidalMode s(modes);
	Position p(x, n);
	double want = 1.0;
	for (int d = 0; d < n; d++) want *= std::sin(m[d] * M_PI * x[d]);
	vf_ensures_near(s.eval(p), want, 1e-11, "a resonant mode is the product of sin(m_d pi x_d)");
	vf_ensures(s.dimension() == n, "a resonant mode has one dimension per mode number");
	vf_cover("mode");
}

VF_HARNESS(C02_bessel_modes)
{
	Position p = point("x", 3);
	double x = p[0], y = p[1], z = p[2];
	vf_requires(x * x + y * y > 0.0);
	const double k = 13.589290170541217;
	double rho = std::sqrt(x * x + y * y), r = std::sqrt(x * x + y * y + z * z);
	double c6 = std::cos(6.0 * std::atan2(y, x));
	vf_ensures_near(BesselJ6().eval(p), jn(6, k * rho) * c6, 1e-10, "the circular mode is J6(k rho) cos(6 phi)");
	vf_ensures_near(SphericalBesselJ6().eval(p), gsl_sf_bessel_jl(6, k * r) * gsl_sf_legendre_sphPlm(6, 6, std::cos(std::acos(z / r))) * c6, 1e-8, "the spherical mode is j6(k r) P66(cos theta) cos(6 phi)");
	vf_ensures(BesselJ6().dimension() == 2 && SphericalBesselJ6().dimension() == 3, "Bessel modes report their dimension");
	Position o(3);
	o = 0.0;
	vf_ensures(SphericalBesselJ6().eval(o) == 0.0, "the spherical mode vanishes at its centre");
	vf_cover("bessel");
}

VF_HARNESS(C02_initial_field)
{
	int n = 1 + vf_choose("n", 3);
	Position x = point("x", n), c = point("c", 3), raw = point("pol", 3);
	double nn = raw[0] * raw[0] + raw[1] * raw[1] + raw[2] * raw[2];
	vf_requires(nn > 1e-3);
	Polarization pol(3);
	for (int d = 0; d < 3; d++) pol[d] = raw[d] / std::sqrt(nn);
	FieldType ft = vf_bool("isH") ? H : E, ask = vf_bool("askH") ? H : E;
	int d = vf_choose("d", 3);
	double t = vf_real("t", 0.0, 5.0);
	AnyFunction f(n);
	InitialField src(f, ft, pol, c);
	double w = vf_ufn3("waveform", x[0] - c[0], n > 1 ? x[1] - c[1] : 0.0, n > 2 ? x[2] - c[2] : 0.0);
	double v = src.eval(x, t, ask, d);
	if (ask == ft) vf_ensures_near(v, w * pol[d], 1e-9, "an initial field is the shifted waveform times its polarisation");
	else vf_ensures(v == 0.0, "an initial field of one type leaves the other at zero");
	Sources all;
	all.add(src);
	Sources copy(all);
	vf_ensures(copy.size() == 1, "copying a list of sources keeps its length");
	vf_ensures_near((*copy.begin())->eval(x, t, ask, d), v, 1e-12, "a copied source evaluates alike");
	vf_cover("initial");
}

// ---------------------------------------------------------------- C03
struct Wave {
	Position pol, dir, x;
	FieldType given;
	double t;
	Wave(int n) : pol(3), dir(3), x(point("x", n))
	{
		Position a = point("a", 3);
		Position k = point("k", 3);
		for (int d = 0; d < 3; d++) dir[d] = k[d];
		// polarisation: any vector perpendicular to the propagation direction
		pol[0] = a[1] * k[2] - a[2] * k[1];
		pol[1] = a[2] * k[0] - a[0] * k[2];
		pol[2] = a[0] * k[1] - a[1] * k[0];
		vf_requires(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2] > 1e-3);
		vf_requires(pol[0] * pol[0] + pol[1] * pol[1] + pol[2] * pol[2] > 1e-3);
		given = vf_bool("givenH") ? H : E;
		t = vf_real("t", -3.0, 3.0);
	}
};

VF_HARNESS(C03_transverse)
{
	int n = 1 + vf_choose("n", 3);
	Wave w(n);
	Planewave direct(AnyFunction(1), w.pol, w.dir, w.given);
	TotalField src(direct);
	double kn = std::sqrt(w.dir[0] * w.dir[0] + w.dir[1] * w.dir[1] + w.dir[2] * w.dir[2]);
	double e[3], h[3], k[3];
	for (int d = 0; d < 3; d++) { e[d] = src.eval(w.x, w.t, E, d); h[d] = src.eval(w.x, w.t, H, d); k[d] = w.dir[d] / kn; }
	for (int d = 0; d < 3; d++) {
		int a = (d + 1) % 3, b = (d + 2) % 3;
		vf_ensures_near(h[d], k[a] * e[b] - k[b] * e[a], 1e-9, "H = k x E for a plane wave");
		vf_ensures_near(e[d], h[a] * k[b] - h[b] * k[a], 1e-9, "E = H x k for a plane wave");
	}
	vf_ensures_near(e[0] * k[0] + e[1] * k[1] + e[2] * k[2], 0.0, 1e-9, "E is transverse to the propagation direction");
	vf_ensures_near(h[0] * k[0] + h[1] * k[1] + h[2] * k[2], 0.0, 1e-9, "H is transverse to the propagation direction");
	vf_ensures_near(e[0] * e[0] + e[1] * e[1] + e[2] * e[2], h[0] * h[0] + h[1] * h[1] + h[2] * h[2], 1e-9, "|E| = |H| for a plane wave");
	vf_cover("transverse");
}

VF_HARNESS(C03_amplitude_and_delay)
{
	int n = 1 + vf_choose("n", 3);
	Wave w(n);
	Planewave pw(AnyFunction(1), w.pol, w.dir, w.given);
	TotalField src(pw);
	double kn = std::sqrt(w.dir[0] * w.dir[0] + w.dir[1] * w.dir[1] + w.dir[2] * w.dir[2]);
	double pn = std::sqrt(w.pol[0] * w.pol[0] + w.pol[1] * w.pol[1] + w.pol[2] * w.pol[2]);
	double delay = 0.0;
	for (int d = 0; d < n; d++) delay += w.x[d] * w.dir[d] / kn;
	double f = vf_ufn3("waveform", delay - w.t, 0.0, 0.0);
	int d = vf_choose("d", 3);
	vf_ensures_near(src.eval(w.x, w.t, w.given, d), f * w.pol[d] / pn, 1e-8, "the given field is the waveform of the projected delay along the normalised polarisation");
	vf_cover("amplitude");
}

VF_HARNESS(C03_travels)
{
	Wave w(3);
	Planewave pw(AnyFunction(1), w.pol, w.dir, w.given);
	double s = vf_real("s", -2.0, 2.0);
	double kn = std::sqrt(w.dir[0] * w.dir[0] + w.dir[1] * w.dir[1] + w.dir[2] * w.dir[2]);
	Position y(3);
	for (int d = 0; d < 3; d++) y[d] = w.x[d] + s * w.dir[d] / kn;
	FieldType ft = vf_bool("askH") ? H : E;
	int d = vf_choose("d", 3);
	vf_ensures_near(pw.eval(y, w.t + s, ft, d), pw.eval(w.x, w.t, ft, d), 1e-6, "the wave travels along its direction at unit speed");
	vf_cover("travel");
}

// ---------------------------------------------------------------- C04
static double dip(double x, double y, double z, double t, double len, double s, double t0, FieldType ft, int d)
{
	Position p(3);
	p[0] = x; p[1] = y; p[2] = z;
	DerivGaussDipole f(len, s, t0);
	TotalField src(f);
	return src.eval(p, t, ft, d);
}
template <class F> static double partial(F f, int v, double x, double y, double z, double t)
{
	if (v == 0) return vf_derivative([&](double q) { return f(q, y, z, t); }, x);
	if (v == 1) return vf_derivative([&](double q) { return f(x, q, z, t); }, y);
	if (v == 2) return vf_derivative([&](double q) { return f(x, y, q, t); }, z);
	return vf_derivative([&](double q) { return f(x, y, z, q); }, t);
}

struct Dip {
	double x, y, z, t, len, s, t0;
	Dip()
	{
		x = vf_real("x", 0.6, 2.0); y = vf_real("y", 0.6, 2.0); z = vf_real("z", -2.0, 2.0); t = vf_real("t", 0.0, 6.0);
		len = vf_real("len", 0.1, 2.0); s = vf_real("spread", 0.5, 2.0); t0 = vf_real("mean", 0.0, 3.0);
		vf_requires(s > 0.0);
		vf_requires(x * x + y * y > 0.0);
	}
	double operator()(FieldType ft, int d, int v) const
	{
		return partial([&](double a, double b, double c, double q) { return dip(a, b, c, q, len, s, t0, ft, d); }, v, x, y, z, t);
	}
};

VF_HARNESS(C04_faraday)
{
	Dip p;
	int d = vf_choose("d", 3), a = (d + 1) % 3, b = (d + 2) % 3;
	vf_ensures_near(p(E, b, a) - p(E, a, b), -p(H, d, 3), 2e-5, "curl E = -dH/dt away from the dipole axis");
	vf_cover("faraday");
}
VF_HARNESS(C04_ampere)
{
	Dip p;
	int d = vf_choose("d", 3), a = (d + 1) % 3, b = (d + 2) % 3;
	vf_ensures_near(p(H, b, a) - p(H, a, b), p(E, d, 3), 2e-5, "curl H = dE/dt away from the dipole axis");
	vf_cover("ampere");
}
VF_HARNESS(C04_components)
{
	Dip p;
	double r = std::sqrt(p.x * p.x + p.y * p.y + p.z * p.z), u = (p.t - p.t0 - r) / p.s;
	double e[3], h[3];
	for (int d = 0; d < 3; d++) { e[d] = dip(p.x, p.y, p.z, p.t, p.len, p.s, p.t0, E, d); h[d] = dip(p.x, p.y, p.z, p.t, p.len, p.s, p.t0, H, d); }
	// moment p(t) = A exp(-(t-t0)^2/(2 s^2)), A = len * s*sqrt(2)*e/2
	double q = p.len * (p.s * std::sqrt(2.0) * std::exp(1.0) / 2.0) * std::exp(-u * u / 2.0), q1 = -q * u / p.s, q2 = q * (u * u - 1.0) / (p.s * p.s);
	double k = 1.0 / (4.0 * M_PI), rho2 = p.x * p.x + p.y * p.y;
	vf_ensures_near(h[2], 0.0, 1e-12, "H of a z-directed dipole has no z component");
	vf_ensures_near(h[0] * p.x + h[1] * p.y, 0.0, 1e-9, "H of a z-directed dipole is azimuthal");
	vf_ensures_near(p.x * h[1] - p.y * h[0], k * (rho2 / r) * (q2 / r + q1 / (r * r)), 1e-9, "H carries the induction and radiation terms");
	vf_ensures_near((e[0] * p.x + e[1] * p.y + e[2] * p.z) / r, 2.0 * k * (p.z / r) * (q / (r * r * r) + q1 / (r * r)), 1e-9, "radial E carries the near and intermediate terms");
	vf_ensures_near((e[0] * p.x + e[1] * p.y) * p.z / r - e[2] * rho2 / r, k * (rho2 / r) * (q / (r * r * r) + q1 / (r * r) + q2 / r), 1e-9, "polar E carries the near, intermediate and radiation terms");
	vf_cover("components");
}

// ---------------------------------------------------------------- C05
VF_HARNESS(C05_point_round_trip)
{
	int n = 2 + vf_choose("n", 2);
	Position p = point("p", n);
	double rho2 = p[0] * p[0] + p[1] * p[1];
	vf_requires(rho2 > 1e-12);
	SphericalVector s(p);
	double z = n == 3 ? p[2] : 0.0;
	vf_ensures(s.radius >= 0.0, "the radius is not negative");
	vf_ensures_near(s.radius * s.radius, rho2 + z * z, 1e-12, "the radius is the length of the point");
	const std::vector<double> c = s.convertToCartesian();
	vf_ensures_near(c[0], p[0], 1e-7, "x survives conversion to spherical form and back");
	vf_ensures_near(c[1], p[1], 1e-7, "y survives conversion to spherical form and back");
	vf_ensures_near(c[2], z, 1e-7, "z survives conversion to spherical form and back");
	std::vector<double> q(n);
	for (int i = 0; i < n; i++) q[i] = p[i];
	SphericalVector s2(q);
	vf_ensures(s2.radius == s.radius && s2.theta == s.theta && s2.phi == s.phi, "both constructors agree");
	vf_cover("point");
}

VF_HARNESS(C05_axis)
{
	double z = vf_real("z", -2.0, 2.0);
	vf_requires(z != 0.0);
	Position p(3);
	p[0] = 0.0; p[1] = 0.0; p[2] = z;
	SphericalVector s(p);
	const std::vector<double> c = s.convertToCartesian();
	vf_ensures_near(s.radius, std::abs(z), 1e-12, "on the axis the radius is |z|");
	vf_ensures_near(c[2], z, 1e-9, "points of the axis survive conversion to spherical form and back");
	vf_cover("axis");
}

VF_HARNESS(C05_field_conversion)
{
	double r = vf_real("r", 0.1, 3.0), th = vf_real("theta", 0.0, 3.1), ph = vf_real("phi", -3.0, 3.0);
	double ar = vf_real("ar", -2.0, 2.0), at = vf_real("at", -2.0, 2.0), ap = vf_real("ap", -2.0, 2.0);
	SphericalVector s(r, th, ph);
	const std::vector<double> c = s.convertSphericalVectorFieldToCartesian(ar, at, ap);
	double st = std::sin(th), ct = std::cos(th), sp = std::sin(ph), cp = std::cos(ph);
	vf_ensures_near(c[0] * c[0] + c[1] * c[1] + c[2] * c[2], ar * ar + at * at + ap * ap, 1e-10, "converting a vector keeps its length");
	vf_ensures_near(c[0] * st * cp + c[1] * st * sp + c[2] * ct, ar, 1e-10, "the radial part is the projection on the radial direction");
	vf_ensures_near(c[0] * ct * cp + c[1] * ct * sp - c[2] * st, at, 1e-10, "the polar part is the projection on the polar direction");
	vf_ensures_near(-c[0] * sp + c[1] * cp, ap, 1e-10, "the azimuthal part is the projection on the azimuthal direction");
	vf_cover("field");
}
