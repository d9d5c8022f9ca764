// C18: components/FarField.cpp, components/RCSSurfacePostProcessor.cpp, components/RCSManager.cpp,
// mfemExtension/LinearIntegrators.cpp
#include "verif.h"
#include "io.h"
#include "mfemExtension/LinearIntegrators.cpp"
#include "components/FarField.cpp"
#include "components/RCSSurfacePostProcessor.cpp"
#include "components/RCSManager.cpp"

using namespace maxwell;
using Cx = std::complex<double>;

// the case file, already read
static json* theCase = nullptr;
namespace maxwell::driver {
json parseJSONfile(const std::string&) { return *theCase; }
mfem::Vector assemble3DVector(const json& v) { mfem::Vector r(3); for (int i = 0; i < 3; i++) r[i] = v[i].get<double>(); return r; }
}

// ---------------------------------------------------------------------------------------------- phase
static const double wave = 2.0 * M_PI;

VF_HARNESS(C18_phase_space)
{
	SphericalAngles a{ vf_real("theta", 0.0, 3.1), vf_real("phi", -3.1, 6.2) };
	double f = vf_real("f", 0.02, 9.0); vf_requires(f > 0.01 && f < 10.0);
	// the point, by its components along and across the direction of observation
	double s = vf_real("along", -4.0, 4.0), t = vf_real("across", -4.0, 4.0), u = vf_real("across2", -4.0, 4.0);
	vf_requires(s > -10.0 && s < 10.0 && t > -10.0 && t < 10.0 && u > -10.0 && u < 10.0);
	vf_requires(s * s + t * t + u * u > 1e-4);
	double st = std::sin(a.theta), ct = std::cos(a.theta), sp = std::sin(a.phi), cp = std::cos(a.phi);
	Vector p(3);
	p[0] = s * st * cp + t * ct * cp - u * sp;
	p[1] = s * st * sp + t * ct * sp + u * cp;
	p[2] = s * ct - t * st;
	double phase = wave * f * s;
	vf_ensures_near(func_exp_real_part_3D(p, f, a), std::cos(phase), 1e-5, "the real part of the phase factor is the cosine of k r.u");
	vf_ensures_near(func_exp_imag_part_3D(p, f, a), std::sin(phase), 1e-5, "the imaginary part of the phase factor is the sine of k r.u");
	vf_cover("phase");
}

VF_HARNESS(C18_phase_plane)
{
	SphericalAngles a{ vf_real("theta", 0.0, 3.1), vf_real("phi", -3.1, 6.2) };
	double f = vf_real("f", 0.02, 9.0); vf_requires(f > 0.01 && f < 10.0);
	double s = vf_real("along", -4.0, 4.0), t = vf_real("across", -4.0, 4.0);
	vf_requires(s > -10.0 && s < 10.0 && t > -10.0 && t < 10.0 && s * s + t * t > 1e-4);
	Vector p(2);
	p[0] = s * std::cos(a.phi) - t * std::sin(a.phi);
	p[1] = s * std::sin(a.phi) + t * std::cos(a.phi);
	double phase = wave * f * s * std::sin(a.theta);
	vf_ensures_near(func_exp_real_part_2D(p, f, a), std::cos(phase), 1e-5, "the real part of the phase factor is the cosine of k r.u");
	vf_ensures_near(func_exp_imag_part_2D(p, f, a), std::sin(phase), 1e-5, "the imaginary part of the phase factor is the sine of k r.u");
	vf_cover("phase");
}

// a point in the direction of observation: the phase is k times its distance
VF_HARNESS(C18_phase_aligned)
{
	SphericalAngles a{ vf_real("theta", 0.0, 3.1), vf_real("phi", -3.1, 6.2) };
	double f = vf_real("f", 0.02, 9.0); vf_requires(f > 0.01 && f < 10.0);
	double s = vf_real("along", 0.1, 4.0); vf_requires(s > 0.01 && s < 10.0);
	bool back = vf_choose("back", 2) == 1; if (back) s = -s;
	Vector p(3);
	p[0] = s * std::sin(a.theta) * std::cos(a.phi); p[1] = s * std::sin(a.theta) * std::sin(a.phi); p[2] = s * std::cos(a.theta);
	vf_ensures_near(func_exp_real_part_3D(p, f, a), std::cos(wave * f * s), 1e-5, "a point in the direction of observation has the phase of its distance");
	vf_ensures_near(func_exp_imag_part_3D(p, f, a), std::sin(wave * f * s), 1e-5, "a point in the direction of observation has the phase of its distance");
	vf_cover("aligned");
}

VF_HARNESS(C18_phase_functions)
{
	SphericalAngles a{ vf_real("theta", 0.0, 3.1), vf_real("phi", -3.1, 6.2) };
	double f = vf_real("f", 0.02, 9.0); vf_requires(f > 0.01 && f < 10.0);
	bool space = vf_choose("space", 2) == 1, real = vf_choose("real", 2) == 1;
	auto c = space ? buildFC_3D(f, a, real) : buildFC_2D(f, a, real);
	Vector x(3); x[0] = vf_real("x", 0.2, 5.0); x[1] = vf_real("y", 0.2, 5.0); x[2] = vf_real("z", 0.2, 5.0);
	vf_requires(x[0] > 0.1 && x[0] < 10.0 && x[1] > 0.1 && x[1] < 10.0 && x[2] > 0.1 && x[2] < 10.0);
	double want = space ? (real ? func_exp_real_part_3D(x, f, a) : func_exp_imag_part_3D(x, f, a)) : real ? func_exp_real_part_2D(x, f, a) : func_exp_imag_part_2D(x, f, a);
	vf_ensures(c->f(x) == want, "the coefficient is the phase factor of its dimension and part");
	vf_cover("functions");
}

// ---------------------------------------------------------------------------------------- time average
VF_HARNESS(C18_transform)
{
	int n = vf_size("n", 1, 6); vf_requires(n < 100000000);
	Vector g(n); double* v = vf_real_array("v", n, -3.0, 3.0); for (int i = 0; i < n; i++) g[i] = v[i];
	std::vector<Frequency> fs(2); fs[0] = vf_real("f0", 0.1, 2.0); fs[1] = vf_real("f1", 0.1, 2.0);
	double t = vf_real("t", 0.0, 5.0);
	auto r = calculateDFT(g, fs, t);
	int f = vf_choose("f", 2), i = vf_int("i", 0, 5); vf_requires(i >= 0 && i < n);
	vf_ensures(int(r.size()) == 2 && int(r[f].size()) == n, "there is a value for each frequency and node");
	vf_ensures_near(r[f][i].real(), v[i] * std::cos(wave * fs[f] * t), 1e-9, "the real part is the field times the cosine");
	vf_ensures_near(r[f][i].imag(), -v[i] * std::sin(wave * fs[f] * t), 1e-9, "the imaginary part is minus the field times the sine");
	vf_cover("transform");
}

static double pulse(double t, double s, double m) { double d = t - std::abs(m); return std::exp(-(d * d) / (2.0 * (s * s))); }

VF_HARNESS(C18_pulse)
{
	int n = vf_size("n", 1, 6); vf_requires(n < 100000000);
	double* v = vf_real_array("t", n, 0.0, 6.0);
	std::vector<double> t(n); for (int i = 0; i < n; i++) t[i] = v[i];
	double s = vf_real("spread", 0.2, 5.0), m = vf_real("mean", -3.0, 3.0); vf_requires(s > 0.1 && s < 10.0);
	auto g = evaluateGaussianVector(t, s, m);
	int i = vf_int("i", 0, 5); vf_requires(i >= 0 && i < n);
	vf_ensures(int(g.size()) == n, "there is a value for each time");
	vf_ensures_near(g[i], pulse(v[i], s, m), 1e-9, "the incident pulse is the Gaussian of the source");
	vf_cover("pulse");
}

struct Blank { alignas(16) char raw[sizeof(RCSSurfacePostProcessor)] = {}; RCSSurfacePostProcessor& get() { return *reinterpret_cast<RCSSurfacePostProcessor*>(raw); } };

VF_HARNESS(C18_incident)
{
	Blank b;
	PlaneWaveData pw(vf_real("spread", 0.2, 5.0), vf_real("mean", -3.0, 3.0), vf_choose("modulated", 2) == 1 ? vf_real("carrier", 0.1, 2.0) : 0.0);
	vf_requires(pw.spread > 0.1 && pw.spread < 10.0);
	int n = vf_size("n", 1, 5); vf_requires(n < 100000000);
	double* v = vf_real_array("t", n, 0.0, 6.0);
	std::vector<double> t(n), f(2); for (int i = 0; i < n; i++) t[i] = v[i];
	f[0] = vf_real("f0", 0.1, 2.0); f[1] = vf_real("f1", 0.1, 2.0);
	if (pw.isModulated()) vf_requires(pw.frequency > 0.01); 
	auto p = b.get().computeIncidentPowerSpectrum(pw, t, f);
	int k = vf_choose("k", 2); double re = 0.0, im = 0.0;
	for (int i = 0; i < n; i++) {
		double g = pulse(t[i], pw.spread, pw.mean);
		if (pw.isModulated()) g *= std::cos(wave * pw.frequency * (t[i] - std::abs(pw.mean)));
		re += g * std::cos(wave * f[k] * t[i]); im -= g * std::sin(wave * f[k] * t[i]);
	}
	vf_ensures(p.size() == 2, "there is a power for each frequency");
	vf_ensures_near(p[k], (re * re + im * im) / (n * double(n)) / (2.0 * physicalConstants::freeSpaceImpedance), 1e-9, "the incident power is that of the averaged transform of the pulse");
	vf_cover("incident");
}

// ------------------------------------------------------------------------- plane wave of the case file
//@ scope=up_to_two_sources
VF_HARNESS(C18_plane_wave)
{
	double s = vf_real("spread", 0.2, 5.0), f = vf_real("carrier", 1e7, 1e9);
	double m[3], d[3];
	for (int i = 0; i < 3; i++) { m[i] = vf_ufi1("mean", i); d[i] = vf_ufi1("direction", i); }
	double q = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]; vf_requires(q > 0.01);
	bool given = vf_choose("given", 2) == 1, modulated = vf_choose("modulated", 2) == 1, other = vf_choose("other", 2) == 1, none = vf_choose("none", 2) == 1;
	json j, w, g;
	g["spread"] = s;
	if (given) g["mean"] = { m[0], m[1], m[2] };
	if (modulated) g["frequency"] = f;
	w["type"] = none ? "initial" : "planewave"; w["magnitude"] = g; w["propagation"] = { d[0], d[1], d[2] };
	if (other) { json o; o["type"] = "dipole"; j["sources"] = { o, w }; } else { j["sources"] = json::array(); j["sources"].push_back(w); }
	bool failed = false; PlaneWaveData p(0.0, 0.0);
	try { p = buildPlaneWaveData(j, ""); } catch (const std::runtime_error&) { failed = true; }
	vf_ensures(failed == none, "a case without a plane wave is rejected, and only that");
	vf_requires(!failed);
	vf_ensures(p.spread == s, "the spread is that of the plane wave");
	vf_ensures_near(p.mean, given ? (m[0] * d[0] + m[1] * d[1] + m[2] * d[2]) / std::sqrt(q) : -5.0 * s * std::sqrt(2.0), 1e-9, "the delay is the mean along the direction of propagation");
	vf_ensures_near(p.frequency, modulated ? f / physicalConstants::speedOfLight_SI : 0.0, 1e-12, "the carrier is in natural units");
	vf_cover("wave");
}

// ---------------------------------------------------------------------------------- surface integrals
// Elements with one unknown each and one face on the boundary; normals, weights and points arbitrary.
static int faceCount = 2;
static double normalOf(int f, int d) { return vf_ufi2("n", f, d); }
static double weightOf(int f) { return vf_ufi1("w", f); }
static double placeOf(int f, int d) { return 1.5 + vf_ufi2("x", f, d); }
static double shapeAt(const FiniteElement* e, const IntegrationPoint*, int) { return 1.0; }
static void place(const ElementTransformation* t, const IntegrationPoint&, Vector& x) { int n = t->mesh->SpaceDimension(); x.SetSize(n); for (int d = 0; d < n; d++) x[d] = placeOf(t->ElementNo, d); }
// the Jacobian whose outward normal is -n
static void faceAt(FaceElementTransformations* t)
{
	auto* F = new ElementTransformation; F->ElementNo = t->face; F->mesh = t->mesh; t->Face = F;
	int f = t->face;
	if (t->mesh->Dimension() == 2) { t->J.SetSize(2, 1); t->J(1, 0) = -normalOf(f, 0); t->J(0, 0) = normalOf(f, 1); }
	else {
		// two tangents with t1 x t2 = -n: t1 = (1, 0, b), t2 = (0, 1, c) scaled by the last component
		t->J.SetSize(3, 2);
		double z = -normalOf(f, 2);
		t->J(0, 0) = z; t->J(1, 0) = 0.0; t->J(2, 0) = normalOf(f, 0);
		t->J(0, 1) = 0.0; t->J(1, 1) = 1.0; t->J(2, 1) = normalOf(f, 1) / z;
	}
}
struct Surface {
	int dim; Mesh m; FiniteElement e; IntegrationRule rule; bool second;
	Surface(int d) : dim(d)
	{
		m.Dim = m.spaceDim = dim; m.NumOfElements = 2; m.NumOfFaces = 2; m.NumOfBdrElements = 2;
		m.elem_attr = { 1, 1 }; m.elem_type = { dim == 2 ? 2 : 4, dim == 2 ? 2 : 4 };
		second = vf_choose("second", 2) == 1;
		m.bdr_attr = { 201, second ? 201 : 3 }; m.bdr_face = { 0, 1 }; m.face_e1 = { 0, 1 }; m.face_e2 = { -1, -1 };
		m.SetAttributes();
		e.dof = 1; e.order = 0; e.dim = dim; e.shape = shapeAt;
		rule.n = 1; rule.pts = new IntegrationPoint[1]; rule.pts[0].weight = 1.0; IntRules.rule = &rule;
		FiniteElementCollection::common = &e; Mesh::face_setup = faceAt; Mesh::on_disk = &m; ElementTransformation::map = place;
		for (int f = 0; f < 2; f++) vf_requires(normalOf(f, 2) > 0.1 || normalOf(f, 2) < -0.1);
	}
	Cx phase(int f, double freq, const SphericalAngles& a) const
	{
		Vector x(dim); for (int d = 0; d < dim; d++) x[d] = placeOf(f, d);
		return dim == 2 ? Cx(func_exp_real_part_2D(x, freq, a), func_exp_imag_part_2D(x, freq, a)) : Cx(func_exp_real_part_3D(x, freq, a), func_exp_imag_part_3D(x, freq, a));
	}
	double n(int f, int d) const { return d < dim ? normalOf(f, d) : 0.0; }
};

//@ scope=two_elements_of_one_unknown
VF_HARNESS(C18_integrals)
{
	Surface s(2 + vf_choose("dim", 2));
	SphericalAngles a{ vf_real("theta", 0.0, 3.1), vf_real("phi", -3.1, 6.2) };
	double freq = vf_real("f", 0.02, 9.0); vf_requires(freq > 0.01 && freq < 10.0);
	ParMesh pm(MPI_COMM_WORLD, s.m);
	DG_FECollection fec(0, s.dim);
	alignas(16) char raw[sizeof(FarField)] = {}; auto& ff = *reinterpret_cast<FarField*>(raw);
	new (&ff.fes_) std::unique_ptr<ParFiniteElementSpace>(new ParFiniteElementSpace(&pm, &fec));
	ComplexVector F[3]; for (int c = 0; c < 3; c++) { F[c].resize(2); for (int v = 0; v < 2; v++) F[c][v] = Cx(vf_ufi2("re", c, v), vf_ufi2("im", c, v)); }
	bool electric = vf_choose("electric", 2) == 1;
	auto r = ff.calcNLpair(F[0], F[1], F[2], freq, a, electric);
	Cx C[3] = {};
	for (int f = 0; f < 2; f++) if (f == 0 || s.second) for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; C[i] += s.phase(f, freq, a) * (s.n(f, j) * F[k][f] - s.n(f, k) * F[j][f]); }
	double sg = electric ? -1.0 : 1.0, st = std::sin(a.theta), ct = std::cos(a.theta), sp = std::sin(a.phi), cp = std::cos(a.phi);
	Cx th = sg * (C[0] * ct * cp + C[1] * ct * sp - C[2] * st), ph = sg * (C[1] * cp - C[0] * sp);
	vf_ensures_near(r.first.real(), th.real(), 1e-9, "the polar part of n x F (electric: -n x F), real");
	vf_ensures_near(r.first.imag(), th.imag(), 1e-9, "the polar part of n x F (electric: -n x F), imaginary");
	vf_ensures_near(r.second.real(), ph.real(), 1e-9, "the azimuthal part of n x F (electric: -n x F), real");
	vf_ensures_near(r.second.imag(), ph.imag(), 1e-9, "the azimuthal part of n x F (electric: -n x F), imaginary");
	vf_cover("integrals");
}

// -------------------------------------------------------------------------------------------- merging
VF_HARNESS(C18_merge_rows)
{
	int n = vf_size("n", 0, 6), m = vf_size("m", 0, 6); vf_requires(n < 100000000 && m < 100000000);
	bool same = vf_choose("same", 2) == 1; vf_requires(same == (n == m));
	double* a = vf_real_array("a", 5 * n, -5.0, 5.0); double* b = vf_real_array("b", 5 * m, -5.0, 5.0);
	FileRows x(n), y(m);
	for (int i = 0; i < n; i++) { x[i].theta = a[5 * i]; x[i].phi = a[5 * i + 1]; x[i].frequency = a[5 * i + 2]; x[i].pot_sum = a[5 * i + 3]; x[i].norm_sum = a[5 * i + 4]; }
	for (int i = 0; i < m; i++) { y[i].theta = b[5 * i]; y[i].phi = b[5 * i + 1]; y[i].frequency = b[5 * i + 2]; y[i].pot_sum = b[5 * i + 3]; y[i].norm_sum = b[5 * i + 4]; }
	bool failed = false;
	try { addRows(x, y); } catch (const std::runtime_error&) { failed = true; }
	vf_ensures(failed == !same, "files of different length are rejected, and only those");
	int i = vf_int("i", 0, 5); vf_requires(i >= 0 && i < n);
	vf_ensures(x[i].theta == a[5 * i] && x[i].phi == a[5 * i + 1] && x[i].frequency == a[5 * i + 2], "angles and frequency stay");
	if (!failed) {
		vf_ensures(x[i].pot_sum == a[5 * i + 3] + b[5 * i + 3], "the power is added row by row");
		vf_ensures(x[i].norm_sum == a[5 * i + 4] + b[5 * i + 4], "the normalisation is added row by row");
	}
	vf_cover("rows");
}

// ------------------------------------------------------------------------------- from file to result
// Fields of one rank: value of component c (Ex..Ez, Hx..Hz) of unknown v at snapshot t.
static double fieldOf(int rank, int t, int c, int v) { return vf_ufi3("field", rank * 4 + t, c, v); }
static double timeOf(int t) { return t + 0.1 * vf_ufi1("time", t); }
static const double Z0 = physicalConstants::freeSpaceImpedance;

static Cx average(int rank, int snaps, int c, int v, double f)
{
	Cx s(0.0, 0.0);
	for (int t = 0; t < snaps; t++) s += fieldOf(rank, t, c, v) * Cx(std::cos(wave * f * timeOf(t)), -std::sin(wave * f * timeOf(t)));
	return s / double(snaps);
}
// polar and azimuthal parts of the integral of n x F over the surface, F = E (c = 0) or H (c = 3)
static void integrals(const Surface& s, int ranks, int snaps, int c, double f, const SphericalAngles& a, Cx& th, Cx& ph)
{
	Cx C[3] = {};
	for (int r = 0; r < ranks; r++) for (int e = 0; e < 2; e++) if (e == 0 || s.second) {
		Cx p = s.phase(e, f, a), F[3]; for (int i = 0; i < 3; i++) F[i] = average(r, snaps, c + i, e, f);
		for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; C[i] += p * (s.n(e, j) * F[k] - s.n(e, k) * F[j]); }
	}
	double st = std::sin(a.theta), ct = std::cos(a.theta), sp = std::sin(a.phi), cp = std::cos(a.phi);
	th = C[0] * ct * cp + C[1] * ct * sp - C[2] * st; ph = C[1] * cp - C[0] * sp;
}
static double power(const Surface& s, int ranks, int snaps, double f, const SphericalAngles& a)
{
	Cx Nt, Np, Lt, Lp; integrals(s, ranks, snaps, 3, f, a, Nt, Np); integrals(s, ranks, snaps, 0, f, a, Lt, Lp);
	Cx x = -Lp + Z0 * Nt, y = -Lt - Z0 * Np;  // L is the integral of -n x E
	return x.real() * x.real() + x.imag() * x.imag() + y.real() * y.real() + y.imag() * y.imag();
}

struct Recording {
	double* d; char* b; long n = 0;
	Recording() { b = new char[600]; }
	template <class T> void put(const T& x) { memcpy(b + n, &x, sizeof(T)); n += sizeof(T); }
};

//@ scope=two_elements_and_up_to_two_ranks_or_snapshots deadline=400
VF_HARNESS(C18_surface)
{
	vfio::start();
	Surface s(2 + vf_choose("dim", 2));
	int shape = vf_choose("shape", 3); int ranks = shape == 1 ? 2 : 1, snaps = shape == 2 ? 2 : 1;
	SphericalAngles a{ s.dim == 2 ? M_PI_2 : vf_real("theta", 0.0, 3.1), vf_real("phi", -3.1, 6.2) };
	double f = vf_real("f", 0.02, 9.0); vf_requires(f > 0.01 && f < 10.0);
	vfio::folder("data", "mesh"); vfio::folder("data", "rank0"); if (ranks == 2) vfio::folder("data", "rank1");
	for (int r = 0; r < ranks; r++) {
		Recording w;
		w.put(int32_t(s.dim)); w.put(int32_t(2)); w.put(int32_t(2)); w.put(int32_t(1)); w.put(int32_t(0));
		for (int i = 0; i < s.dim + 4; i++) w.put(vf_ufi1("geometry", i));
		for (int t = 0; t < snaps; t++) { w.put(timeOf(t)); for (int c = 0; c < 6; c++) for (int v = 0; v < 2; v++) w.put(fieldOf(r, t, c, v)); }
		auto& node = vfio::file(r == 0 ? "data/rank0" : "data/rank1", "surface_data.bin"); node.bytes = w.b; node.size = w.n;
	}
	json j, w, g; double spread = vf_real("spread", 0.2, 5.0); vf_requires(spread > 0.1);
	g["spread"] = spread; g["mean"] = { 0.0, 0.0, -2.0 }; w["type"] = "planewave"; w["magnitude"] = g; w["propagation"] = { 0.0, 0.0, 1.0 };
	j["sources"] = json::array(); j["sources"].push_back(w); theCase = &j;
	std::vector<Frequency> fs(1); fs[0] = f * physicalConstants::speedOfLight_SI; std::vector<SphericalAngles> as(1); as[0] = a;
	Blank blank;
	RCSSurfacePostProcessor pp("data", "case.json", fs, as);
	double nf = fs[0] / physicalConstants::speedOfLight_SI, k = wave * nf;
	std::vector<double> times(snaps), nfs(1); nfs[0] = nf; for (int t = 0; t < snaps; t++) times[t] = timeOf(t);
	double incident = blank.get().computeIncidentPowerSpectrum(PlaneWaveData(spread, -2.0), times, nfs)[0]; vf_requires(incident > 1e-6);
	double pot = k * k / (32.0 * (s.dim == 2 ? 1.0 : M_PI * M_PI) * Z0) * power(s, ranks, snaps, nf, a);
	vf_ensures_near(pp.getFarField(a, nf), pot, 1e-6 * (1.0 + std::abs(pot)), "the radiated power is that of the equivalent currents");
	vf_ensures_near(pp.getRCS(a, nf) * incident, (s.dim == 2 ? 4.0 / k : 4.0 * M_PI) * pp.getFarField(a, nf), 1e-6 * (1.0 + std::abs(pot)), "the cross section is the radiated power over the incident power");
	vf_ensures(vfio::log.n == 10, "one row is written to each file");
	vf_ensures(vfio::log.v[0] == a.theta && vfio::log.v[1] == a.phi && vfio::log.v[5] == a.theta && vfio::log.v[6] == a.phi, "the rows name the direction");
	vf_ensures(vfio::log.v[3] == pp.getFarField(a, nf) && vfio::log.v[8] == pp.getRCS(a, nf), "the rows carry the results");
	vf_cover("surface");
}

// results of several directions and frequencies stay apart, and late snapshots are left out on request
//@ scope=two_directions_two_frequencies_and_two_snapshots deadline=400
VF_HARNESS(C18_surface_table)
{
	vfio::start();
	Surface s(3); vf_requires(!s.second);
	SphericalAngles a[2]; for (int i = 0; i < 2; i++) { a[i].theta = i + 0.1 * vf_ufi1("theta", i); a[i].phi = vf_ufi1("phi", i); }
	vf_requires(a[0].theta < a[1].theta);
	double f[2] = { vf_real("f0", 0.1, 1.0), vf_real("f1", 1.1, 2.0) }; vf_requires(f[0] > 0.01 && f[0] < f[1] && f[1] < 10.0);
	vf_requires(timeOf(0) < timeOf(1));
	double cut = 0.5 * (timeOf(0) + timeOf(1)); bool limited = vf_choose("limited", 2) == 1;
	vfio::folder("data", "rank0");
	Recording w;
	w.put(int32_t(3)); w.put(int32_t(2)); w.put(int32_t(2)); w.put(int32_t(0)); w.put(int32_t(0));
	for (int t = 0; t < 2; t++) { w.put(timeOf(t)); for (int c = 0; c < 6; c++) for (int v = 0; v < 2; v++) w.put(fieldOf(0, t, c, v)); }
	auto& node = vfio::file("data/rank0", "surface_data.bin"); node.bytes = w.b; node.size = w.n;
	json j, wv, g; double spread = vf_real("spread", 0.2, 5.0); vf_requires(spread > 0.1);
	g["spread"] = spread; g["mean"] = { 0.0, 0.0, -2.0 }; wv["type"] = "planewave"; wv["magnitude"] = g; wv["propagation"] = { 0.0, 0.0, 1.0 };
	j["sources"] = json::array(); j["sources"].push_back(wv); theCase = &j;
	std::vector<Frequency> fs(2); std::vector<SphericalAngles> as(2); for (int i = 0; i < 2; i++) { fs[i] = f[i] * physicalConstants::speedOfLight_SI; as[i] = a[i]; }
	std::optional<double> last; if (limited) last = cut;
	RCSSurfacePostProcessor pp("data", "case.json", fs, as, last);
	int x = vf_choose("direction", 2), y = vf_choose("frequency", 2), snaps = limited ? 1 : 2;
	double nf = fs[y] / physicalConstants::speedOfLight_SI, k = wave * nf;
	Blank blank; std::vector<double> times(snaps), nfs(1); nfs[0] = nf; for (int t = 0; t < snaps; t++) times[t] = timeOf(t);
	double incident = blank.get().computeIncidentPowerSpectrum(PlaneWaveData(spread, -2.0), times, nfs)[0]; vf_requires(incident > 1e-6);
	double pot = k * k / (32.0 * M_PI * M_PI * Z0) * power(s, 1, snaps, nf, a[x]);
	vf_ensures_near(pp.getFarField(a[x], nf), pot, 1e-6 * (1.0 + std::abs(pot)), "each direction and frequency has its power");
	vf_ensures_near(pp.getRCS(a[x], nf) * incident, 4.0 * M_PI * pot, 1e-6 * (1.0 + std::abs(pot)), "each direction and frequency has its cross section");
	vf_ensures(vfio::log.n == 40, "one row is written for each direction and frequency to each kind of file");
	auto* row = vfio::log.v + 20 * x + 5 * y;
	vf_ensures(row[0] == a[x].theta && row[1] == a[x].phi && row[10] == a[x].theta && row[11] == a[x].phi, "the rows name the direction");
	vf_ensures_near(row[2], fs[y], 1e-3, "the rows name the frequency"); vf_ensures_near(row[12], fs[y], 1e-3, "the rows name the frequency");
	vf_ensures(row[3] == pp.getFarField(a[x], nf) && row[13] == pp.getRCS(a[x], nf), "the rows carry the results");
	vf_ensures_near(row[4] * nf * nf, 1.0, 1e-9, "the normalisation is the square of the wavelength");
	vf_cover("table");
}

//@ scope=two_elements_and_up_to_two_snapshots deadline=400
VF_HARNESS(C18_snapshots)
{
	vfio::start();
	Surface s(2 + vf_choose("dim", 2)); vf_requires(s.dim == 3 || !s.second);
	int snaps = 1 + vf_choose("snaps", 2);
	SphericalAngles a{ vf_real("theta", 0.0, 3.1), vf_real("phi", -3.1, 6.2) };
	double f = vf_real("f", 0.02, 9.0); vf_requires(f > 0.01 && f < 10.0);
	DG_FECollection fec(0, s.dim); FiniteElementSpace::on_disk = &fec;
	vfio::folder("data", "mesh"); vfio::folder("data", "cycle1"); if (snaps == 2) vfio::folder("data", "cycle0");
	const char* names[6] = { "Ex.gf", "Ey.gf", "Ez.gf", "Hx.gf", "Hy.gf", "Hz.gf" };
	for (int t = 0; t < snaps; t++) {
		const char* dir = t == 0 && snaps == 2 ? "data/cycle0" : "data/cycle1";
		auto& n = vfio::file(dir, "time.txt"); double* v = new double[1]; v[0] = timeOf(t); n.nums = v; n.rows = n.cols = 1;
		for (int c = 0; c < 6; c++) { auto& g = vfio::file(dir, names[c]); double* u = new double[2]; u[0] = fieldOf(0, t, c, 0); u[1] = fieldOf(0, t, c, 1); g.nums = u; g.rows = 1; g.cols = 2; }
	}
	std::vector<Frequency> fs(1); fs[0] = f; std::vector<SphericalAngles> as(1); as[0] = a;
	FarField ff("data", "case.json", fs, as);
	double k = wave * f, pot = k * k / (32.0 * std::pow(M_PI, 2.0) * Z0) * power(s, 1, snaps, f, a);
	vf_ensures_near(ff.getPotRad(a, f), pot, 1e-6 * (1.0 + std::abs(pot)), "the radiated power is that of the equivalent currents");
	vf_cover("snapshots");
}

//@ scope=two_ranks_of_two_rows
VF_HARNESS(C18_merge_files)
{
	vfio::start();
	vfio::folder("data", "rank0"); vfio::folder("data", "rank1"); vfio::folder("data", "other");
	double* v[2][2]; int lines = 1 + vf_choose("lines", 2);
	for (int r = 0; r < 2; r++) for (int k = 0; k < 2; k++) {
		auto& n = vfio::file(r == 0 ? (k == 0 ? "data/rank0/farfield" : "data/rank0/rcs") : k == 0 ? "data/rank1/farfield" : "data/rank1/rcs", k == 0 ? "ff.dat" : "rcs.dat");
		v[r][k] = new double[10]; for (int i = 0; i < 10; i++) v[r][k][i] = vf_ufi3("v", r, k, i);
		n.nums = v[r][k]; n.rows = r == 0 ? 2 : lines; n.cols = 5; n.header = true;
	}
	bool failed = false;
	try { writeParallelDataIntoSingleFiles("data"); } catch (const std::runtime_error&) { failed = true; }
	vf_ensures(failed == (lines != 2), "files with different numbers of rows are rejected, and only those");
	vf_requires(!failed);
	vf_ensures(vfio::log.n == 20, "every row is written once");
	int k = vf_choose("k", 2), i = vf_choose("i", 2), c = vf_choose("c", 5);
	double want = c < 3 ? v[0][k][5 * i + c] : v[0][k][5 * i + c] + v[1][k][5 * i + c];
	vf_ensures(vfio::log.v[10 * k + 5 * i + c] == want, "the sums of the ranks are written with the angles and frequency of the row");
	vf_cover("files");
}
