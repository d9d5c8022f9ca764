// C21: mfemExtension/IntegratorFunctions.cpp, mfemExtension/BilinearIntegrators.cpp
#include "verif.h"
#include "mfemExtension/IntegratorFunctions.cpp"
#include "mfemExtension/BilinearIntegrators.cpp"

using namespace maxwell;
using namespace maxwell::mfemExtension;

// A face between two elements (or on the boundary): arbitrary points, weights, Jacobians and shape
// functions, all looked up by the index of the quadrature point.
static double shapeOf(const FiniteElement* f, const IntegrationPoint* p, int i) { return vf_ufi3("shape", f->tag, p->index, i); }
static double weightAt(int p) { double v = vf_ufi1("faceweight", p); return v * v + 0.25; }
static void atPoint(ElementTransformation* t, const IntegrationPoint* p)
{
	auto* f = static_cast<FaceElementTransformations*>(t);
	f->weight = weightAt(p->index);
	f->eip1.index = p->index; f->eip2.index = p->index;
	f->eip1.x = vf_ufi1("x1", p->index);
	for (int j = 0; j < f->J.Width(); j++) for (int i = 0; i < f->J.Height(); i++) f->J(i, j) = vf_ufi3("jac", p->index, i, j);
}

struct Face {
	int dim, n1, n2, np;
	FiniteElement e1, e2;
	ElementTransformation t1, t2;
	FaceElementTransformations tr;
	IntegrationRule rule;
	double u1[2], u2[2];
	Face(bool two)
	{
		dim = 1 + vf_choose("dim", 3);
		n1 = 2; n2 = two ? 1 : 0;
		e1.dim = e2.dim = dim; e1.dof = n1; e2.dof = 1;
		e1.tag = 1; e2.tag = 2; e1.shape = e2.shape = shapeOf;
		tr.Elem1 = &t1; tr.Elem2 = two ? &t2 : nullptr;
		int other = two ? vf_choose("numbers", 2) : -1; tr.Elem1No = two ? 1 - other : 0; tr.Elem2No = other;
		if (dim > 1) tr.J.SetSize(dim, dim - 1);
		tr.at = atPoint;
		np = vf_size("points", 0, 4);
		rule.n = np; rule.pts = new IntegrationPoint[np];
		for (int p = 0; p < np; p++) { rule.pts[p].weight = vf_ufi1("qw", p); rule.pts[p].index = p; }
		IntRules.rule = &rule;
		for (int i = 0; i < 2; i++) { u1[i] = vf_ufi1("u1", i); u2[i] = vf_ufi1("u2", i); }
	}
	// component d of the (unnormalised) normal pointing out of element 1
	double normal(int p, int d) const
	{
		auto J = [&](int i, int j) { return vf_ufi3("jac", p, i, j); };
		if (d >= dim) return 0.0;
		if (dim == 1) return 2.0 * vf_ufi1("x1", p) - 1.0;
		if (dim == 2) return d == 0 ? J(1, 0) : -J(0, 0);
		int a = (d + 1) % 3, b = (d + 2) % 3;
		return J(a, 0) * J(b, 1) - J(b, 0) * J(a, 1);
	}
	double shape(int e, int p, int i) const { return vf_ufi3("shape", e, p, i); }
	double trace(int e, int p) const
	{
		double s = 0.0;
		for (int i = 0; i < (e == 1 ? n1 : n2); i++) s += shape(e, p, i) * (e == 1 ? u1[i] : u2[i]);
		return s;
	}
	// what row i of element e has to do to the field: sum over the points of
	// factor * (outward normal terms) * shape_i * (own*own trace + nbr*neighbour trace)
	double expected(int e, int i, double factor, int d0, int d1, double own, double nbr, bool scaled) const
	{
		double s = 0.0, side = e == 1 ? 1.0 : -1.0;
		for (int p = 0; p < np; p++) {
			double n = 1.0;
			if (d0 >= 0) n *= side * normal(p, d0);
			if (d1 >= 0) n *= side * normal(p, d1);
			double g = !scaled ? 1.0 : d0 < 0 ? weightAt(p) : d1 < 0 ? 1.0 : 1.0 / weightAt(p);
			s += vf_ufi1("qw", p) * factor * n * g * shape(e, p, i) * (own * trace(e, p) + (nbr == 0.0 ? 0.0 : nbr * trace(3 - e, p)));
		}
		return s;
	}
	double action(const DenseMatrix& m, int row) const
	{
		double s = 0.0;
		for (int j = 0; j < n1; j++) s += m(row, j) * u1[j];
		for (int j = 0; j < n2; j++) s += m(row, n1 + j) * u2[j];
		return s;
	}
	void check(const DenseMatrix& m, double factor, int d0, int d1, double own, double nbr, bool scaled = true, bool onlyFirst = false)
	{
		vf_ensures(m.Height() == n1 + n2 && m.Width() == n1 + n2, "the matrix couples the unknowns of both elements");
		for (int i = 0; i < n1; i++) vf_ensures_near(action(m, i), expected(1, i, factor, d0, d1, own, n2 ? nbr : 0.0, scaled), 1e-8, "flux seen by the first element");
		for (int i = 0; i < n2; i++) vf_ensures_near(action(m, n1 + i), onlyFirst ? 0.0 : expected(2, i, factor, d0, d1, own, nbr, scaled), 1e-8, "flux seen by the second element");
	}
};

static std::vector<Direction> dirs(int n, int& d0, int& d1)
{
	std::vector<Direction> r;
	d0 = d1 = -1;
	if (n > 0) { d0 = vf_choose("d0", 3); r.push_back(d0); }
	if (n > 1) { d1 = vf_choose("d1", 3); r.push_back(d1); }
	return r;
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_zero_normal)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0 = -1, d1 = -1;
	DenseMatrix m;
	MaxwellDGZeroNormalJumpIntegrator(beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, -1.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_one_normal)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(1, d0, d1);
	DenseMatrix m;
	MaxwellDGOneNormalJumpIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, -1.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_two_normal)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(2, d0, d1);
	DenseMatrix m;
	MaxwellDGTwoNormalJumpIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, -1.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_own_zero_normal)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0 = -1, d1 = -1;
	DenseMatrix m;
	MaxwellDGDecoupledZeroNormalJumpIntegrator(beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, 0.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_own_one_normal)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(1, d0, d1);
	DenseMatrix m;
	MaxwellDGDecoupledOneNormalJumpIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, 0.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_own_two_normal)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(2, d0, d1);
	DenseMatrix m;
	MaxwellDGDecoupledTwoNormalJumpIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, 0.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_trace_zero)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0 = -1, d1 = -1;
	DenseMatrix m;
	MaxwellDGTraceJumpIntegrator(std::vector<Direction>{}, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, -1.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_interior_zero)
{
	Face f(true);
	double beta = vf_real("beta", -2, 2);
	int d0 = -1, d1 = -1;
	DenseMatrix m;
	MaxwellDGInteriorJumpIntegrator(std::vector<Direction>{}, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, 0.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_absorbing_zero)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0 = -1, d1 = -1;
	DenseMatrix m;
	MaxwellSMAJumpIntegrator(std::vector<Direction>{}).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5, d0, d1, 1.0, 0.0, true, true);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_trace_one)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(1, d0, d1);
	DenseMatrix m;
	MaxwellDGTraceJumpIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, -1.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_interior_one)
{
	Face f(true);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(1, d0, d1);
	DenseMatrix m;
	MaxwellDGInteriorJumpIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, 0.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_absorbing_one)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(1, d0, d1);
	DenseMatrix m;
	MaxwellSMAJumpIntegrator(d).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5, d0, d1, 1.0, 0.0, true, true);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_trace_two)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(2, d0, d1);
	DenseMatrix m;
	MaxwellDGTraceJumpIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, -1.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_interior_two)
{
	Face f(true);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(2, d0, d1);
	DenseMatrix m;
	MaxwellDGInteriorJumpIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, 0.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_absorbing_two)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(2, d0, d1);
	DenseMatrix m;
	MaxwellSMAJumpIntegrator(d).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5, d0, d1, 1.0, 0.0, true, true);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_total_field)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0, d1; auto d = dirs(1, d0, d1);
	DenseMatrix m;
	MaxwellDGOneNormalTotalFieldIntegrator(d, beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5 * beta, d0, d1, 1.0, 1.0);
}

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_nodal_flux)
{
	Face f(vf_choose("two", 2) == 1);
	double beta = vf_real("beta", -2, 2);
	int d0 = -1, d1 = -1;
	DenseMatrix m;
	HesthavenFluxIntegrator(beta).AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 2.0, d0, d1, 1.0, 1.0, false);
}

// the rule asked for integrates products of the two shape functions over the face exactly
VF_HARNESS(C21_quadrature_order)
{
	FiniteElement e1, e2;
	ElementTransformation t1, t2;
	FaceElementTransformations tr;
	bool two = vf_choose("two", 2) == 1;
	e1.dim = e2.dim = 1 + vf_choose("dim", 3);
	e1.order = vf_size("order1", 0, 6); e2.order = vf_size("order2", 0, 6);
	t1.order_w = vf_size("w1", 0, 6); t2.order_w = vf_size("w2", 0, 6);
	e1.space = e2.space = vf_choose("space", 2) ? FunctionSpace::Qk : FunctionSpace::Pk;
	tr.geom = vf_choose("geom", 2) ? Geometry::SQUARE : Geometry::TRIANGLE;
	tr.Elem1 = &t1; tr.Elem1No = 4; tr.Elem2No = two ? 0 : -1; tr.Elem2 = two ? &t2 : nullptr;
	const IntegrationRule* r = two || vf_choose("entry", 2) ? setIntegrationRule(e1, e2, tr) : setIntegrationRule(e1, tr);
	int need = 2 * (two && e2.order > e1.order ? e2.order : e1.order);
	vf_ensures(r != nullptr, "a rule is always found");
	vf_ensures(IntRules.asked_order >= need, "the rule is exact for the product of the shape functions");
	vf_ensures(IntRules.asked_geom == tr.geom, "the rule is one of the face");
}

// a rule set by the caller is the one used
//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_given_rule)
{
	Face f(true);
	IntegrationRule other; other.n = 0;
	IntRules.rule = &other;
	DenseMatrix m;
	MaxwellDGZeroNormalJumpIntegrator z(1.0);
	z.SetIntRule(&f.rule);
	z.AssembleFaceMatrix(f.e1, f.e2, f.tr, m);
	f.check(m, 0.5, -1, -1, 1.0, -1.0);
}

VF_HARNESS(C21_normal_terms)
{
	int dim = 1 + vf_choose("dim", 3);
	Vector n(dim);
	double a[3] = { 0.0, 0.0, 0.0 };
	for (int i = 0; i < dim; i++) n(i) = a[i] = vf_ufi1("n", i);
	int x = vf_choose("x", 3), y = vf_choose("y", 3);
	double beta = vf_real("beta", -2, 2);
	std::vector<Direction> none, one{ x }, two{ x, y }, three{ x, y, x };
	vf_ensures_eq(buildNormalTerm(n, x), a[x], "a component outside the space dimension is zero, any other is the normal's");
	vf_ensures_eq(calculateBetaTerm(n, none, beta), beta, "no direction: the factor alone");
	vf_ensures_near(calculateBetaTerm(n, one, beta), beta * a[x], 1e-12, "one direction: one normal component");
	vf_ensures_near(calculateBetaTerm(n, two, beta), beta * a[x] * a[y], 1e-12, "two directions: the product of both components");
	bool refused = false;
	try { calculateBetaTerm(n, three, beta); } catch (const std::exception&) { refused = true; }
	vf_ensures(refused, "more than two directions are refused");
}

VF_HARNESS(C21_unit_normal)
{
	FiniteElement e; FaceElementTransformations tr; IntegrationPoint p;
	int dim = 1 + vf_choose("dim", 3);
	e.dim = dim; p.x = vf_real("x", 0, 1);
	tr.weight = vf_real("weight", 0.5, 2);
	vf_requires(tr.weight > 0.0);
	if (dim > 1) tr.J.SetSize(dim, dim - 1);
	double J[3][2];
	for (int i = 0; i < dim; i++) for (int j = 0; j + 1 < dim; j++) tr.J(i, j) = J[i][j] = vf_ufi2("jac", i, j);
	Vector n = calculateNormal(e, p, tr), u = calculateSMANormal(e, p, tr);
	vf_ensures(n.Size() == dim && u.Size() == dim, "one component per space dimension");
	if (dim == 1) { vf_ensures_near(n(0), 2 * p.x - 1, 1e-12, "end points of a segment"); vf_ensures_near(u(0), n(0), 1e-12, "end points of a segment"); }
	for (int j = 0; j + 1 < dim; j++) {
		double s = 0.0;
		for (int i = 0; i < dim; i++) s += n(i) * J[i][j];
		vf_ensures_near(s, 0.0, 1e-9, "the normal is orthogonal to the face");
	}
	double sq = 0.0, gram;
	for (int i = 0; i < dim; i++) { sq += n(i) * n(i); if (dim > 1) vf_ensures_near(u(i) * tr.weight, n(i), 1e-9, "the unit normal is the normal over the face weight"); }
	if (dim == 2) vf_ensures_near(sq, J[0][0] * J[0][0] + J[1][0] * J[1][0], 1e-9, "the normal is as long as the face measure");
	if (dim == 3) {
		double a = 0, b = 0, c = 0;
		for (int i = 0; i < 3; i++) { a += J[i][0] * J[i][0]; b += J[i][0] * J[i][1]; c += J[i][1] * J[i][1]; }
		vf_ensures_near(sq, a * c - b * b, 1e-8, "the normal is as long as the face measure");
	}
}

// volume derivative: test * coefficient * d(trial)/d(x_xi) * det J
static double adjShape(const FiniteElement* f, const IntegrationPoint* p, int i) { return vf_ufi3("shape", f->tag, p->index, i); }
static double adjDShape(const FiniteElement* f, const IntegrationPoint* p, int i, int j) { return vf_ufi3("dshape", p->index, i, j); }
static void adjAt(ElementTransformation* t, const IntegrationPoint* p)
{
	for (int j = 0; j < t->J.Width(); j++) for (int i = 0; i < t->J.Height(); i++) t->J(i, j) = vf_ufi3("jac", p->index, i, j);
}
struct AnyCoefficient : public Coefficient { double Eval(ElementTransformation& T, const IntegrationPoint& p) override { return vf_ufi1("q", p.index); } };

//@ scope=two_and_one_unknowns_per_element,_any_number_of_quadrature_points
VF_HARNESS(C21_volume_derivative)
{
	int dim = 2 + vf_choose("dim", 2), xi = vf_choose("xi", dim);
	FiniteElement trial, test;
	trial.dim = test.dim = dim; trial.dof = 2; test.dof = 1; trial.tag = 1; test.tag = 2;
	trial.shape = test.shape = adjShape; trial.dshape = test.dshape = adjDShape;
	ElementTransformation t; t.J.SetSize(dim, dim); t.at = adjAt;
	IntegrationRule rule; rule.n = vf_size("points", 0, 3); rule.pts = new IntegrationPoint[rule.n];
	for (int p = 0; p < rule.n; p++) { rule.pts[p].weight = vf_ufi1("qw", p); rule.pts[p].index = p; }
	IntRules.rule = &rule;
	AnyCoefficient q;
	DenseMatrix m;
	AdjugateDerivativeIntegrator(q, xi).AssembleElementMatrix2(trial, test, t, m);
	vf_ensures(m.Height() == 1 && m.Width() == 2, "rows are test functions, columns trial functions");
	for (int l = 0; l < 2; l++) {
		double s = 0.0;
		for (int p = 0; p < rule.n; p++) {
			auto J = [&](int i, int j) { return vf_ufi3("jac", p, i, j); };
			double g = 0.0;
			// gradient in space of the trial function times det J: dshape * adj(J)
			for (int r = 0; r < dim; r++) {
				double a;
				if (dim == 2) a = (r == xi ? 1.0 : -1.0) * (r == xi ? J(1 - r, 1 - xi) : J(r, xi));
				else { int r1 = (r + 1) % 3, r2 = (r + 2) % 3, x1 = (xi + 1) % 3, x2 = (xi + 2) % 3; a = J(x1, r1) * J(x2, r2) - J(x1, r2) * J(x2, r1); }
				g += vf_ufi3("dshape", p, l, r) * a;
			}
			s += vf_ufi1("qw", p) * vf_ufi1("q", p) * vf_ufi3("shape", 2, p, 0) * g;
		}
		vf_ensures_near(m(0, l), s, 1e-8, "test function times the space derivative of the trial function");
	}
}
