// C08, C09: the discrete operators built by components/DGOperatorFactory.h
#include "verif.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "components/ProblemDescription.cpp"
#include "mfemExtension/IntegratorFunctions.cpp"
#include "mfemExtension/BilinearIntegrators.cpp"
#include "components/DGOperatorFactory.h"

using namespace maxwell;
using namespace mfem;

// Three elements in a row, of one unknown each, and a fourth one beyond a face shared with another rank:
//   | e0 | e1 || e2 |: face 0 (boundary, tag 1) - e0 - face 1 (tag 4) - e1 - face 2 (tag 3) - e2 - face 3 (boundary, tag 2);
//   face 4 is the outer side of e1, shared with element 3.
// Normals, weights, shape functions, measures and materials are arbitrary.
static const int NE = 3, NF = 5;
static const int faceOf1[NF] = { 0, 0, 1, 2, 1 }, faceOf2[NF] = { -1, 1, 2, -1, 3 };
static FiniteElement* elements[4];
static int theDim;

static double faceShape(int e, int f) { return vf_ufi2("s", e, f); }
static double volumeShape(int e) { return vf_ufi1("sv", e); }
static double slope(int e, int d) { return vf_ufi2("ds", e, d); }
static double faceWeight(int f) { double v = vf_ufi1("fw", f); return v * v + 0.25; }
static double measure(int e) { double v = vf_ufi1("vol", e); return v * v + 0.25; }
static double jac(int f, int i, int j) { return vf_ufi3("jac", f, i, j); }
static double normalOf(int f, int d)
{
	if (d >= theDim) return 0.0;
	if (theDim == 1) return 2.0 * vf_ufi1("x1", f) - 1.0;
	if (theDim == 2) return d == 0 ? jac(f, 1, 0) : -jac(f, 0, 0);
	int a = (d + 1) % 3, b = (d + 2) % 3;
	return jac(f, a, 0) * jac(f, b, 1) - jac(f, b, 0) * jac(f, a, 1);
}
static double shapeAt(const FiniteElement* e, const IntegrationPoint* p, int) { return p->index == 0 ? volumeShape(e->tag) : faceShape(e->tag, p->index - 1); }
static double slopeAt(const FiniteElement* e, const IntegrationPoint*, int, int d) { return slope(e->tag, d); }
static const FiniteElement* elementOf(const FiniteElementSpace*, int e) { return elements[e]; }
static void facePoint(ElementTransformation* t, const IntegrationPoint*)
{
	auto* f = static_cast<FaceElementTransformations*>(t);
	f->weight = faceWeight(f->face);
	f->eip1.index = f->face + 1; f->eip2.index = f->face + 1;
	f->eip1.x = vf_ufi1("x1", f->face);
	for (int j = 0; j < theDim - 1; j++) for (int i = 0; i < theDim; i++) f->J(i, j) = jac(f->face, i, j);
}
static void faceAt(FaceElementTransformations* t) { if (theDim > 1) t->J.SetSize(theDim, theDim - 1); t->at = facePoint; t->Elem1 = new ElementTransformation; t->Elem2 = t->Elem2No >= 0 ? new ElementTransformation : nullptr; }
static void elementAt(ElementTransformation* t) { t->J.SetSize(theDim, theDim); t->J = 0.0; for (int d = 0; d < theDim; d++) t->J(d, d) = 1.0; t->weight = measure(t->ElementNo); }

static const BdrCond outer[4][2] = { { BdrCond::PEC, BdrCond::PMC }, { BdrCond::PMC, BdrCond::SMA }, { BdrCond::SMA, BdrCond::PEC }, { BdrCond::PEC, BdrCond::PEC } };
static const BdrCond inner[5] = { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA, BdrCond::SGBC, BdrCond::TotalFieldIn };

struct Row {
	bool shared, centred; int pair, in, in2;
	Mesh mesh; IntegrationRule rule; DG_FECollection* fec;
	Model* model; ProblemDescription* pd; ParFiniteElementSpace* fes; DGOperatorFactory<ParFiniteElementSpace>* factory;
	double alpha, eps[2], mu[2], sig[2], u[2][3][4];
	Row(int dim, bool sh, bool ce, int pa, int inn, int inn2 = -1) : shared(sh), centred(ce), pair(pa), in(inn), in2(inn2)
	{
		theDim = dim;
		alpha = centred ? 0.0 : vf_real("alpha", 0.05, 1);
		if (!centred) vf_requires(alpha > 0.0 && alpha <= 1.0);
		mesh.Dim = mesh.spaceDim = dim; mesh.NumOfElements = NE; mesh.NumOfFaces = NF; mesh.NumOfBdrElements = 4;
		int type = dim == 1 ? Element::SEGMENT : dim == 2 ? Element::TRIANGLE : Element::TETRAHEDRON;
		mesh.elem_type = { type, type, type }; mesh.elem_attr = { 1, 2, 1 };
		for (int f = 0; f < NF; f++) { mesh.face_e1.push_back(faceOf1[f]); mesh.face_e2.push_back(faceOf2[f] < NE ? faceOf2[f] : -1); }
		mesh.bdr_attr = { 1, 2, 3, 4 }; mesh.bdr_face = { 0, 3, 2, 1 };
		mesh.SetAttributes();
		for (int e = 0; e < 4; e++) { elements[e] = new FiniteElement; elements[e]->dof = 1; elements[e]->order = 0; elements[e]->dim = dim; elements[e]->tag = e; elements[e]->shape = shapeAt; elements[e]->dshape = slopeAt; }
		rule.n = 1; rule.pts = new IntegrationPoint[1]; rule.pts[0].weight = vf_real("qw", 0.2, 2); rule.pts[0].index = 0;
		vf_requires(rule.pts[0].weight > 0.1);
		IntRules.rule = &rule;
		Mesh::face_setup = faceAt; Mesh::element_setup = elementAt;
		GeomTagToMaterialInfo mats;
		for (int m = 0; m < 2; m++) {
			eps[m] = vf_real(m ? "eps1" : "eps0", 1, 9); mu[m] = vf_real(m ? "mu1" : "mu0", 1, 9); sig[m] = vf_real(m ? "sig1" : "sig0", 0, 9);
			vf_requires(eps[m] >= 1.0 && mu[m] >= 1.0 && sig[m] >= 0.0);
			mats.gt2m.emplace(m + 1, Material(eps[m], mu[m], sig[m]));
		}
		for (int e = 0; e < NE; e++) vf_requires(volumeShape(e) > 0.1);
		GeomTagToBoundaryInfo bdr;
		bdr.gt2b[1] = outer[pair][0]; bdr.gt2b[2] = outer[pair][1];
		if (in >= 0) bdr.gt2ib[3] = inner[in];
		if (in2 >= 0) bdr.gt2ib[4] = inner[in2];
		model = new Model(mesh, mats, bdr);
		if (shared) model->getMesh().shared_faces.push_back(4);
		Array<int> third(4); third = 0; third[2] = 1;
		if (in == 3) model->getSGBCToMarker()[BdrCond::SGBC] = third;
		if (in == 4) model->getTotalFieldScatteredFieldToMarker()[BdrCond::TotalFieldIn] = third;
		Probes probes; Sources sources; EvolutionOptions opts; opts.alpha = alpha; opts.order = 0;
		pd = new ProblemDescription(*model, probes, sources, opts);
		fec = new DG_FECollection(0, dim);
		fes = new ParFiniteElementSpace(&model->getMesh(), fec);
		fes->fe_of = elementOf; fes->num_face_nbr_dofs = shared ? 1 : 0;
		factory = new DGOperatorFactory<ParFiniteElementSpace>(*pd, *fes);
		for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) for (int e = 0; e < 4; e++) u[f][d][e] = vf_ufi3("u", f, d, e);
	}
	int columns() const { return shared ? 4 : 3; }
	double material(int f, int e) const { int m = e == 1 ? 1 : 0; return f == 0 ? eps[m] : mu[m]; }
	double mass(int e) const { return rule.pts[0].weight * measure(e) * volumeShape(e) * volumeShape(e); }
	double derivative(int e, int d, double v) const { return rule.pts[0].weight * volumeShape(e) * slope(e, d) * v; }
	bool present(int f) const { return f != 4 || shared; }
	// what face f adds to the row of element e for the jump of the field with the values v in the elements
	double jump(int f, int e, double factor, int d0, int d1, const double* v, bool own) const
	{
		if (!present(f) || (faceOf1[f] != e && faceOf2[f] != e)) return 0.0;
		double side = faceOf1[f] == e ? 1.0 : -1.0, n = 1.0;
		int o = faceOf1[f] == e ? faceOf2[f] : faceOf1[f];
		if (d0 >= 0) n *= side * normalOf(f, d0);
		if (d1 >= 0) n *= side * normalOf(f, d1);
		double g = d0 < 0 ? faceWeight(f) : d1 < 0 ? 1.0 : 1.0 / faceWeight(f);
		double t = faceShape(e, f) * v[e];
		if (o >= 0 && !own) t -= faceShape(o, f) * v[o];
		return 0.5 * factor * rule.pts[0].weight * n * g * faceShape(e, f) * t;
	}
	// weight of the jump of field f on a face with a condition: a perfect conductor doubles the jump of the
	// field whose tangential part vanishes and drops the other, an absorbing boundary always counts once
	double weight(BdrCond c, int f, bool penalty) const
	{
		if (c == BdrCond::SMA) return 1.0;
		double w = c == BdrCond::PEC ? (f == 0 ? 2.0 : 0.0) : (f == 0 ? 0.0 : 2.0);
		return penalty ? w * alpha : w;
	}
	// the flux of field f over all ordinary faces of element e
	double flux(int f, int e, int d0, int d1, const double* v) const
	{
		bool penalty = d0 < 0 || d1 >= 0;
		double s = 0.0;
		for (int k : { 1, 2, 4 }) {
			int c = k == 1 ? in2 : k == 2 ? in : -1;
			if (c >= 0 && inner[c] != BdrCond::TotalFieldIn) continue;
			s += jump(k, e, penalty ? alpha : 1.0, d0, d1, v, false);
		}
		s += jump(0, e, weight(outer[pair][0], f, penalty), d0, d1, v, false);
		s += jump(3, e, weight(outer[pair][1], f, penalty), d0, d1, v, false);
		return s;
	}
	// the flux over interior boundaries with a condition of their own
	double innerFlux(int f, int e, int d0, int d1, const double* v) const
	{
		double s = 0.0;
		for (int k : { 1, 2 }) {
			int c = k == 1 ? in2 : in;
			if (c >= 0 && c <= 2) s += jump(k, e, weight(inner[c], f, d0 < 0 || d1 >= 0), d0, d1, v, true);
		}
		return s;
	}
	double sourceFlux(int e, int d0, int d1, const double* v) const { return jump(2, e, d0 < 0 || d1 >= 0 ? alpha : 1.0, d0, d1, v, false); }
	void check(const SparseMatrix& m, int f, int d0, int d1, int what)
	{
		const double* v = u[f][0];
		vf_ensures(m.Height() == NE, "one row for every local unknown");
		for (int e = 0; e < NE; e++) {
			double s = 0.0;
			for (int k = m.GetI()[e]; k < m.GetI()[e + 1]; k++) s += m.GetData()[k] * v[m.GetJ()[k]];
			double x = what == 0 ? flux(f, e, d0, d1, v) : what == 1 ? innerFlux(f, e, d0, d1, v) : sourceFlux(e, d0, d1, v);
			vf_ensures_near(s, x, 1e-8, what == 0 ? "flux over the faces" : what == 1 ? "flux over the interior boundaries" : "flux over the source faces");
		}
	}
};
using PBF = ParBilinearForm;

static void three(Row& r, int f, int d0, int d1)
{
	FieldType field = f == 0 ? FieldType::E : FieldType::H;
	Array<int> marker(4); marker = 0; marker[2] = 1;
	auto& k = *r.factory;
	if (d0 < 0) {
		r.check(k.buildZeroNormalSubOperator<PBF>(field)->SpMat(), f, d0, d1, 0);
		r.check(k.buildZeroNormalIBFISubOperator<PBF>(field)->SpMat(), f, d0, d1, 1);
		r.check(k.buildSourceFaceIBFIZeroNormalSubOperator<PBF>(field, marker)->SpMat(), f, d0, d1, 2);
	} else if (d1 < 0) {
		r.check(k.buildOneNormalSubOperator<PBF>(field, { d0 })->SpMat(), f, d0, d1, 0);
		r.check(k.buildOneNormalIBFISubOperator<PBF>(field, { d0 })->SpMat(), f, d0, d1, 1);
		r.check(k.buildSourceFaceIBFIOneNormalSubOperator<PBF>(field, { d0 }, marker)->SpMat(), f, d0, d1, 2);
	} else {
		r.check(k.buildTwoNormalSubOperator<PBF>(field, { d0, d1 })->SpMat(), f, d0, d1, 0);
		r.check(k.buildTwoNormalIBFISubOperator<PBF>(field, { d0, d1 })->SpMat(), f, d0, d1, 1);
		r.check(k.buildSourceFaceIBFITwoNormalSubOperator<PBF>(field, { d0, d1 }, marker)->SpMat(), f, d0, d1, 2);
	}
}

//@ scope=three_elements_of_one_unknown
VF_HARNESS(C09_zero_normal)
{
	int f = vf_choose("field", 2);
	bool centred = vf_choose("centred", 2) == 1;
	Row r(3, vf_choose("shared", 2) == 1, centred, vf_choose("outer", 4), vf_choose("inner", 6) - 1);
	three(r, f, -1, -1);
}

static void oneNormal(int f)
{
	int d = vf_choose("d0", 3);
	bool centred = vf_choose("centred", 2) == 1;
	Row r(3, d == 1, centred, vf_choose("outer", 4), vf_choose("inner", 6) - 1);
	three(r, f, d, -1);
}
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C09_one_normal_electric) { oneNormal(0); }
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C09_one_normal_magnetic) { oneNormal(1); }

static void twoNormal(int f)
{
	static const int a[3] = { 0, 1, 2 }, b[3] = { 1, 1, 0 };
	int d = vf_choose("d0", 3);
	bool centred = vf_choose("centred", 2) == 1;
	Row r(3, d == 1, centred, vf_choose("outer", 4), vf_choose("inner", 6) - 1);
	three(r, f, a[d], b[d]);
}
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C09_two_normal_electric) { twoNormal(0); }
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C09_two_normal_magnetic) { twoNormal(1); }

//@ scope=three_elements_of_one_unknown
VF_HARNESS(C09_two_conditions)
{
	int f = vf_choose("field", 2), n = vf_choose("normals", 3);
	Row r(3, false, false, 0, vf_choose("inner", 5), vf_choose("inner2", 5));
	three(r, f, n > 0 ? 1 : -1, n > 1 ? 2 : -1);
}

// ---------------------------------------------------------------- the operator over all six components
// E' = curl H and H' = -curl E, element by element, with the jumps of the other field rotated by the normal,
// minus the jumps of the own field weighted with the upwind parameter, except for their normal part
static double evolution(const Row& r, int f, int d, int e, int what)
{
	int y = (d + 1) % 3, z = (d + 2) % 3;
	double sign = f == 0 ? 1.0 : -1.0, s = 0.0;
	const double* oy = r.u[1 - f][y]; const double* oz = r.u[1 - f][z];
	auto over = [&](int g, int d0, int d1, const double* v) {
		return what == 2 ? r.sourceFlux(e, d0, d1, v) : r.flux(g, e, d0, d1, v) + r.innerFlux(g, e, d0, d1, v);
	};
	if (what != 2) {
		if (y < theDim) s += sign * r.derivative(e, y, oz[e]);
		if (z < theDim) s -= sign * r.derivative(e, z, oy[e]);
		if (f == 0) s -= r.sig[e == 1 ? 1 : 0] * r.mass(e) * r.u[0][d][e];
	}
	if (y < theDim) s -= sign * over(1 - f, y, -1, oz);
	if (z < theDim) s += sign * over(1 - f, z, -1, oy);
	s -= over(f, -1, -1, r.u[f][d]);
	if (d < theDim) for (int k = 0; k < theDim; k++) s += over(f, d, k, r.u[f][k]);
	return s / (r.material(f, e) * r.mass(e));
}
static void compare(const Row& r, const SparseMatrix& m, int what)
{
	int c = r.columns();
	vf_ensures(m.Height() == 6 * NE && m.Width() == 6 * c, "six components of local rows, and of local and neighbour columns");
	for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) for (int e = 0; e < NE; e++) {
		int row = (3 * f + d) * NE + e;
		double s = 0.0;
		for (int k = m.GetI()[row]; k < m.GetI()[row + 1]; k++) { int j = m.GetJ()[k]; s += m.GetData()[k] * r.u[j / c / 3][j / c % 3][j % c]; }
		vf_ensures_near(s, evolution(r, f, d, e, what), 1e-7, what == 2 ? "source operator" : "evolution operator");
	}
}
static void global(int dim)
{
	int in = vf_choose("inner", 6) - 1;
	Row r(dim, in == 0 || in == 4, in == 1, (in + 1) % 4, in, in == 2 ? 0 : in == 3 ? 1 : in == 0 ? 0 : -1);
	compare(r, *r.factory->buildGlobalOperator(), 0);
}
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C08_line) { global(1); }
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C08_plane) { global(2); }
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C08_space) { global(3); }

// the operator of the source faces: the same couplings, over the marked faces alone
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C08_sources)
{
	int dim = 1 + vf_choose("dim", 3), in = vf_choose("inner", 3) + 2;
	Row r(dim, in == 3, in == 2, dim, in);
	auto m = in == 4 ? r.factory->buildTFSFGlobalOperator() : in == 3 ? r.factory->buildSGBCGlobalOperator() : r.factory->buildSourceFaceOperator(inner[in]);
	compare(r, *m, 2);
}

//@ scope=three_elements_of_one_unknown
VF_HARNESS(C08_no_sources)
{
	Row r(2, true, false, 0, vf_choose("inner", 2) - 1);
	auto m = vf_choose("kind", 2) ? r.factory->buildTFSFGlobalOperator() : r.factory->buildSGBCGlobalOperator();
	vf_ensures(m->Height() == 6 * NE && m->Width() == 6 * 4 && m->GetI()[6 * NE] == 0, "without source faces the source operator is empty");
}

// adding block by block gives the same operator
//@ scope=three_elements_of_one_unknown
VF_HARNESS(C08_adding)
{
	int dim = 1 + vf_choose("dim", 3), in = vf_choose("inner", 3) - 1;
	Row r(dim, in == 1, false, dim, in);
	auto& k = *r.factory;
	SparseMatrix m(6 * NE, 6 * r.columns());
	auto inv = k.buildMaxwellInverseMassMatrixOperator<PBF>();
	if (vf_choose("given", 2)) {
		k.addGlobalOneNormalIBFIOperators<PBF>(&m, inv); k.addGlobalZeroNormalIBFIOperators<PBF>(&m, inv); k.addGlobalTwoNormalIBFIOperators<PBF>(&m, inv);
		k.addGlobalDirectionalOperators<PBF>(&m, inv); k.addGlobalOneNormalOperators<PBF>(&m, inv); k.addGlobalZeroNormalOperators<PBF>(&m, inv); k.addGlobalTwoNormalOperators<PBF>(&m, inv); k.addGlobalConductiveOperator<PBF>(&m, inv);
	} else {
		k.addGlobalOneNormalIBFIOperators<PBF>(&m); k.addGlobalZeroNormalIBFIOperators<PBF>(&m); k.addGlobalTwoNormalIBFIOperators<PBF>(&m);
		k.addGlobalDirectionalOperators<PBF>(&m); k.addGlobalOneNormalOperators<PBF>(&m); k.addGlobalZeroNormalOperators<PBF>(&m); k.addGlobalTwoNormalOperators<PBF>(&m); k.addGlobalConductiveOperator<PBF>(&m);
	}
	m.Finalize();
	compare(r, m, 0);
}
