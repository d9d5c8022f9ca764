// C14: solver/SourcesManager.cpp, evolution/MaxwellEvolutionMethods.cpp and the injection of the nodal evolution
#include "verif.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "components/Sources.cpp"
#include "solver/SourcesManager.cpp"
#include "evolution/MaxwellEvolutionMethods.cpp"
#include "evolution/HesthavenEvolutionMethods.cpp"
#include "evolution/HesthavenEvolution.cpp"

using namespace maxwell;
using namespace mfem;

// an arbitrary incident field: each component is an unknown function of position and time
static const char* const waves[2][6] = {
	{ "w1Ex", "w1Ey", "w1Ez", "w1Hx", "w1Hy", "w1Hz" },
	{ "w2Ex", "w2Ey", "w2Ez", "w2Hx", "w2Hy", "w2Hz" } };
static double field(int id, int c, double x, double y, double z, double t) { return vf_ufn4(waves[id][c], x, y, z, t); }
struct Wave : EHFieldFunction {
	int id;
	Wave(int i) : id(i) {}
	std::unique_ptr<EHFieldFunction> clone() const override { return std::make_unique<Wave>(id); }
	double eval(const Position& p, const Time& t, const FieldType& f, const Direction& d) const override
	{
		return field(id, 3 * f + d, p(0), p.Size() > 1 ? p(1) : 0.0, p.Size() > 2 ? p(2) : 0.0, t);
	}
};
// a source of another kind
struct Other : Source {
	std::unique_ptr<Source> clone() const override { return std::make_unique<Other>(); }
	double eval(const Position&, const Time&, const FieldType&, const Direction&) const override { return 1000.0; }
};

static double* place;  // coordinates of node i of element e: place[3*(2e+i)+c]
static void positionOf(const ElementTransformation* t, const IntegrationPoint& p, Vector& x)
{
	int sd = t->mesh->spaceDim; x.SetSize(sd);
	for (int c = 0; c < sd; c++) x(c) = place[3 * (2 * t->ElementNo + p.index) + c];
}

// a total-field surface of three elements with two nodes each
struct Surface {
	SourcesManager* m; ParMesh parent; L2_FECollection fec; ParFiniteElementSpace fes; int dim; bool sided; bool scattered[3] = { false, false, false }; int sources;
	FiniteElement fe;
	static SubMesh* some(const Mesh& p, int dim) { auto* s = new SubMesh; s->Dim = s->spaceDim = dim; s->parent_ = &p; return s; }
	Surface() : fec(1, 3)
	{
		dim = 1 + vf_choose("dim", 3); sources = 1 + vf_choose("sources", 2);
		place = vf_real_array("place", 18, -2, 2); ElementTransformation::map = positionOf;
		fe.dof = 2; fe.dim = dim; fe.nodes = IntegrationRule(2); fe.nodes.pts[0].index = 0; fe.nodes.pts[1].index = 1;
		fec.fe = &fe;
		// no initial fields: the fields are not looked at
		m = new SourcesManager(Sources(), fes, *static_cast<Fields<ParFiniteElementSpace, ParGridFunction>*>(operator new(sizeof(Fields<ParFiniteElementSpace, ParGridFunction>))));
		fes.fec = &fec;
		m->sources.v_.push_back(std::make_unique<Other>());
		for (int s = 0; s < sources; s++) m->sources.v_.push_back(std::make_unique<TotalField>(Wave(s)));
		const int ids[3] = { 7, 2, 5 };
		auto* all = some(parent, dim); for (int id : ids) { all->parent_element_ids_.Append(id); all->elem_type.push_back(Element::SEGMENT); all->elem_attr.push_back(1); } all->NumOfElements = 3;
		m->tfsf_submesher_.global_submesh_.reset(all);
		sided = vf_choose("sided", 2) == 1;
		auto* tf = some(parent, dim); auto* sf = some(parent, dim);
		int which = vf_choose("scattered", 7);  // not every element is on the scattered side
		for (int e : { 1, 2, 0 }) {  // the parts are not in the order of the whole
			scattered[e] = sided && ((which >> e) & 1);
			(scattered[e] ? sf : tf)->parent_element_ids_.Append(ids[e]);
		}
		for (auto* part : { tf, sf }) { part->NumOfElements = part->parent_element_ids_.Size(); part->elem_type.resize(part->NumOfElements, Element::SEGMENT); }
		m->tfsf_submesher_.tf_mesh_.reset(tf);
		if (sided) m->tfsf_submesher_.sf_mesh_.reset(sf);
		m->initTFSFSpaces();
	}
	double at(int dof, int c) const { return c < dim ? place[3 * dof + c] : 0.0; }
	double expected(int dof, int c, double t) const
	{
		double s = 0.0;
		for (int k = 0; k < sources; k++) s += field(k, c, at(dof, 0), at(dof, 1), at(dof, 2), t);
		return s * (!sided ? 1.0 : scattered[dof / 2] ? -0.5 : 0.5);
	}
	void check(const FieldGridFuncs& got, double t)
	{
		int dof = vf_choose("dof", 6), c = vf_choose("c", 6);
		vf_ensures(got[c / 3][c % 3].Size() == 6, "there is one value for each node of the surface");
		vf_ensures_near(got[c / 3][c % 3](dof), expected(dof, c, t), 1e-12, "the injected field is the signed sum of the incident fields");
	}
};

//@ scope=three_elements_of_two_nodes_and_up_to_two_sources
VF_HARNESS(C14_direct)
{
	Surface s;
	double before = vf_real("before", 0, 5), t = vf_real("t", 0, 5);
	s.m->initDirectPlanewaveEval();
	evalTimeVarFunction(before, *s.m);
	auto got = evalTimeVarFunction(t, *s.m);
	s.check(got, t);
	vf_cover("direct");
}

//@ scope=three_elements_of_two_nodes_and_up_to_two_sources
VF_HARNESS(C14_projected)
{
	Surface s;
	double before = vf_real("before", 0, 5), t = vf_real("t", 0, 5);
	auto* f = s.m->getGlobalTFSFSpace();
	f->dof_pos.resize(18); for (int i = 0; i < 18; i++) f->dof_pos[i] = place[i];
	evalTimeVarFunction(before, *s.m);
	auto got = evalTimeVarFunction(t, *s.m);
	s.check(got, t);
	vf_cover("projected");
}

// the nodal evolution: the jump of a total-field node gains the incident field at the surface, its scattered-field partner loses it
struct Clock : TimeDependentOperator { void Mult(const Vector&, Vector&) const override {} };
struct NodalSurface {
	HesthavenEvolution* evo; SourcesManager* m; ParFiniteElementSpace fes; HesthavenFields* jumps; double* before; double* at; int* node; int j, sources; int of[4]; double t;
	NodalSurface()
	{
		j = vf_size("j", 9, 12); vf_requires(j < 100000000); sources = 1 + vf_choose("sources", 2); t = vf_real("t", 0, 5);
		node = vf_injection("node", 9, 0, j); before = vf_real_array("jumps", 6 * j, -2, 2); at = vf_real_array("at", 9, -2, 2);
		m = new SourcesManager(Sources(), fes, *static_cast<Fields<ParFiniteElementSpace, ParGridFunction>*>(operator new(sizeof(Fields<ParFiniteElementSpace, ParGridFunction>))));
		m->sources.v_.push_back(std::make_unique<Other>());
		for (int s = 0; s < sources; s++) m->sources.v_.push_back(std::make_unique<TotalField>(Wave(s)));
		evo = static_cast<HesthavenEvolution*>(operator new(sizeof(HesthavenEvolution)));
		void** words = reinterpret_cast<void**>(evo);
		for (unsigned i = 0; i < sizeof(HesthavenEvolution) / sizeof(void*); i++) words[i] = m;
		new (static_cast<TimeDependentOperator*>(evo)) Clock(); evo->SetTime(t);
		new (&evo->positions_) std::vector<Source::Position>();
		for (int i = 0; i < 3; i++) { Vector p(3); for (int c = 0; c < 3; c++) p(c) = at[3 * i + c]; evo->positions_.push_back(p); }
		new (&evo->connectivity_.boundary) BoundaryMaps();
		auto& b = evo->connectivity_.boundary.TFSF;
		int first = vf_choose("first", 3);
		for (int m = 0; m < 2; m++) {
			std::vector<int> tf, sf, vtf, vsf;
			for (int v = 0; v < 2; v++) {
				of[2 * m + v] = (first + m + v) % 3;
				tf.push_back(node[2 * m + v]); sf.push_back(node[4 + 2 * m + v]); vsf.push_back(of[2 * m + v]); vtf.push_back(of[2 * m + v]);
			}
			b.mapBTF.push_back(tf); b.mapBSF.push_back(sf); b.vmapBTF.push_back(vtf); b.vmapBSF.push_back(vsf);
		}
		jumps = new HesthavenFields(j);
		for (int d = 0; d < 3; d++) for (int i = 0; i < j; i++) { jumps->e_[d][i] = before[d * j + i]; jumps->h_[d][i] = before[(3 + d) * j + i]; }
		evo->evaluateTFSF(*jumps);
	}
	double incident(int k, int c) const
	{
		double s = 0.0;
		for (int i = 0; i < sources; i++) s += field(i, c, at[3 * of[k]], at[3 * of[k] + 1], at[3 * of[k] + 2], t);
		return s;
	}
	double got(int p, int c) const { return c < 3 ? jumps->e_[c][p] : jumps->h_[c - 3][p]; }
};
//@ scope=two_faces_of_two_nodes_and_up_to_two_sources
VF_HARNESS(C14_nodal)
{
	NodalSurface s;
	int k = vf_choose("k", 4), c = vf_choose("c", 6);
	vf_ensures_near(s.got(s.node[k], c), s.before[c * s.j + s.node[k]] + s.incident(k, c), 1e-12, "a total-field node gains the incident field");
	vf_ensures_near(s.got(s.node[4 + k], c), s.before[c * s.j + s.node[4 + k]] - s.incident(k, c), 1e-12, "a scattered-field node loses the incident field");
	vf_ensures(s.got(s.node[8], c) == s.before[c * s.j + s.node[8]], "a node off the surface keeps its jump");
	vf_cover("nodal");
}
