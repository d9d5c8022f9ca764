// C13: the jumps of the nodal solver at boundary nodes (evolution/HesthavenEvolution.cpp)
#include "verif.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "components/Sources.cpp"
#include "components/ProblemDescription.cpp"
#include "solver/SourcesManager.cpp"
#include "evolution/MaxwellEvolutionMethods.cpp"
#include "evolution/HesthavenEvolutionMethods.cpp"
#include "evolution/HesthavenEvolution.cpp"

using namespace maxwell;
using namespace mfem;

enum Kind { PEC_, PMC_, SMA_ };
static double jumpOf(Kind k, bool electric, double local) { return k == SMA_ ? -local : (k == PEC_) == electric ? -2.0 * local : 0.0; }

// a nodal evolution of which only what the jumps need is there: n unknowns, j face nodes
struct Nodal {
	int n, j; double* in; double* before;
	ParMesh mesh; DG_FECollection fec; ParFiniteElementSpace fes; Vector state; EvolutionOptions opts;
	HesthavenEvolution* evo; HesthavenFields* jumps; FieldsInputMaps* fields; BoundaryMaps maps;
	Nodal(int n_ = 0, int j_ = 0) : fec(1, 2), fes(&mesh, &fec)
	{
		n = n_ ? n_ : vf_size("n", 1, 4); j = j_ ? j_ : vf_size("j", 1, 12);
		vf_requires(n < 100000000 && j < 100000000);
		fes.ndofs = n;
		in = vf_real_array("in", 6 * n, -2, 2);
		state.SetDataAndSize(in, 6 * n);
		fields = new FieldsInputMaps(state, fes);
		before = vf_real_array("before", 6 * j, -2, 2);
		jumps = new HesthavenFields(j);
		for (int d = X; d <= Z; d++) for (int k = 0; k < j; k++) { jumps->e_[d][k] = before[d * j + k]; jumps->h_[d][k] = before[(3 + d) * j + k]; }
		opts.alpha = 1.0;
		evo = static_cast<HesthavenEvolution*>(operator new(sizeof(HesthavenEvolution)));
		// every reference of the object refers to the options; the members used are placed afterwards
		void** words = reinterpret_cast<void**>(evo);
		for (unsigned i = 0; i < sizeof(HesthavenEvolution) / sizeof(void*); i++) words[i] = &opts;
		new (&evo->hestElemCurvedStorage_) std::vector<HesthavenCurvedElement>();
	}
	double E_(int d, int k) const { return in[d * n + k]; }
	double H_(int d, int k) const { return in[(3 + d) * n + k]; }
	TrueBoundaryMaps& outer(int k) { return k == PEC_ ? maps.PEC : k == PMC_ ? maps.PMC : maps.SMA; }
	InteriorBoundaryMaps& inner(int k) { return k == PEC_ ? maps.intPEC : k == PMC_ ? maps.intPMC : maps.intSMA; }
	void run() { evo->applyBoundaryConditionsToNodes(maps, *fields, *jumps); }
};
static Nodes part(const int* a, int from, int count) { Nodes r(count); for (int i = 0; i < count; i++) r[i] = a[from + i]; return r; }

static void boundary(Kind kind, bool electric)
{
	Nodal t;
	int nb = vf_size("nb", 1, 3); vf_requires(nb < 100000000);
	int* at = vf_injection("at", 2 * nb, 0, t.j); int* of = vf_index_array("of", 2 * nb, 0, t.n);
	// two boundaries of this kind
	for (int m = 0; m < 2; m++) { t.outer(kind).mapB.push_back(part(at, m * nb, nb)); t.outer(kind).vmapB.push_back(part(of, m * nb, nb)); }
	t.run();
	int d = vf_choose("d", 3), which = vf_choose("which", 2), v = vf_int("v", 0, 2); vf_requires(v >= 0 && v < nb);
	int p = at[which * nb + v], q = of[which * nb + v];
	double got = electric ? t.jumps->e_[d][p] : t.jumps->h_[d][p];
	vf_ensures_near(got, jumpOf(kind, electric, electric ? t.E_(d, q) : t.H_(d, q)), 1e-12, "a boundary node has the jump of its condition");
	vf_cover("boundary");
}
VF_HARNESS(C13_pec_electric) { boundary(PEC_, true); }
VF_HARNESS(C13_pec_magnetic) { boundary(PEC_, false); }
VF_HARNESS(C13_pmc_electric) { boundary(PMC_, true); }
VF_HARNESS(C13_pmc_magnetic) { boundary(PMC_, false); }
VF_HARNESS(C13_sma_electric) { boundary(SMA_, true); }
VF_HARNESS(C13_sma_magnetic) { boundary(SMA_, false); }

static void interior(Kind kind, bool electric)
{
	Nodal t;
	int nb = vf_size("nb", 1, 2); vf_requires(nb < 100000000);
	int* at = vf_injection("at", 4 * nb, 0, t.j); int* of = vf_index_array("of", 4 * nb, 0, t.n);
	auto& b = t.inner(kind);
	for (int m = 0; m < 2; m++) {
		b.mapBElem1.push_back(part(at, 2 * m * nb, nb)); b.mapBElem2.push_back(part(at, (2 * m + 1) * nb, nb));
		b.vmapBElem1.push_back(part(of, 2 * m * nb, nb)); b.vmapBElem2.push_back(part(of, (2 * m + 1) * nb, nb));
	}
	t.run();
	int d = vf_choose("d", 3), which = vf_choose("which", 4), v = vf_int("v", 0, 1); vf_requires(v >= 0 && v < nb);
	int p = at[which * nb + v], q = of[which * nb + v];
	double got = electric ? t.jumps->e_[d][p] : t.jumps->h_[d][p];
	vf_ensures_near(got, 0.5 * jumpOf(kind, electric, electric ? t.E_(d, q) : t.H_(d, q)), 1e-12, "each side of an interior boundary has half the mirror jump");
	vf_cover("interior");
}
VF_HARNESS(C13_interior_pec_electric) { interior(PEC_, true); }
VF_HARNESS(C13_interior_pec_magnetic) { interior(PEC_, false); }
VF_HARNESS(C13_interior_pmc_electric) { interior(PMC_, true); }
VF_HARNESS(C13_interior_pmc_magnetic) { interior(PMC_, false); }
VF_HARNESS(C13_interior_sma_electric) { interior(SMA_, true); }
VF_HARNESS(C13_interior_sma_magnetic) { interior(SMA_, false); }

// every kind of boundary is present; a face node on none of them keeps its jump
VF_HARNESS(C13_other_nodes)
{
	Nodal t;
	int nb = vf_size("nb", 1, 2); vf_requires(nb < 100000000);
	int* at = vf_injection("at", 9 * nb + 1, 0, t.j); int* of = vf_index_array("of", 9 * nb, 0, t.n);
	for (int k = 0; k < 3; k++) {
		t.outer(k).mapB.push_back(part(at, k * nb, nb)); t.outer(k).vmapB.push_back(part(of, k * nb, nb));
		t.inner(k).mapBElem1.push_back(part(at, (3 + 2 * k) * nb, nb)); t.inner(k).vmapBElem1.push_back(part(of, (3 + 2 * k) * nb, nb));
		t.inner(k).mapBElem2.push_back(part(at, (4 + 2 * k) * nb, nb)); t.inner(k).vmapBElem2.push_back(part(of, (4 + 2 * k) * nb, nb));
	}
	t.run();
	int d = vf_choose("d", 3), p = at[9 * nb];
	vf_ensures(t.jumps->e_[d][p] == t.before[d * t.j + p], "a node on no boundary keeps its electric jump");
	vf_ensures(t.jumps->h_[d][p] == t.before[(3 + d) * t.j + p], "a node on no boundary keeps its magnetic jump");
	int k = vf_int("k", 0, 3); vf_requires(k >= 0 && k < t.n);
	vf_ensures(t.state(d * t.n + k) == t.in[d * t.n + k] && t.jumps->e_[d].size() == t.j && t.jumps->h_[d].size() == t.j, "fields and sizes are kept");
	vf_cover("other nodes");
}

// next to curved elements, which have operators of their own, the straight elements keep their boundary jumps
//@ scope=four_nodes
VF_HARNESS(C13_beside_curved)
{
	Nodal t(4, 8);
	Array<int> bent(2); bent[0] = 2; bent[1] = 3;
	HesthavenCurvedElement c; c.id = 1; c.dofs = bent; t.evo->hestElemCurvedStorage_.push_back(c);
	int kind = vf_choose("kind", 3), first = vf_choose("first", 2), d = vf_choose("d", 3); bool electric = vf_choose("electric", 2);
	// node 0 is on an outer boundary; nodes 1 and 2 face each other across an interior one
	t.outer(kind).mapB.push_back(Nodes{ 3 }); t.outer(kind).vmapB.push_back(Nodes{ 0 });
	auto& in = t.inner(kind);
	in.mapBElem1.push_back(Nodes{ first ? 6 : 4 }); in.vmapBElem1.push_back(Nodes{ first ? 2 : 1 });
	in.mapBElem2.push_back(Nodes{ first ? 4 : 6 }); in.vmapBElem2.push_back(Nodes{ first ? 1 : 2 });
	t.run();
	auto& got = electric ? t.jumps->e_[d] : t.jumps->h_[d];
	double local0 = electric ? t.E_(d, 0) : t.H_(d, 0), local1 = electric ? t.E_(d, 1) : t.H_(d, 1);
	vf_ensures_near(got[3], jumpOf(Kind(kind), electric, local0), 1e-12, "a boundary node of a straight element has the jump of its condition");
	vf_ensures_near(got[4], 0.5 * jumpOf(Kind(kind), electric, local1), 1e-12, "a straight element facing a curved one has the jump of its condition");
	int p = vf_choose("p", 8);
	if (p != 3 && p != 4 && p != 6) vf_ensures(got[p] == t.before[(electric ? 0 : 3) * t.j + d * t.j + p], "the other nodes keep their jump");
	vf_cover("beside curved");
}
