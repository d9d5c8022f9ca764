// C23: the evolution operators evolution/GlobalEvolution.cpp, evolution/MaxwellEvolution.cpp, evolution/HesthavenEvolution.cpp
#include "verif.h"
#include "io.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "components/Sources.cpp"
#include "components/ProblemDescription.cpp"
#include "mfemExtension/IntegratorFunctions.cpp"
#include "mfemExtension/BilinearIntegrators.cpp"
#include "mfemExtension/LinearIntegrators.cpp"
#include "components/FarField.cpp"
#include "components/RCSSurfaceExporter.cpp"
#include "solver/ProbesManager.cpp"
#include "solver/SourcesManager.cpp"
#include "solver/Solver.cpp"
#include "solver/SolverExtension.cpp"
#include "evolution/MaxwellEvolutionMethods.cpp"
#include "evolution/MaxwellEvolution.cpp"
#include "evolution/GlobalEvolution.cpp"
#include "evolution/HesthavenEvolutionMethods.cpp"
#include "evolution/HesthavenEvolution.cpp"

using namespace maxwell;
using namespace mfem;

typedef Fields<ParFiniteElementSpace, ParGridFunction> ParFields;

// an operator that keeps what it was given and answers with the given values
struct Kept : SparseMatrix {
	const double* answer; mutable const double* seen = nullptr; mutable int size = 0, calls = 0; mutable double factor = 0.0;
	Kept(const double* a) : answer(a) {}
	void keep(const Vector& x) const { calls++; size = x.Size(); double* s = new double[size]; for (int i = 0; i < size; i++) s[i] = x(i); seen = s; }
	void Mult(const Vector& x, Vector& y) const override { keep(x); for (int i = 0; i < y.Size(); i++) y(i) = answer[i]; }
	void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { keep(x); factor = a; for (int i = 0; i < y.Size(); i++) y(i) += a * answer[i]; }
};

// the evolution of a domain built without elements, then given n unknowns of its own and m of neighbouring ranks
struct Domain0 {
	Mesh none; Model* model; DG_FECollection fec; ParFiniteElementSpace* fes; EvolutionOptions opts; SourcesManager* sm; ParFields* fields; GlobalEvolution* evo;
	Domain0() : fec(0, 1)
	{
		none.Dim = none.spaceDim = 1; none.elem_type = { Element::SEGMENT };
		model = new Model(none, GeomTagToMaterialInfo(), GeomTagToBoundaryInfo());
		fes = new ParFiniteElementSpace(&model->getMesh(), &fec);
		fields = new ParFields(*fes);
		sm = new SourcesManager(Sources(), *fes, *fields);
		evo = new GlobalEvolution(*fes, *model, *sm, opts);
	}
	void resize(int n, int m, double* halo)
	{
		fes->ndofs = n; fes->num_face_nbr_dofs = m;
		for (int d = 0; d < 3; d++) {
			evo->eOld_[d].SetSpace(fes); evo->hOld_[d].SetSpace(fes);
			evo->eOld_[d].halo = halo + d * m; evo->hOld_[d].halo = halo + (3 + d) * m;
		}
	}
};

VF_HARNESS(C23_global)
{
	Domain0 t;
	int n = vf_size("n", 1, 4), m = vf_choose("neighbours", 2) ? vf_size("m", 1, 3) : 0; vf_requires(n < 100000000 && m < 100000000);
	double* halo = vf_real_array("halo", 6 * m, -2, 2); double* x = vf_real_array("x", 6 * n, -2, 2); double* y = vf_real_array("y", 6 * n, -2, 2);
	t.resize(n, m, halo);
	auto* op = new Kept(y); t.evo->globalOperator_.reset(op);
	Vector in(6 * n), out(6 * n); for (int i = 0; i < 6 * n; i++) in(i) = x[i];
	t.evo->Mult(in, out);
	vf_ensures(op->calls == 1 && op->size == 6 * (n + m), "the operator is applied once to the own and the neighbours' values");
	int c = vf_choose("c", 6), p = vf_int("p", 0, 3), q = vf_int("q", 0, 2), r = vf_int("r", 0, 23);
	vf_requires(p >= 0 && p < n && r >= 0 && r < 6 * n);
	vf_ensures(op->seen[c * (n + m) + p] == x[c * n + p], "each component is packed in its block");
	if (q >= 0 && q < m) vf_ensures(op->seen[c * (n + m) + n + q] == halo[c * m + q], "the neighbours' values follow those of their component");
	vf_ensures(out(r) == y[r], "the result is what the operator gives");
	vf_ensures(in(r) == x[r], "the state is not changed");
	vf_cover("global");
}

// a form whose matrix has one non-zero column: y += a * column * x[at]
static double* entries; static int entry_rows, column_at, flux_at;
struct Column : ParBilinearForm {
	int id; bool flux;
	Column(ParFiniteElementSpace* f, int i, bool with_neighbours) : ParBilinearForm(f), id(i), flux(with_neighbours) {}
	double row(int i) const { return entries[id * entry_rows + i]; }
	void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { double v = a * x(flux ? flux_at : column_at); for (int i = 0; i < y.Size(); i++) y(i) += entries[id * entry_rows + i] * v; }
	void Mult(const Vector& x, Vector& y) const override { double v = x(flux ? flux_at : column_at); for (int i = 0; i < y.Size(); i++) y(i) = entries[id * entry_rows + i] * v; }
};

static const double* state_at; static double* neighbours_of; static int own, others;
static double* neighboursOf(const double* field)
{
	for (int c = 0; c < 5; c++) if (field == state_at + c * own) return neighbours_of + c * others;
	return neighbours_of + 5 * others;
}

static int stiff(int f, int d) { return 3 * f + d; }
static int jumpN(int f, int g, int d) { return 6 + 6 * f + 3 * g + d; }
static int jumpNN(int f, int g, int d, int e) { return 18 + 18 * f + 9 * g + 3 * d + e; }
static int jump0(int f) { return 54 + f; }

struct Clock : TimeDependentOperator { void Mult(const Vector&, Vector&) const override {} };
// the evolution with stored forms of a domain with n unknowns of its own and m of neighbouring ranks
struct Stored {
	Mesh line; DG_FECollection fec; ParMesh* mesh; ParFiniteElementSpace* fes; MaxwellEvolution* evo; SourcesManager* sm; bool interior;
	Stored(bool with_interior) : fec(0, 1), interior(with_interior)
	{
		line.Dim = line.spaceDim = 1; line.elem_type = { Element::SEGMENT };
		auto* model = new Model(line, GeomTagToMaterialInfo(), GeomTagToBoundaryInfo());
		if (interior) model->getInteriorBoundaryToMarker()[BdrCond::PEC] = BoundaryMarker();
		fes = new ParFiniteElementSpace(&model->getMesh(), &fec);
		sm = new SourcesManager(Sources(), *fes, *new ParFields(*fes));
		Probes probes; EvolutionOptions opts;
		evo = static_cast<MaxwellEvolution*>(operator new(sizeof(MaxwellEvolution)));
		static char marks[sizeof(MaxwellEvolution) / sizeof(void*)];
		void** words = reinterpret_cast<void**>(evo);
		for (unsigned i = 0; i < sizeof(marks); i++) words[i] = marks + i;
		words[reinterpret_cast<char*>(&evo->fes_) - marks] = fes;
		words[reinterpret_cast<char*>(&evo->srcmngr_) - marks] = sm;
		new (static_cast<TimeDependentOperator*>(evo)) Clock();
		new (&evo->pd_) ProblemDescription(*model, probes, sm->sources, opts);
		for (int f = 0; f < 2; f++) {
			own_form(&evo->MP_[f], jump0(f)); own_form(&evo->MPB_[f], 56 + jump0(f));
			for (int d = 0; d < 3; d++) {
				new (&evo->MS_[f][d]) std::unique_ptr<ParBilinearForm>(new Column(fes, stiff(f, d), false));
				for (int g = 0; g < 2; g++) {
					own_form(&evo->MFN_[f][g][d], jumpN(f, g, d)); own_form(&evo->MFNB_[f][g][d], 56 + jumpN(f, g, d));
					for (int e = 0; e < 3; e++) { own_form(&evo->MFNN_[f][g][d][e], jumpNN(f, g, d, e)); own_form(&evo->MFNNB_[f][g][d][e], 56 + jumpNN(f, g, d, e)); }
				}
			}
		}
	}
	void own_form(std::unique_ptr<ParBilinearForm>* p, int id) { new (p) std::unique_ptr<ParBilinearForm>(new Column(fes, id, true)); }
};

static double entry(int id, int i) { return entries[id * entry_rows + i]; }

VF_HARNESS(C23_stored)
{
	int n = vf_size("n", 1, 4), m = vf_choose("neighbours", 2) ? vf_size("m", 1, 3) : 0; vf_requires(n < 10000000 && m < 10000000);
	bool interior = vf_choose("interior", 2);
	Stored t(interior);
	t.fes->ndofs = n; t.fes->num_face_nbr_dofs = m;
	double* x = vf_real_array("x", 6 * n, -2, 2);
	neighbours_of = vf_real_array("halo", 6 * m, -2, 2); own = n; others = m;
	entries = vf_real_array("entries", 112 * n, -2, 2); entry_rows = n;
	column_at = vf_int("q1", 0, 3); flux_at = vf_int("q2", 0, 6); vf_requires(column_at >= 0 && column_at < n && flux_at >= 0);
	bool remote = m > 0 && vf_choose("remote", 2);
	if (remote) vf_requires(flux_at >= n && flux_at < n + m); else vf_requires(flux_at < n);
	Vector in(6 * n), out(6 * n); for (int i = 0; i < 6 * n; i++) { in(i) = x[i]; out(i) = 7.0; }
	state_at = in.GetData(); ParGridFunction::halo_of = neighboursOf;
	t.evo->MaxwellEvolution::Mult(in, out);
	int p = vf_int("p", 0, 3), c = vf_choose("c", 6); vf_requires(p >= 0 && p < n);
	double u[6], w[6];
	for (int k = 0; k < 6; k++) { u[k] = x[k * n + column_at]; w[k] = remote ? neighbours_of[k * m + flux_at - n] : x[k * n + flux_at]; }
	int f = c / 3, d = c % 3, y = (d + 1) % 3, z = (d + 2) % 3, g = 1 - f; double s = f == 0 ? 1.0 : -1.0;
	double expect = s * (entry(stiff(f, y), p) * u[3 * g + z] - entry(stiff(f, z), p) * u[3 * g + y]);
	for (int b = 0; b < (interior ? 2 : 1); b++) {
		int o = 56 * b;
		expect += s * (entry(o + jumpN(f, g, z), p) * w[3 * g + y] - entry(o + jumpN(f, g, y), p) * w[3 * g + z]);
		for (int e = 0; e < 3; e++) expect += entry(o + jumpNN(f, f, e, d), p) * w[3 * f + e];
		expect -= entry(o + jump0(f), p) * w[3 * f + d];
	}
	vf_ensures_eq(out(c * n + p), expect, "each component changes with the discrete curl and the penalised jumps of its own and the neighbours' values");
	vf_ensures(in(c * n + p) == x[c * n + p], "the state is not changed");
	vf_cover("stored");
}

// an arbitrary incident field: each component is an unknown function of position and time
static const char* const waves[2][6] = {
	{ "w1Ex", "w1Ey", "w1Ez", "w1Hx", "w1Hy", "w1Hz" },
	{ "w2Ex", "w2Ey", "w2Ez", "w2Hx", "w2Hy", "w2Hz" } };
static double wave(int id, int c, double x, double t) { return vf_ufn2(waves[id][c], x, t); }
struct Wave : EHFieldFunction {
	int id;
	Wave(int i) : id(i) {}
	std::unique_ptr<EHFieldFunction> clone() const override { return std::make_unique<Wave>(id); }
	double eval(const Position& p, const Time& t, const FieldType& f, const Direction& d) const override { return wave(id, 3 * f + d, p(0), t); }
};
struct Other : Source {
	std::unique_ptr<Source> clone() const override { return std::make_unique<Other>(); }
	double eval(const Position&, const Time&, const FieldType&, const Direction&) const override { return 1000.0; }
};

// sources on a total-field surface of k nodes
struct Injected {
	int sources, k; double* at; double* side;
	Injected(SourcesManager& sm, FiniteElementSpace* space, int nodes) : k(nodes)
	{
		sources = 1 + vf_choose("sources", 2);
		at = vf_real_array("at", k, -2, 2); side = vf_real_array("side", k, -1, 1);
		sm.sources.v_.push_back(std::make_unique<Other>());
		for (int s = 0; s < sources; s++) sm.sources.v_.push_back(std::make_unique<TotalField>(Wave(s)));
		sm.global_tfsf_fes_.reset(space);
		for (int i = 0; i < k; i++) { Vector p(1); p(0) = at[i]; sm.dof_coords_.push_back(p); sm.tfsf_sign_.push_back(side[i]); }
		for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) sm.cached_tfsf_fields_[f][d].SetSpace(space);
		sm.direct_eval_ready_ = true;
	}
	double field(int c, int i, double t) const { double s = 0.0; for (int w = 0; w < sources; w++) s += wave(w, c, at[i], t) * side[i]; return s; }
};

// one column of the injection operator
struct OneColumn : SparseMatrix {
	const double* column; int at; mutable int calls = 0, size = 0;
	OneColumn(const double* c, int q) : column(c), at(q) {}
	void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { calls++; size = x.Size(); double v = a * x(at); for (int i = 0; i < y.Size(); i++) y(i) += column[i] * v; }
};

//@ scope=two_nodes_of_the_surface_and_up_to_two_sources
VF_HARNESS(C14_global)
{
	Domain0 t;
	int n = vf_size("n", 3, 5), m = vf_size("m", 1, 3); vf_requires(n < 10000000 && m < 10000000);
	double* halo = vf_real_array("halo", 6 * m, -2, 2); double* y = vf_real_array("y", 6 * n, -2, 2); double* column = vf_real_array("column", 6 * n, -2, 2);
	t.resize(n, m, halo);
	int* node = vf_injection("node", 3, 0, n);
	auto* space = new FiniteElementSpace(&t.model->getMesh(), &t.fec); space->ndofs = 2;
	Injected s(*t.sm, space, 2);
	t.evo->tfsfSourceIndices_.push_back(1); if (s.sources == 2) t.evo->tfsfSourceIndices_.push_back(2);
	t.evo->tfsf_sub_to_parent_ids_.Append(node[0]); t.evo->tfsf_sub_to_parent_ids_.Append(node[1]);
	t.evo->globalOperator_.reset(new Kept(y));
	int c = vf_choose("c", 6), k = vf_choose("k", 3);
	auto* op = new OneColumn(column, c * (n + m) + node[k]); t.evo->TFSFOperator_.reset(op);
	double before = vf_real("before", 0, 5), now = vf_real("now", 0, 5);
	Vector in(6 * n), out(6 * n); in = 0.0;
	t.evo->SetTime(before); t.evo->Mult(in, out);
	op->calls = 0;
	t.evo->SetTime(now); t.evo->Mult(in, out);
	int r = vf_int("r", 0, 29); vf_requires(r >= 0 && r < 6 * n);
	double u = k < 2 ? s.field(c, k, now) : 0.0;
	if (op->calls == 0) {
		vf_ensures_eq(out(r), y[r], "nothing is added without injection");
		vf_ensures(u * u < 1e-15, "only a negligible field is left out");
	} else {
		vf_ensures(op->calls == 1 && op->size == 6 * (n + m), "the injection operator is applied once");
		vf_ensures_near(out(r), y[r] - column[r] * u, 1e-12, "the incident field of all sources is subtracted once at the nodes of the surface");
	}
	vf_cover("injected");
}

struct Nothing : ParBilinearForm { Nothing(ParFiniteElementSpace* f) : ParBilinearForm(f) {} void AddMult(const Vector&, Vector&, const double = 1.0) const override {} };

//@ scope=two_elements_of_two_nodes_and_up_to_two_sources
VF_HARNESS(C14_stored)
{
	FiniteElement fe; fe.dof = 2; fe.dim = 1; fe.nodes = IntegrationRule(2);
	Stored t(false); t.line.NumOfElements = 2; t.fec.fe = &fe;
	Mesh& mesh = *t.fes->GetMesh(); mesh.NumOfElements = 2; mesh.elem_type = { Element::SEGMENT, Element::SEGMENT }; mesh.elem_attr = { 1, 1 };
	t.fes->ndofs = 4; t.fes->dofs_per_elem = 2; t.fes->num_face_nbr_dofs = 0;
	int element = vf_choose("element", 2);
	auto* sub = new SubMesh; sub->Dim = sub->spaceDim = 1; sub->parent_ = &mesh; sub->NumOfElements = 1; sub->elem_type = { Element::SEGMENT }; sub->elem_attr = { 1 }; sub->parent_element_ids_.Append(element);
	auto* space = new FiniteElementSpace(sub, &t.fec); space->ndofs = 2; space->dofs_per_elem = 2;
	Injected s(*t.sm, space, 2);
	entries = vf_real_array("entries", 56 * 2, -2, 2); entry_rows = 2; flux_at = vf_choose("q", 2); column_at = 0;
	auto& e = *t.evo;
	for (int f = 0; f < 2; f++) {
		e.MP_[f].reset(new Nothing(t.fes)); new (&e.MP_GTFSF_[f]) std::unique_ptr<BilinearForm>(new Column(t.fes, jump0(f), true));
		for (int d = 0; d < 3; d++) {
			e.MS_[f][d].reset(new Nothing(t.fes));
			for (int g = 0; g < 2; g++) {
				e.MFN_[f][g][d].reset(new Nothing(t.fes)); new (&e.MFN_GTFSF_[f][g][d]) std::unique_ptr<BilinearForm>(new Column(t.fes, jumpN(f, g, d), true));
				for (int h = 0; h < 3; h++) { e.MFNN_[f][g][d][h].reset(new Nothing(t.fes)); new (&e.MFNN_GTFSF_[f][g][d][h]) std::unique_ptr<BilinearForm>(new Column(t.fes, jumpNN(f, g, d, h), true)); }
			}
		}
	}
	double now = vf_real("now", 0, 5); e.SetTime(now);
	ParGridFunction::halo_of = nullptr;
	Vector in(24), out(24); in = 0.0; out = 7.0;
	e.MaxwellEvolution::Mult(in, out);
	int c = vf_choose("c", 6), p = vf_choose("p", 4), f = c / 3, d = c % 3, y = (d + 1) % 3, z = (d + 2) % 3, g = 1 - f; double sign = f == 0 ? 1.0 : -1.0, expect = 0.0;
	if (p / 2 == element) {
		int i = p % 2; double w[6]; for (int k = 0; k < 6; k++) w[k] = s.field(k, flux_at, now);
		expect -= sign * (entry(jumpN(f, g, z), i) * w[3 * g + y] - entry(jumpN(f, g, y), i) * w[3 * g + z]);
		for (int k = 0; k < 3; k++) expect -= entry(jumpNN(f, f, k, d), i) * w[3 * f + k];
		expect += entry(jump0(f), i) * w[3 * f + d];
	}
	vf_ensures_near(out(4 * c + p), expect, 1e-9, "the flux of the incident field of all sources is subtracted once from the unknowns of the surface");
	vf_cover("stored injection");
}

// the nodal evolution of two elements of two nodes joined at both ends, each either straight or curved
//@ scope=two_elements_of_two_nodes
VF_HARNESS(C23_nodal)
{
	Mesh none; none.Dim = none.spaceDim = 1; none.elem_type = { Element::SEGMENT };
	DG_FECollection fec(1, 1); FiniteElement fe; fe.dof = 2; fe.dim = 1; fe.nodes = IntegrationRule(2); fec.fe = &fe;
	Model model(none, GeomTagToMaterialInfo(), GeomTagToBoundaryInfo());
	Mesh& mesh = model.getMesh(); mesh.NumOfElements = 2; mesh.elem_type = { Element::SEGMENT, Element::SEGMENT }; mesh.elem_attr = { 1, 1 };
	ParFiniteElementSpace fes(&model.getMesh(), &fec); fes.ndofs = 4; fes.dofs_per_elem = 2;
	SourcesManager sm(Sources(), fes, *new ParFields(fes)); EvolutionOptions opts; opts.alpha = vf_real("alpha", 0, 1);
	auto* evo = static_cast<HesthavenEvolution*>(operator new(sizeof(HesthavenEvolution)));
	static char marks[sizeof(HesthavenEvolution) / sizeof(void*)];
	void** words = reinterpret_cast<void**>(evo);
	for (unsigned i = 0; i < sizeof(marks); i++) words[i] = marks + i;
	words[reinterpret_cast<char*>(&evo->fes_) - marks] = &fes;
	words[reinterpret_cast<char*>(&evo->model_) - marks] = &model;
	words[reinterpret_cast<char*>(&evo->srcmngr_) - marks] = &sm;
	words[reinterpret_cast<char*>(&evo->opts_) - marks] = &opts;
	new (static_cast<TimeDependentOperator*>(evo)) Clock();
	new (&evo->linearElements_) Array<ElementId>(); new (&evo->curvedElements_) std::map<ElementId, Array<NodeId>>();
	new (&evo->hestElemLinearStorage_) std::vector<HesthavenElement>(); new (&evo->hestElemCurvedStorage_) std::vector<HesthavenCurvedElement>();
	new (&evo->refLIFT_) DynamicMatrix(2, 2); new (&evo->connectivity_.global) GlobalConnectivity(); new (&evo->connectivity_.boundary) BoundaryMaps();
	new (&evo->positions_) std::vector<Source::Position>();
	double* lift = vf_real_array("lift", 4, -2, 2); double* dir = vf_real_array("dir", 24, -2, 2); double* normal = vf_real_array("normal", 12, -1, 1); double* scale = vf_real_array("scale", 4, 1, 2); double* x = vf_real_array("x", 24, -2, 2);
	double* curved = vf_real_array("curved", 48, -2, 2);
	const int partner[4] = { 3, 2, 1, 0 };
	for (int v = 0; v < 4; v++) evo->connectivity_.global.push_back({ v, partner[v] });
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) evo->refLIFT_(i, j) = lift[2 * i + j];
	int order = vf_choose("elements", 4);  // which elements are straight, in which order
	const int straight[4][2] = { { 0, 1 }, { 1, 0 }, { 1, -1 }, { 0, -1 } };
	for (int k = 0; k < 2; k++) {
		int e = straight[order][k]; if (e < 0) continue;
		evo->linearElements_.Append(e);
		HesthavenElement h; h.id = e; h.fscale.resize(2);
		for (int d = 0; d < 3; d++) {
			auto* m = new DynamicMatrix(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) (*m)(i, j) = dir[12 * e + 4 * d + 2 * i + j];
			h.dir[d] = m; h.normals[d].resize(2); for (int i = 0; i < 2; i++) h.normals[d](i) = normal[6 * e + 2 * d + i];
		}
		for (int i = 0; i < 2; i++) h.fscale(i) = scale[2 * e + i];
		evo->hestElemLinearStorage_.push_back(h);
	}
	int bent = order == 2 ? 0 : order == 3 ? 1 : -1;
	if (bent >= 0) {
		HesthavenCurvedElement h; h.id = bent; SparseMatrix m(24, 24);
		for (int c = 0; c < 6; c++) for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) m.Set(4 * c + 2 * bent + i, 4 * ((c + 1) % 6) + j, curved[8 * c + 4 * i + j]);
		m.Finalize(); h.matrix = m; Array<NodeId> dofs(2); dofs[0] = 2 * bent; dofs[1] = 2 * bent + 1; h.dofs = dofs; evo->curvedElements_[bent] = dofs;
		evo->hestElemCurvedStorage_.push_back(h);
	}
	Vector in(24), out(24); for (int i = 0; i < 24; i++) { in(i) = x[i]; out(i) = 7.0; }
	evo->HesthavenEvolution::Mult(in, out);
	int c = vf_choose("c", 6), p = vf_choose("p", 4), e = p / 2, i = p % 2, f = c / 3, d = c % 3, y = (d + 1) % 3, z = (d + 2) % 3, g = 1 - f; double s = f == 0 ? 1.0 : -1.0, expect = 0.0;
	if (e == bent) {
		for (int j = 0; j < 4; j++) expect += curved[8 * c + 4 * i + j] * x[4 * ((c + 1) % 6) + j];
	} else {
		for (int j = 0; j < 2; j++) {
			int own_at = 2 * e + j, other = partner[own_at]; double jump[6], nd = 0.0;
			for (int k = 0; k < 6; k++) jump[k] = x[4 * k + other] - x[4 * k + own_at];
			const double* n = normal + 6 * e + j;
			for (int k = 0; k < 3; k++) nd += n[2 * k] * jump[3 * f + k];
			double flux = s * (n[2 * y] * jump[3 * g + z] - n[2 * z] * jump[3 * g + y]) + opts.alpha * (jump[3 * f + d] - nd * n[2 * d]);
			expect += lift[2 * i + j] * scale[2 * e + j] * flux / 2.0;
			expect += s * (dir[12 * e + 4 * y + 2 * i + j] * x[4 * (3 * g + z) + own_at] - dir[12 * e + 4 * z + 2 * i + j] * x[4 * (3 * g + y) + own_at]);
		}
	}
	vf_ensures_near(out(4 * c + p), expect, 1e-9, "each node changes with the curl of its element and the lifted jumps of its faces");
	vf_ensures(in(4 * c + p) == x[4 * c + p], "the state is not changed");
	vf_cover("nodal");
}
