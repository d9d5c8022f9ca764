// C19: solver/SolverExtension.cpp, solver/SolverExtension.h
#include "verif.h"
#include "io.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "components/Sources.cpp"
#include "components/ProblemDescription.cpp"
#include "mfemExtension/IntegratorFunctions.cpp"
#include "mfemExtension/BilinearIntegrators.cpp"
#include "mfemExtension/LinearIntegrators.cpp"
#include "components/FarField.cpp"
#include "components/RCSSurfaceExporter.cpp"
#include "solver/ProbesManager.cpp"
#include "solver/SourcesManager.cpp"
#include "solver/Solver.cpp"
#include "solver/SolverExtension.cpp"
#include "evolution/MaxwellEvolutionMethods.cpp"
#include "evolution/MaxwellEvolution.cpp"
#include "evolution/GlobalEvolution.cpp"
#include "evolution/HesthavenEvolutionMethods.cpp"
#include "evolution/HesthavenEvolution.cpp"

using namespace maxwell;
using namespace mfem;

// the frame of a face: orthonormal, right-handed, first axis along the normal
static void frame(int dim)
{
	double n[3]; Vector normal(dim); double len2 = 0.0;
	const char* names[3] = { "nx", "ny", "nz" };
	for (int d = 0; d < 3; d++) { n[d] = d < dim ? vf_real(names[d], -2, 2) : 0.0; if (d < dim) normal(d) = n[d]; len2 += n[d] * n[d]; }
	vf_requires(len2 > 1e-6);
	double R[9];
	buildFaceRotationMatrix(normal, dim, R);
	double len = std::sqrt(len2);
	if (dim > 1) for (int d = 0; d < 3; d++) vf_ensures_near(R[d] * len, n[d], 1e-9, "the first axis is along the normal");
	int i = vf_choose("i", 3), j = vf_choose("j", 3);
	vf_ensures_near(R[3 * i] * R[3 * j] + R[3 * i + 1] * R[3 * j + 1] + R[3 * i + 2] * R[3 * j + 2], i == j ? 1.0 : 0.0, 1e-9, "the axes are orthonormal");
	vf_ensures_near(R[i] * R[j] + R[3 + i] * R[3 + j] + R[6 + i] * R[6 + j], i == j ? 1.0 : 0.0, 1e-9, "going to the frame and back changes nothing");
	int k = vf_choose("k", 3), a = (k + 1) % 3, b = (k + 2) % 3;
	vf_ensures_near(R[3 + a] * R[6 + b] - R[3 + b] * R[6 + a], R[k], 1e-9, "the frame is right-handed");
	vf_cover("frame");
}
VF_HARNESS(C19_frame_line) { frame(1); }
VF_HARNESS(C19_frame_plane) { frame(2); }
VF_HARNESS(C19_frame_space) { frame(3); }

// a layer solver with any number of unknowns per component and ghost elements on both ends
struct Layer {
	ParMesh mesh; DG_FECollection fec; ParFiniteElementSpace fes; SGBCProperties props; SGBCWrapper* w; maxwell::Solver* s; SGBCState state;
	int n, ghosts, order, edge; double* all; double* R;
	Layer() : fec(1, 1), fes(&mesh, &fec)
	{
		n = vf_size("n", 13, 16); ghosts = vf_int("ghosts", 1, 2); order = 1 + vf_choose("order", 2); edge = ghosts * (order + 1);
		vf_requires(n < 100000000 && ghosts >= 1 && 2 * edge + 1 < n);
		fes.ndofs = n;
		props.layers.emplace_back(Material(1.0, 1.0, 0.0), 1.0); props.layers[0].order = order;
		s = static_cast<maxwell::Solver*>(operator new(sizeof(maxwell::Solver)));
		new (&s->fields_) maxwell::Solver::ParFields(fes);
		w = static_cast<SGBCWrapper*>(operator new(sizeof(SGBCWrapper)));
		void** words = reinterpret_cast<void**>(w);
		for (unsigned i = 0; i < sizeof(SGBCWrapper) / sizeof(void*); i++) words[i] = &props;
		new (&w->solver_) std::unique_ptr<maxwell::Solver>(s);
		w->n_ghost_elements_ = ghosts;
		all = vf_real_array("all", 6 * n, -2, 2);
		for (int i = 0; i < 6 * n; i++) s->fields_.allDOFs()(i) = all[i];
		state.init(6 * n);
		R = vf_real_array("R", 9, -1, 1);
		for (int i = 0; i < 9; i++) state.rot[i] = R[i];
		state.global_pair = { -1, -1 };
	}
	double now(int i) { return s->fields_.allDOFs()(i); }
};

VF_HARNESS(C19_load_state)
{
	Layer l;
	double* saved = vf_real_array("saved", 6 * l.n, -2, 2);
	for (int i = 0; i < 6 * l.n; i++) l.state.fields_state(i) = saved[i];
	l.w->loadState(l.state);
	int p = vf_int("p", 0, 77); vf_requires(p >= 0 && p < 6 * l.n);
	vf_ensures(l.now(p) == saved[p], "the layer takes every value of the saved state");
	vf_ensures(l.state.fields_state(p) == saved[p], "the saved state is not changed");
	vf_ensures(l.w->getStateSize() == 6 * l.n && l.state.fields_state.Size() == 6 * l.n, "sizes are kept");
	vf_cover("load");
}

VF_HARNESS(C19_save_state)
{
	Layer l;
	l.w->saveState(l.state);
	int p = vf_int("p", 0, 77); vf_requires(p >= 0 && p < 6 * l.n);
	vf_ensures(l.state.fields_state(p) == l.all[p], "every value of the layer is saved");
	vf_ensures(l.now(p) == l.all[p], "the layer is not changed");
	l.s->fields_.allDOFs()(p) = 7.0;
	l.w->loadState(l.state);
	vf_ensures(l.now(p) == l.all[p], "loading what was saved restores the layer");
	vf_cover("save");
}

// what an update leaves in the layer: the ghost values at both ends, everything else as it was
template <class Left, class Right> static void ghosts(Layer& l, bool right, Left left, Right other)
{
	int f = vf_choose("f", 2), d = vf_choose("d", 3), c = 3 * f + d;
	int k = vf_int("k", 0, 12); vf_requires(k >= 0 && k < l.n);
	double got = l.now(c * l.n + k);
	if (k < l.edge) { vf_ensures_near(got, left(f, d), 1e-9, "the ghost values on the left"); vf_cover("left"); }
	else if (k >= l.n - l.edge && right) { vf_ensures_near(got, other(f, d), 1e-9, "the ghost values on the right"); vf_cover("right"); }
	else { vf_ensures(got == l.all[c * l.n + k], "the layer itself is not changed"); vf_cover("inside"); }
}

VF_HARNESS(C19_interpolated_ghosts)
{
	Layer l;
	bool right = vf_bool("right");
	double* was = vf_real_array("was", 12, -2, 2); double* will = vf_real_array("will", 12, -2, 2); double a = vf_real("alpha", 0, 1);
	for (int i = 0; i < 12; i++) { l.state.ghost_old[i] = was[i]; l.state.ghost_new[i] = will[i]; }
	l.state.global_pair = { 3, right ? 5 : -1 };
	l.w->updateFieldsWithInterpolatedGhost(a, l.state);
	ghosts(l, right, [&](int f, int d) { return (1 - a) * was[3 * f + d] + a * will[3 * f + d]; }, [&](int f, int d) { return (1 - a) * was[6 + 3 * f + d] + a * will[6 + 3 * f + d]; });
}

// values of the mesh at the two nodes of a face
struct FaceNodes {
	int m, left, right; double* in;
	FaceNodes(Layer& l)
	{
		m = vf_size("m", 2, 4); left = vf_int("left", 0, 3); right = vf_choose("sides", 2) == 0 ? -1 : vf_int("right", 0, 3);
		vf_requires(m < 100000000 && left >= 0 && left < m && right < m && right != left && (right == -1 || right >= 0));
		in = vf_real_array("in", 6 * m, -2, 2);
		l.state.global_pair = { left, right };
	}
	double turned(const Layer& l, int node, int f, int d) const { double s = 0.0; for (int e = 0; e < 3; e++) s += l.R[3 * d + e] * in[(3 * f + e) * m + node]; return s; }
};

VF_HARNESS(C19_ghosts_of_vector)
{
	Layer l; FaceNodes g(l);
	Vector in(6 * g.m); for (int i = 0; i < 6 * g.m; i++) in(i) = g.in[i];
	l.w->updateFieldsWithGlobalVector(in, g.m, l.state);
	ghosts(l, g.right >= 0, [&](int f, int d) { return g.turned(l, g.left, f, d); }, [&](int f, int d) { return g.turned(l, g.right, f, d); });
}

VF_HARNESS(C19_ghosts_of_fields)
{
	Layer l; FaceNodes g(l);
	ParMesh mesh; ParFiniteElementSpace fes(&mesh, &l.fec); fes.ndofs = g.m;
	Fields<ParFiniteElementSpace, ParGridFunction> fields(fes);
	for (int i = 0; i < 6 * g.m; i++) fields.allDOFs()(i) = g.in[i];
	l.w->updateFieldsWithGlobal(fields, l.state);
	ghosts(l, g.right >= 0, [&](int f, int d) { return g.turned(l, g.left, f, d); }, [&](int f, int d) { return g.turned(l, g.right, f, d); });
}

static double back(const Layer& l, const double* saved, int k, int f, int d) { double s = 0.0; for (int e = 0; e < 3; e++) s += l.R[3 * e + d] * saved[(3 * f + e) * l.n + k]; return s; }

VF_HARNESS(C19_layer_to_vector)
{
	Layer l; FaceNodes g(l);
	double* saved = vf_real_array("saved", 6 * l.n, -2, 2);
	for (int i = 0; i < 6 * l.n; i++) l.state.fields_state(i) = saved[i];
	Vector out(6 * g.m); for (int i = 0; i < 6 * g.m; i++) out(i) = g.in[i];
	l.w->fillGlobalSGBCVec(l.state, out, g.m);
	int f = vf_choose("f", 2), d = vf_choose("d", 3), k = vf_int("k", 0, 3); vf_requires(k >= 0 && k < g.m);
	double got = out((3 * f + d) * g.m + k);
	if (k == g.left) { vf_ensures_near(got, back(l, saved, l.edge, f, d), 1e-9, "the left node gets the first value of the layer in the frame of the mesh"); vf_cover("left"); }
	else if (k == g.right) { vf_ensures_near(got, back(l, saved, l.n - 1 - l.edge, f, d), 1e-9, "the right node gets the last value of the layer in the frame of the mesh"); vf_cover("right"); }
	else { vf_ensures(got == g.in[(3 * f + d) * g.m + k], "other nodes are not changed"); vf_cover("other"); }
}

//@ scope=four_nodes_of_the_surface
VF_HARNESS(C19_layer_to_fields)
{
	Layer l;
	double* saved = vf_real_array("saved", 6 * l.n, -2, 2); double* in = vf_real_array("in", 24, -2, 2);
	for (int i = 0; i < 6 * l.n; i++) l.state.fields_state(i) = saved[i];
	Array<int> nodes(4); const int ids[4] = { 9, 4, 7, 0 }; for (int i = 0; i < 4; i++) nodes[i] = ids[i];
	int a = vf_choose("left", 5), b = vf_choose("right", 6); vf_requires(a != b);  // 4: a node that is not in the list; 5: no node
	l.state.global_pair = { a < 4 ? ids[a] : 12, b < 4 ? ids[b] : b == 4 ? 13 : -1 };
	SGBCHelperFields out;
	for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) { out[f][d].SetSize(4); for (int k = 0; k < 4; k++) out[f][d](k) = in[(3 * f + d) * 4 + k]; }
	l.w->getSGBCFields(nodes, l.state, out);
	int f = vf_choose("f", 2), d = vf_choose("d", 3), k = vf_choose("k", 4);
	double got = out[f][d](k);
	if (k == a) vf_ensures_near(got, back(l, saved, l.edge, f, d), 1e-9, "the left node gets the first value of the layer in the frame of the mesh");
	else if (k == b && a < 4) vf_ensures_near(got, back(l, saved, l.n - 1 - l.edge, f, d), 1e-9, "the right node gets the last value of the layer in the frame of the mesh");
	else vf_ensures(got == in[(3 * f + d) * 4 + k], "other nodes are not changed");
	vf_cover("fields");
}

// the values the layer returns at a node are those it was given when nothing happens inside it
VF_HARNESS(C19_round_trip)
{
	Layer l; FaceNodes g(l);
	// every rotation is that of some quaternion
	double q = vf_real("q", -1, 1), x = vf_real("x", -1, 1), y = vf_real("y", -1, 1), z = vf_real("z", -1, 1), s = q * q + x * x + y * y + z * z;
	vf_requires(s > 0.01);
	double turn[9] = { q * q + x * x - y * y - z * z, 2 * (x * y - q * z), 2 * (x * z + q * y), 2 * (x * y + q * z), q * q - x * x + y * y - z * z, 2 * (y * z - q * x), 2 * (x * z - q * y), 2 * (y * z + q * x), q * q - x * x - y * y + z * z };
	for (int i = 0; i < 9; i++) l.state.rot[i] = turn[i] / s;
	Vector in(6 * g.m); for (int i = 0; i < 6 * g.m; i++) in(i) = g.in[i];
	l.w->updateFieldsWithGlobalVector(in, g.m, l.state);
	l.w->saveState(l.state);
	for (int c = 0; c < 6; c++) {
		l.state.fields_state(c * l.n + l.edge) = l.state.fields_state(c * l.n + l.edge - 1);
		l.state.fields_state(c * l.n + l.n - 1 - l.edge) = l.state.fields_state(c * l.n + l.n - l.edge);
	}
	Vector out(6 * g.m); out = 0.0;
	l.w->fillGlobalSGBCVec(l.state, out, g.m);
	int f = vf_choose("f", 2), d = vf_choose("d", 3);
	vf_ensures_near(out((3 * f + d) * g.m + g.left), g.in[(3 * f + d) * g.m + g.left], 1e-9, "the left node gets its own values back");
	if (g.right >= 0) vf_ensures_near(out((3 * f + d) * g.m + g.right), g.in[(3 * f + d) * g.m + g.right], 1e-9, "the right node gets its own values back");
	vf_cover("round trip");
}

// the grid of a layer: ghosts, then each layer with its own width and number of segments, then ghosts
struct Stack {
	SGBCProperties p; int layers, n = 0; int of[8]; double width[2]; double total = 0.0;
	Stack()
	{
		layers = 1 + vf_choose("layers", 2);
		const char* names[2] = { "width1", "width2" };
		for (int i = 0; i < layers; i++) {
			width[i] = vf_real(names[i], 0.1, 2); vf_requires(width[i] > 0);
			p.layers.emplace_back(Material(2.0 + i, 1.0, 0.5 * i), width[i]);
			p.layers[i].num_of_segments = 1 + vf_choose(i ? "segments2" : "segments1", 3);
			for (int k = 0; k < int(p.layers[i].num_of_segments); k++) of[n++] = i;
			total += width[i];
		}
	}
	double step(int k) const { return width[of[k]] / p.layers[of[k]].num_of_segments; }
};
//@ scope=up_to_two_layers_of_three_segments
VF_HARNESS(C19_grid)
{
	Stack s; int g = 1 + vf_choose("ghosts", 3);
	auto m = buildSGBCMesh(s.p, g);
	int ne = s.n + 2 * g;
	vf_ensures(m.GetNE() == ne && int(m.vert.size()) == 3 * (ne + 1), "the grid has the segments of the layers and the ghosts");
	int e = vf_choose("e", 12); vf_requires(e < ne);
	vf_ensures(m.elem_verts[2 * e] == e && m.elem_verts[2 * e + 1] == e + 1, "segments follow each other");
	double length = m.vert[3 * (e + 1)] - m.vert[3 * e];
	bool inside = e >= g && e < g + s.n;
	vf_ensures_near(length, inside ? s.step(e - g) : s.total / s.n, 1e-12, "every segment has its length");
	vf_ensures(m.elem_attr[e] == (inside ? s.of[e - g] + 1 : s.layers + 1), "every segment has the material of its layer, ghosts are vacuum");
	vf_ensures_near(m.vert[3 * (g + s.n)] - m.vert[3 * g], s.total, 1e-12, "the layers have their total width");
	int tags[4] = { 0, ne, g, g + s.n }, b = vf_choose("b", 4);
	vf_ensures(m.GetNBE() == 4 && m.bdr_verts[b] == tags[b] && m.bdr_attr[b] == b + 1, "the ends and the interfaces of the layer are marked in order");
	vf_cover("grid");
}

//@ scope=up_to_two_layers_of_three_segments
VF_HARNESS(C19_materials)
{
	Stack s;
	auto m = buildSGBCMesh(s.p, 2); m.SetAttributes();
	m.NumOfFaces = m.NumOfVertices; for (int i = 0; i < m.NumOfBdrElements; i++) m.bdr_face.push_back(m.bdr_verts[i]);
	SGBCBoundaries b; b.first.isOn = vf_choose("left", 2) == 1; b.second.isOn = vf_choose("right", 2) == 1;
	b.first.bdrCond = vf_choose("leftpec", 2) == 1 ? BdrCond::PEC : BdrCond::PMC; b.second.bdrCond = vf_choose("rightpec", 2) == 1 ? BdrCond::PEC : BdrCond::SMA;
	auto model = buildSGBCModel(m, nullptr, s.p, b);
	auto& mats = model.getGeomTagToMaterial();
	vf_ensures(int(mats.size()) == s.layers + 1, "there is one material for each layer and one for the ghosts");
	int i = vf_choose("i", 2); vf_requires(i < s.layers);
	auto& x = mats.at(i + 1); auto& y = s.p.layers[i].material;
	vf_ensures(x.getPermittivity() == y.getPermittivity() && x.getPermeability() == y.getPermeability() && x.getConductivity() == y.getConductivity(), "every layer has its material");
	auto& v = mats.at(s.layers + 1);
	vf_ensures(v.getPermittivity() == 1.0 && v.getPermeability() == 1.0 && v.getConductivity() == 0.0, "the ghosts are vacuum");
	auto& inner = model.getGeomTagToIntBoundaryCond();
	vf_ensures(int(inner.count(3)) == (b.first.isOn ? 1 : 0) && int(inner.count(4)) == (b.second.isOn ? 1 : 0), "an interface has a condition when it is switched on");
	if (b.first.isOn) vf_ensures(inner.at(3) == b.first.bdrCond, "the left interface has its condition");
	if (b.second.isOn) vf_ensures(inner.at(4) == b.second.bdrCond, "the right interface has its condition");
	vf_cover("materials");
}

// --- a domain with two faces joined by thin layers, and the solver inside a layer seen as what it is asked to do
struct Inner : ODESolver {
	int calls = 0; double at[8], by[8]; double* seen[8]; const double* drive; int size;
	Inner(const double* d, int s) : drive(d), size(s) {}
	void Step(Vector& x, double& t, double& dt) override
	{
		if (calls == 8) throw std::runtime_error("more steps than expected");
		at[calls] = t; by[calls] = dt; seen[calls] = new double[size];
		for (int i = 0; i < size; i++) { seen[calls][i] = x(i); x(i) = drive[calls * size + i]; }
		calls++; t += dt;
	}
};
struct Kept : SparseMatrix {
	const double* answer;
	Kept(const double* a) : answer(a) {}
	void Mult(const Vector&, Vector& y) const override { for (int i = 0; i < y.Size(); i++) y(i) = answer[i]; }
};
static const double steps[5][2] = { { 0.5, 0.0 }, { 0.5, 0.75 }, { 0.5, 0.375 }, { 0.5, 0.1875 }, { 0.5, 0.5 } };  // the step of the domain, the longest of a layer
static const int parts[5] = { 1, 1, 2, 3, 1 };
struct Coupled {
	enum { n = 7, edge = 2, nodes = 5, layer = 6 * n, all = 6 * nodes };
	Mesh none; Model* model; DG_FECollection fec; ParFiniteElementSpace* fes; EvolutionOptions opts; SourcesManager* sm; maxwell::Solver::ParFields* fields; GlobalEvolution* evo;
	ParMesh line; DG_FECollection lfec; ParFiniteElementSpace lfes; SGBCProperties props; maxwell::Solver* s; SGBCWrapper* w; Inner* inner; TimeDependentOperator* inside;
	double *R[2], *state[2], *drive; NodePair pair[2]; int faces, pace; double t0;
	Coupled(bool outer, int kinds) : fec(0, 1), lfec(1, 1), lfes(&line, &lfec)
	{
		none.Dim = none.spaceDim = 1; none.elem_type = { Element::SEGMENT };
		model = new Model(none, GeomTagToMaterialInfo(), GeomTagToBoundaryInfo());
		fes = new ParFiniteElementSpace(&model->getMesh(), &fec);
		fields = new maxwell::Solver::ParFields(*fes);
		sm = new SourcesManager(Sources(), *fes, *fields);
		evo = new GlobalEvolution(*fes, *model, *sm, opts);
		fes->ndofs = nodes; fes->num_face_nbr_dofs = 0;
		fields = new maxwell::Solver::ParFields(*fes);
		for (int d = 0; d < 3; d++) { evo->eOld_[d].SetSpace(fes); evo->hOld_[d].SetSpace(fes); }
		lfes.ndofs = n;
		props.layers.emplace_back(Material(1.0, 1.0, 0.0), 1.0); props.layers[0].order = 1;
		pace = vf_choose("pace", kinds); t0 = vf_real("t0", 0, 3); vf_requires(t0 >= 0 && t0 < 1e6);
		drive = vf_real_array("drive", 8 * layer, -2, 2);
		s = static_cast<maxwell::Solver*>(operator new(sizeof(maxwell::Solver)));
		new (&s->opts_) SolverOptions();
		new (&s->fields_) maxwell::Solver::ParFields(lfes);
		new (&s->probesManager_) ProbesManager(Probes(), lfes, s->fields_, s->opts_);
		inner = new Inner(drive, layer);
		new (&s->odeSolver_) std::unique_ptr<ODESolver>(inner);
		inside = new TimeDependentOperator;
		new (&s->evolTDO_) std::unique_ptr<TimeDependentOperator>(inside);
		s->globalEvol_cache_ = nullptr;
		w = static_cast<SGBCWrapper*>(operator new(sizeof(SGBCWrapper)));
		void** words = reinterpret_cast<void**>(w);
		for (unsigned i = 0; i < sizeof(SGBCWrapper) / sizeof(void*); i++) words[i] = &props;
		new (&w->solver_) std::unique_ptr<maxwell::Solver>(s);
		w->n_ghost_elements_ = 1; w->recommended_dt_ = steps[pace][1]; w->old_t_ = 0.0;
		evo->sgbcWrappers_.emplace_back(w);
		faces = outer ? 2 : 1;
		const char* rn[2] = { "R1", "R2" }; const char* sn[2] = { "state1", "state2" };
		pair[0] = { 1, 2 }; pair[1] = { 4, -1 };
		auto& states = evo->sgbc_states_[7]; states.resize(faces); evo->sgbc_wrapper_map_[7] = w;
		for (int i = 0; i < faces; i++) {
			R[i] = vf_real_array(rn[i], 9, -1, 1); state[i] = vf_real_array(sn[i], layer, -2, 2); state[i][0] = 1.0;  // not at rest
			states[i].init(layer); states[i].global_pair = pair[i]; states[i].element_pair = { 0, i ? -1 : 1 };
			for (int k = 0; k < 9; k++) states[i].rot[k] = R[i][k];
			for (int k = 0; k < layer; k++) states[i].fields_state(k) = state[i][k];
		}
	}
	double turned(const double* of, int i, int node, int f, int d) const { double r = 0.0; for (int e = 0; e < 3; e++) r += R[i][3 * d + e] * of[(3 * f + e) * nodes + node]; return r; }
	// what the layer of face i is asked to do: k steps over dt, with the given ghost values
	template <class Ghost> void asked(int i, double dt, int k, Ghost ghost)
	{
		int f = vf_choose("f", 2), d = vf_choose("d", 3), c = 3 * f + d;
		for (int step = 0; step < k; step++) {
			int q = i * k + step;
			vf_ensures_near(inner->by[q], dt / k, 1e-9, "the steps of a layer have the same length");
			vf_ensures_near(inner->at[q], t0 + step * (dt / k), 1e-9, "a step of a layer starts where the one before ended");
			for (int p = 0; p < n; p++) {
				double got = inner->seen[q][c * n + p];
				if (p < edge) vf_ensures_near(got, ghost(step, 0, f, d), 1e-9, "the layer sees the fields of its outer side");
				else if (p >= n - edge && pair[i].second >= 0) vf_ensures_near(got, ghost(step, 1, f, d), 1e-9, "the layer sees the fields of its inner side");
				else vf_ensures(got == (step ? drive[(q - 1) * layer + c * n + p] : state[i][c * n + p]), "a layer goes on from its state at the start of the step, then from its last step");
			}
		}
		for (int p = 0; p < n; p++) vf_ensures(evo->sgbc_states_[7][i].fields_state(c * n + p) == drive[(i * k + k - 1) * layer + c * n + p], "the state of a layer is the one after its last step");
		vf_cover("asked");
	}
};

//@ scope=two_faces_with_three_elements_in_the_layer
VF_HARNESS(C19_step_of_layers)
{
	Coupled c(true, 5);
	double dt = steps[c.pace][0]; int k = parts[c.pace];
	double* was = vf_real_array("was", Coupled::all, -2, 2); double* will = vf_real_array("will", Coupled::all, -2, 2); double* stage = vf_real_array("stage", 2 * Coupled::layer, -2, 2);
	auto& v = c.fields->allDOFs();
	bool again = c.pace % 2 == 1;
	if (again) c.evo->commitSGBCCheckpoint(0.0, 0.25, *c.fields);  // of an earlier step
	for (int i = 0; i < Coupled::all; i++) v(i) = was[i];
	c.evo->commitSGBCCheckpoint(c.t0, dt, *c.fields);
	for (int i = 0; i < 2; i++) for (int j = 0; j < Coupled::layer; j++) c.evo->sgbc_states_[7][i].fields_state(j) = stage[i * Coupled::layer + j];  // what the stages of the step leave
	for (int i = 0; i < Coupled::all; i++) v(i) = will[i];
	c.evo->finalizeSGBCStep(*c.fields);
	vf_ensures(c.inner->calls == 2 * k, "every layer is advanced by the steps its own limit asks for");
	int i = vf_choose("i", 2);
	c.asked(i, dt, k, [&](int step, int side, int f, int d) {
		double a = double(step + 1) / k; int node = side ? c.pair[i].second : c.pair[i].first;
		return (1 - a) * c.turned(was, i, node, f, d) + a * c.turned(will, i, node, f, d);
	});
	vf_ensures(c.w->getOldTime() == c.t0 + dt, "the time of a layer is that of the end of the step");
}

// inside a step, each stage advances the layers from the start of the step to the stage with the fields of the stage
//@ scope=two_faces_with_three_elements_in_the_layer
VF_HARNESS(C19_stage_of_layers)
{
	Coupled c(true, 4);  // a limit equal to the time to the stage is left to rounding
	double dt = steps[c.pace][0]; int k = parts[c.pace];
	double* was = vf_real_array("was", Coupled::all, -2, 2); double* x = vf_real_array("x", Coupled::all, -2, 2); double* y = vf_real_array("y", Coupled::all, -2, 2); double* stage = vf_real_array("stage", 2 * Coupled::layer, -2, 2);
	for (int i = 0; i < Coupled::all; i++) c.fields->allDOFs()(i) = was[i];
	c.evo->commitSGBCCheckpoint(c.t0, 2.0, *c.fields);
	for (int i = 0; i < 2; i++) for (int j = 0; j < Coupled::layer; j++) c.evo->sgbc_states_[7][i].fields_state(j) = stage[i * Coupled::layer + j];  // what an earlier stage left
	c.evo->globalOperator_.reset(new Kept(y));
	c.evo->SGBCOperator_.reset(new SparseMatrix(Coupled::all, Coupled::all)); c.evo->SGBCOperator_->Finalize();
	c.evo->SetTime(c.t0 + dt);
	Vector in(Coupled::all), out(Coupled::all); for (int i = 0; i < Coupled::all; i++) in(i) = x[i];
	c.evo->Mult(in, out);
	vf_ensures(c.inner->calls == 2 * k, "every layer is advanced by the steps its own limit asks for");
	int i = vf_choose("i", 2);
	c.asked(i, dt, k, [&](int, int side, int f, int d) { return c.turned(x, i, side ? c.pair[i].second : c.pair[i].first, f, d); });
	int r = vf_choose("r", 3) * 14; vf_requires(r < Coupled::all);
	vf_ensures(out(r) == y[r], "a layer adds nothing where its operator is zero");
}

// the flux of a layer: each side of the face sees its own fields and, across the face, those of the layer or of the condition at that end
//@ scope=one_face_between_two_elements_of_two_nodes
VF_HARNESS(C19_flux)
{
	Coupled c(false, 1);
	enum { nodes = Coupled::nodes, n = Coupled::n, all = Coupled::all };
	int ends[2] = { vf_choose("left", 4), vf_choose("right", 4) };  // PEC, PMC, SMA, open
	static const BdrCond cond[4] = { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA, BdrCond::SGBC };
	c.props.sgbc_bdr_info.first.isOn = ends[0] < 3; c.props.sgbc_bdr_info.second.isOn = ends[1] < 3;
	c.props.sgbc_bdr_info.first.bdrCond = cond[ends[0] < 3 ? ends[0] : 0]; c.props.sgbc_bdr_info.second.bdrCond = cond[ends[1] < 3 ? ends[1] : 0];
	double* x = vf_real_array("x", all, -2, 2); double* y = vf_real_array("y", all, -2, 2); double* a = vf_real_array("a", all * 18, -2, 2);
	c.evo->commitSGBCCheckpoint(c.t0, 2.0, *c.fields);
	c.evo->globalOperator_.reset(new Kept(y));
	int* I = new int[all + 1]; int* J = new int[all * 18]; double* A = new double[all * 18];
	for (int r = 0; r <= all; r++) I[r] = 18 * r;
	for (int r = 0; r < all; r++) for (int j = 0; j < 18; j++) { J[18 * r + j] = (j / 3) * nodes + (j % 3 == 2 ? 3 : 1 + j % 3); A[18 * r + j] = a[18 * r + j]; }
	c.evo->SGBCOperator_.reset(new SparseMatrix(I, J, A, all, all));
	c.evo->sgbc_elem1_dofs_ = { 0, 1 }; c.evo->sgbc_elem2_dofs_ = { 2, 3 };
	c.evo->SetTime(c.t0);  // the first stage: the layer is as it was
	Vector in(all), out(all); for (int i = 0; i < all; i++) in(i) = x[i];
	c.evo->Mult(in, out);
	vf_ensures(c.inner->calls == 0, "a layer is not advanced at the start of a step");
	int comp = vf_choose("comp", 6);
	for (int node = 0; node < nodes; node++) {
		int r = comp * nodes + node; double flux = 0.0;
		if (node < 4) {
			int side = node < 2 ? 0 : 1, own = side ? 2 : 1, across = side ? 1 : 2, at = side ? n - 1 - Coupled::edge : Coupled::edge;
			for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) {
				double mine = x[(3 * f + d) * nodes + own], other;
				if (ends[side] == 3) { other = 0.0; for (int e = 0; e < 3; e++) other += c.R[0][3 * e + d] * c.state[0][(3 * f + e) * n + at]; }
				else other = ends[side] == 0 && f == 0 || ends[side] == 1 && f == 1 ? -mine : mine;
				flux += a[18 * r + 3 * (3 * f + d) + own - 1] * mine + a[18 * r + 3 * (3 * f + d) + across - 1] * other;
			}
		}
		vf_ensures_near(out(r), y[r] + flux, 1e-8, "each element gets the flux of its own side of the layer, and no other element any");
	}
	c.evo->SetTime(c.t0);
	Vector twice(all); c.evo->Mult(in, twice);
	vf_ensures(twice(comp * nodes + 1) == out(comp * nodes + 1) && twice(comp * nodes + 2) == out(comp * nodes + 2), "a second evaluation gives the same");
	vf_cover("flux");
}
