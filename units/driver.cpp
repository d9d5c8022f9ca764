// C16, C17: driver/driver.cpp
#include "verif.h"
#include "io.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/Spherical.cpp"
#include "components/Sources.cpp"
#include "components/ProblemDescription.cpp"
#include "driver/driver.cpp"

using namespace maxwell;
using namespace mfem;

// a mesh given by the two elements of each face; every face has a boundary element
struct Graph {
	Mesh mesh;
	Graph(int elements) { mesh.Dim = mesh.spaceDim = 2; mesh.NumOfElements = elements; for (int e = 0; e < elements; e++) mesh.elem_attr.push_back(1); }
	void face(int a, int b, int tag) { mesh.face_e1.push_back(a); mesh.face_e2.push_back(b); mesh.bdr_face.push_back(mesh.NumOfFaces++); mesh.bdr_attr.push_back(tag); mesh.NumOfBdrElements++; }
};
static void partition(Graph& g, int P, const int* before, int* part, const Array<int>& tfsf, const Array<int>& sgbc)
{
	int n = g.mesh.NumOfElements;
	Mpi::size = P;
	driver::applyPairwiseConstraintsPartitioning(g.mesh, part, tfsf, sgbc);
	Mpi::size = 1;
	std::vector<char> touched(n, 0);
	for (int f = 0; f < g.mesh.NumOfFaces; f++) {
		int a = g.mesh.face_e1[f], b = g.mesh.face_e2[f];
		bool tagged = tfsf.Find(g.mesh.bdr_attr[f]) >= 0 || sgbc.Find(g.mesh.bdr_attr[f]) >= 0;
		if (!tagged || b < 0) continue;
		vf_ensures(part[a] == part[b], "the elements of a coupled face share a rank");
		touched[a] = touched[b] = 1;
	}
	for (int e = 0; e < n; e++) {
		vf_ensures(part[e] >= 0 && part[e] < P, "every element has a rank");
		if (!touched[e] || P == 1) vf_ensures(part[e] == before[e], "other elements keep their rank");
	}
}

//@ scope=five_elements,_three_coupled_faces_and_up_to_three_ranks
VF_HARNESS(C16_constraints)
{
	Graph g(5);
	int P = 1 + vf_choose("ranks", 3);
	static const int second[5][2] = { { 1, 2 }, { 2, 0 }, { 2, 3 }, { 1, 0 }, { 4, -1 } };
	static const int third[6][2] = { { 0, 2 }, { 3, 1 }, { 3, 4 }, { 4, 2 }, { 1, 3 }, { 0, -1 } };
	int s = vf_choose("second", 5), t = vf_choose("third", 6);
	g.face(0, 1, 7); g.face(second[s][0], second[s][1], 8); g.face(third[t][0], third[t][1], 9); g.face(3, 4, 10);
	int before[6], part[6];
	for (int e = 0; e < 6; e++) { part[e] = before[e] = vf_int("rank", 0, P - 1); vf_requires(before[e] >= 0 && before[e] < P); }
	Array<int> tfsf, sgbc;
	int kind = vf_choose("tags", 4);
	if (kind == 0) { tfsf.Append(7); tfsf.Append(9); sgbc.Append(8); }
	if (kind == 1) { sgbc.Append(9); sgbc.Append(8); sgbc.Append(7); }
	if (kind == 2) { tfsf.Append(8); tfsf.Append(9); }
	partition(g, P, before, part, tfsf, sgbc);
	vf_ensures(part[5] == before[5], "nothing beyond the elements is written");
}

//@ mode=native scope=up_to_14_elements,_18_faces_and_5_ranks
VF_HARNESS(C16_larger)
{
	int n = vf_int("elements", 1, 14), m = vf_int("faces", 0, 18), P = vf_int("ranks", 1, 5);
	Graph g(n);
	for (int f = 0; f < m; f++) {
		int a = vf_int("first", 0, n - 1), b = vf_int("second", -1, n - 1);
		g.face(a, b == a ? -1 : b, vf_int("tag", 1, 6));
	}
	int before[15], part[15];
	for (int e = 0; e < 15; e++) part[e] = before[e] = vf_int("rank", 0, P - 1);
	Array<int> tfsf, sgbc;
	for (int i = 1; i <= 6; i++) { int k = vf_int("use", 0, 3); if (k == 1) tfsf.Append(i); if (k == 2) sgbc.Append(i); }
	partition(g, P, before, part, tfsf, sgbc);
}

// ---- case files
// which of n keys are present: none, all, only one of them or all but one
struct Keys {
	int n, how, one;
	Keys(int n_) : n(n_), how(vf_choose("keys", 2 + 2 * n_)), one(0) { if (how >= 2) { one = (how - 2) / 2; how = 2 + (how - 2) % 2; } }
	bool has(int k) const { return how == 1 || (how == 2 && k == one) || (how == 3 && k != one); }
};
template <class F> static bool rejected(F f)
{
	try { f(); }
	catch (const std::runtime_error&) { return true; }
	return false;
}

VF_HARNESS(C17_solver_options)
{
	Keys k(9);
	double alpha = vf_real("alpha", 0, 1), dt = vf_real("dt", 0, 1), T = vf_real("T", 0, 9), cfl = vf_real("cfl", 0, 1);
	int order = vf_int("order", 0, 9), basis = vf_int("basis", 0, 9), ode = vf_int("ode", 0, 6);
	vf_requires(ode >= 0);
	bool spectral = vf_choose("spectral", 2), exported = vf_choose("exported", 2);
	json c; c["model"] = json::object();
	if (k.how) {
		json o = json::object();
		if (k.has(0)) o["upwind_alpha"] = alpha;
		if (k.has(1)) o["time_step"] = dt;
		if (k.has(2)) o["final_time"] = T;
		if (k.has(3)) o["cfl"] = cfl;
		if (k.has(4)) o["order"] = order;
		if (k.has(5)) o["spectral"] = spectral;
		if (k.has(6)) o["export_operator"] = exported;
		if (k.has(7)) o["basis_type"] = basis;
		if (k.has(8)) o["ode_type"] = ode;
		c["solver_options"] = o;
	}
	SolverOptions r = driver::buildSolverOptions(c);
	vf_ensures(r.evolution.alpha == (k.has(0) ? alpha : 1.0), "upwind_alpha is used and defaults to one");
	vf_ensures(r.time_step == (k.has(1) ? dt : 0.0), "time_step is used and defaults to zero");
	vf_ensures(r.final_time == (k.has(2) ? T : 2.0), "final_time is used and defaults to two");
	vf_ensures(r.cfl == (k.has(3) ? cfl : 1.0), "cfl is used and defaults to one");
	vf_ensures(r.evolution.order == (k.has(4) ? order : 2), "order is used and defaults to two");
	vf_ensures(r.evolution.spectral == (k.has(5) ? spectral : false), "spectral is used and defaults to false");
	vf_ensures(r.evolution.export_evolution_operator == (k.has(6) ? exported : false), "export_operator is used and defaults to false");
	vf_ensures(r.basis_type == (k.has(7) ? basis : int(BasisType::GaussLobatto)), "basis_type is used and defaults to Gauss-Lobatto");
	vf_ensures(r.ode_type == (k.has(8) ? size_t(ode) : size_t(ode_type::RK4)), "ode_type is used and defaults to RK4");
	vf_ensures(r.evolution.op == EvolutionOperatorType::Global, "the evolution operator defaults to the global one");
	vf_ensures(!r.is_sgbc_solver && !r.evolution.is_sgbc_solver, "a case is not a thin-layer subsolver");
}

VF_HARNESS(C17_words)
{
	static const char* ops[5] = { "maxwell", "global", "hesthaven", "Global", "" };
	static const EvolutionOperatorType op[3] = { EvolutionOperatorType::Maxwell, EvolutionOperatorType::Global, EvolutionOperatorType::Hesthaven };
	int i = vf_choose("operator", 5);
	json c; c["solver_options"]["evolution_operator"] = ops[i];
	if (i < 3) vf_ensures(driver::buildSolverOptions(c).evolution.op == op[i], "the operator named is used");
	else vf_ensures(rejected([&] { driver::buildSolverOptions(c); }), "an unknown operator is rejected");

	static const char* fields[4] = { "electric", "magnetic", "E", "" };
	static const char* pols[5] = { "X", "Y", "Z", "x", "" };
	int f = vf_choose("field", 4), d = vf_choose("direction", 5);
	double x = vf_real("x", -1, 1);
	json p; p["probes"]["field"] = json::array({ json{ { "field_type", fields[f] }, { "polarization", pols[d] }, { "position", json::array({ x }) } } });
	if (f < 2 && d < 3) {
		Probes r = driver::buildProbes(p);
		vf_ensures(r.fieldProbes.size() == 1 && r.fieldProbes[0].getFieldType() == (f ? H : E) && r.fieldProbes[0].getDirection() == d, "a field probe records the field and component named");
		vf_ensures(r.fieldProbes[0].getPoint().size() == 1 && r.fieldProbes[0].getPoint()[0] == x && r.fieldProbes[0].getVisSteps() == 1, "a field probe is at its position and records every step by default");
	}
	else vf_ensures(rejected([&] { driver::buildProbes(p); }), "an unknown field or component is rejected");
}

// a square of two triangles with a tagged diagonal and two tagged sides
struct Square {
	Mesh mesh;
	Square()
	{
		mesh.Dim = mesh.spaceDim = 2; mesh.nvpe = 3; mesh.nvpf = mesh.nvpb = 2; mesh.NumOfVertices = 4; mesh.NumOfElements = 2; mesh.NumOfFaces = 5; mesh.NumOfBdrElements = 3;
		mesh.elem_attr = { 1, 2 }; mesh.elem_type = { Element::TRIANGLE, Element::TRIANGLE }; mesh.elem_verts = { 0, 1, 2, 0, 2, 3 };
		mesh.face_e1 = { 0, 0, 0, 1, 1 }; mesh.face_e2 = { -1, -1, 1, -1, -1 }; mesh.face_verts = { 0, 1, 1, 2, 2, 0, 2, 3, 3, 0 };
		mesh.elem_face_I = { 0, 3, 6 }; mesh.elem_face_J = { 0, 1, 2, 2, 3, 4 };
		mesh.bdr_attr = { 5, 6, 7 }; mesh.bdr_face = { 0, 2, 3 }; mesh.bdr_verts = { 0, 1, 2, 0, 2, 3 }; mesh.bdr_type = { Element::SEGMENT, Element::SEGMENT, Element::SEGMENT };
		mesh.attributes.Append(1); mesh.attributes.Append(2);
		for (int a = 5; a < 8; a++) mesh.bdr_attributes.Append(a);
		for (int v = 0; v < 4; v++) for (int d = 0; d < 3; d++) mesh.vert.push_back(0.0);
	}
};

VF_HARNESS(C17_materials)
{
	double value[2][3];
	json c; c["model"]["boundaries"] = json::array();
	int present = vf_choose("present", 8);
	static const char* keys[3] = { "relative_permittivity", "relative_permeability", "bulk_conductivity" };
	for (int m = 0; m < 2; m++) {
		json o; o["tags"] = json::array({ m + 1 });
		for (int k = 0; k < 3; k++) {
			double v = vf_real(keys[k], 1, 5); vf_requires(v >= 1);
			bool has = ((present >> k) + m) % 2;
			value[m][k] = has ? v : k < 2 ? 1.0 : 0.0;
			if (has) o[keys[k]] = v;
		}
		c["model"]["materials"].push_back(o);
	}
	json b; b["tags"] = json::array({ 6 }); b["type"] = "SGBC";
	double wall[3]; b["material"] = json::object();
	for (int k = 0; k < 3; k++) {
		double v = vf_real("wall", 1, 9); vf_requires(v >= 1);
		bool has = (present >> k) % 2; wall[k] = has ? v : k < 2 ? 1.0 : 0.0;
		if (has) b["material"][keys[k]] = v;
	}
	c["model"]["boundaries"].push_back(b);
	Square s;
	auto r = driver::assembleAttributeToMaterial(c, s.mesh);
	vf_ensures(r.gt2m.size() == 2 && r.gt2m.count(1) == 1 && r.gt2m.count(2) == 1, "every tag of a material gets one");
	for (int m = 0; m < 2; m++) {
		Material& q = r.gt2m.at(m + 1);
		vf_ensures(q.getPermittivity() == value[m][0], "relative permittivity is used and defaults to one");
		vf_ensures(q.getPermeability() == value[m][1], "relative permeability is used and defaults to one");
		vf_ensures(q.getConductivity() == value[m][2] * physicalConstants::freeSpaceImpedance_SI, "conductivity is scaled by the free-space impedance and defaults to zero");
	}
	vf_ensures(r.gt2bm.size() == 1 && r.gt2bm.count(6) == 1, "a boundary with a material gets one");
	Material& q = r.gt2bm.at(6);
	vf_ensures(q.getPermittivity() == wall[0] && q.getPermeability() == wall[1] && q.getConductivity() == wall[2] * physicalConstants::freeSpaceImpedance_SI, "the material of a boundary has the same units and defaults");
	c["model"]["materials"][1]["tags"] = json::array({ 3 });
	vf_ensures(rejected([&] { driver::assembleAttributeToMaterial(c, s.mesh); }), "a tag that the mesh lacks is rejected");
}

VF_HARNESS(C17_boundaries)
{
	static const char* words[5] = { "PEC", "PMC", "SMA", "SGBC", "pec" };
	static const BdrCond cond[4] = { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA, BdrCond::SGBC };
	int a = vf_choose("first", 5), b = vf_choose("second", 4);
	json c; c["model"]["boundaries"] = json::array({ json{ { "tags", json::array({ 5, 7 }) }, { "type", words[a] } }, json{ { "tags", json::array({ 6 }) }, { "type", words[b] } } });
	Square s;
	if (a == 4) { vf_ensures(rejected([&] { driver::assembleAttributeToBoundary(c, s.mesh); }), "an unknown condition is rejected"); return; }
	auto r = driver::assembleAttributeToBoundary(c, s.mesh);
	vf_ensures(r.gt2b.size() == 2 && r.gt2b.count(5) == 1 && r.gt2b.count(7) == 1 && r.gt2b.at(5) == cond[a] && r.gt2b.at(7) == cond[a], "sides of the domain get the condition of their tag");
	vf_ensures(r.gt2ib.size() == 1 && r.gt2ib.count(6) == 1 && r.gt2ib.at(6) == cond[b], "interior faces get the condition of their tag as interior conditions");
	const char* gone = vf_choose("gone", 2) ? "tags" : "type";
	c["model"]["boundaries"][0].erase(gone);
	vf_ensures(rejected([&] { driver::assembleAttributeToBoundary(c, s.mesh); }), "a boundary without tags or type is rejected");
}

VF_HARNESS(C17_vectors)
{
	int n = vf_choose("components", 5);
	double x[4]; json v = json::array();
	for (int i = 0; i < n; i++) { x[i] = vf_real("x", -5, 5); v.push_back(x[i]); }
	if (n > 3) { vf_ensures(rejected([&] { driver::assemble3DVector(v); }), "a vector of more than three components is rejected"); return; }
	Vector r = driver::assemble3DVector(v);
	vf_ensures(r.Size() == 3, "a vector has three components");
	for (int i = 0; i < 3; i++) vf_ensures(r[i] == (i < n ? x[i] : 0.0), "missing components are zero");
}

// the probes of a case, one of each kind: how they ask for their schedule is the same for all
VF_HARNESS(C17_probes)
{
	double T = vf_real("T", 1, 5), dt = vf_real("dt", 0, 0.5), x = vf_real("x", -1, 1), y = vf_real("y", -1, 1);
	vf_requires(T > 0 && T < 1000 && dt >= 0 && (dt == 0 || dt > 0.01));
	int how = vf_choose("schedule", 4), steps = vf_int("steps", 1, 50), saves = vf_int("saves", 1, 20);
	vf_requires(steps >= 1 && saves >= 1);
	int timed = vf_choose("timed", 3);
	bool named = vf_choose("named", 2);
	json c; c["model"]["filename"] = "case.msh";
	if (timed) { c["solver_options"]["final_time"] = T; if (timed == 2) c["solver_options"]["time_step"] = dt; }
	json q = json::object();
	if (how == 1) q["steps"] = steps;
	if (how == 2) q["saves"] = saves;
	if (how == 3) q["saves"] = 0;
	if (named) q["name"] = "probe";
	json& p = c["probes"];
	p["exporter"] = q; p["domain_snapshot"] = q;
	json at = q; at["position"] = json::array({ x, y });
	p["point"] = json::array({ at, at });
	at["field_type"] = "magnetic"; at["polarization"] = "Y";
	p["field"] = json::array({ at, at });
	json on = q; on["tags"] = json::array({ 4, 9 });
	p["farfield"] = json::array({ on }); p["rcssurface"] = json::array({ on });
	double t0 = vf_real("start", 0, 1), t1 = vf_real("end", 1, 2);
	json st = json::object(); if (named) { st["name"] = "probe"; st["record_time_start"] = t0; st["record_time_final"] = t1; st["saves"] = saves; }
	p["mor_state"] = json::array({ st });
	Probes r = driver::buildProbes(c);
	int every = 1;
	if (how == 1) every = steps;
	if (how == 2 && timed == 2 && dt > 0) { every = int(std::ceil(T / dt)) / saves; if (every < 1) every = 1; }
	int kept = how == 2 ? saves : 0;
	vf_ensures(r.exporterProbes.size() == 1 && r.pointProbes.size() == 2 && r.fieldProbes.size() == 2 && r.nearFieldProbes.size() == 1 && r.domainSnapshotProbes.size() == 1 && r.rcsSurfaceProbes.size() == 1 && r.morStateProbes.size() == 1, "every probe of the case is kept");
	vf_ensures(r.exporterProbes[0].visSteps == every && r.exporterProbes[0].saves == kept, "the exporter follows its schedule");
	vf_ensures(r.domainSnapshotProbes[0].expSteps == every && r.domainSnapshotProbes[0].saves == kept, "the snapshot follows its schedule");
	vf_ensures(r.nearFieldProbes[0].expSteps == every && r.nearFieldProbes[0].saves == kept, "the far-field probe follows its schedule");
	vf_ensures(r.rcsSurfaceProbes[0].expSteps == every && r.rcsSurfaceProbes[0].saves == kept, "the surface probe follows its schedule");
	for (int i = 0; i < 2; i++) {
		auto &a = r.pointProbes[i]; auto &b = r.fieldProbes[i];
		vf_ensures(a.getVisSteps() == every && a.getSaves() == kept && int(a.getProbeID()) == i, "a point probe follows its schedule");
		vf_ensures(b.getVisSteps() == every && b.getSaves() == kept && int(b.getProbeID()) == i, "a field probe follows its schedule");
		vf_ensures(a.getPoint().size() == 2 && a.getPoint()[0] == x && a.getPoint()[1] == y && b.getPoint().size() == 2 && b.getPoint()[0] == x && b.getPoint()[1] == y, "probes are at their position");
		vf_ensures(b.getFieldType() == H && b.getDirection() == Y, "a field probe records what it names");
	}
	for (auto* tags : { &r.nearFieldProbes[0].tags, &r.rcsSurfaceProbes[0].tags }) vf_ensures(tags->size() == 2 && (*tags)[0] == 4 && (*tags)[1] == 9, "surface probes keep their tags");
	auto& m = r.morStateProbes[0];
	vf_ensures(m.record_time_start == (named ? t0 : 0.0) && m.record_time_final == (named ? t1 : 0.0) && m.saves == (named ? saves : 10), "the state probe keeps its window and saves");
	if (named) vf_ensures(r.exporterProbes[0].name == "probe" && r.nearFieldProbes[0].name == "probe" && r.rcsSurfaceProbes[0].name == "probe" && r.domainSnapshotProbes[0].name == "probe" && m.name == "probe", "probes keep their name");
	c["probes"][vf_choose("surface", 2) ? "farfield" : "rcssurface"][0].erase("tags");
	vf_ensures(rejected([&] { driver::buildProbes(c); }), "a surface probe without tags is rejected");
}

static double other_rank = 0.0;
static void reduce(const void* s, void* r, int, MPI_Datatype, MPI_Op o)
{
	double a = *static_cast<const double*>(s), b = other_rank;
	*static_cast<double*>(r) = o == MPI_MIN ? (b < a ? b : a) : o == MPI_MAX ? (a < b ? b : a) : a + b;
}

// what a source gives at any point and time, for any field and component
static void same(const Source& a, const Source& b, const char* label, int dim = 3)
{
	Position x(dim);
	for (int d = 0; d < dim; d++) x[d] = vf_real("point", -2, 2);
	double t = vf_real("t", 0, 2);
	FieldType f = vf_choose("askH", 2) ? H : E; int d = vf_choose("component", 3);
	vf_ensures_near(a.eval(x, t, f, d), b.eval(x, t, f, d), 1e-9, label);
}
static json list(const double* v, int n) { json r = json::array(); for (int i = 0; i < n; i++) r.push_back(v[i]); return r; }

VF_HARNESS(C17_plane_wave)
{
	Square s; double v[8];
	for (int i = 0; i < 4; i++) for (int d = 0; d < 2; d++) { v[2 * i + d] = s.mesh.vert[3 * i + d] = vf_real("vertex", -3, 3); vf_requires(v[2 * i + d] < 1e9 && v[2 * i + d] > -1e9); }
	double spread = vf_real("spread", 0.1, 2), hz = vf_real("frequency", 1e7, 1e9), mean[3], p[3], k[3];
	vf_requires(spread > 0);
	for (int d = 0; d < 3; d++) { mean[d] = vf_real("mean", -5, 5); p[d] = vf_real("p", 0.1, 2); k[d] = vf_real("k", 0.2, 2); }
	vf_requires(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] > 0.01 && k[0] * k[0] + k[1] * k[1] + k[2] * k[2] > 0.01);
	bool modulated = vf_choose("modulated", 2);
	int given = vf_choose("mean", 5);
	json q; q["type"] = "planewave"; q["magnitude"]["spread"] = spread; q["polarization"] = list(p, 3); q["propagation"] = list(k, 3);
	if (modulated) q["magnitude"]["frequency"] = hz;
	if (given < 4) q["magnitude"]["mean"] = list(mean, given);
	q["tags"] = json::array({ 7, 5 });
	json c; c["sources"] = json::array({ q });
	other_rank = vf_real("other", -3, 3); vf_requires(other_rank < 1e9 && other_rank > -1e9);
	vf_mpi_reduce = reduce;
	Sources r = driver::buildSources(c, &s.mesh);
	vf_mpi_reduce = nullptr;
	double norm = std::sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]), at = 0.0;
	if (given < 4) { for (int d = 0; d < given; d++) at += mean[d] * k[d] / norm; }
	else {
		double a = ((v[0] + v[2]) * k[0] + (v[1] + v[3]) * k[1]) / norm / 2.0, b = ((v[4] + v[6]) * k[0] + (v[5] + v[7]) * k[1]) / norm / 2.0;
		int nearest = vf_choose("nearest", 3); double first = nearest == 0 ? a : nearest == 1 ? b : other_rank;
		vf_requires(first <= a && first <= b && first <= other_rank && a < 1e10 && b < 1e10);
		at = first - 5.0 * spread * std::sqrt(2.0);
	}
	Vector pol(3), dir(3), centre(1); for (int d = 0; d < 3; d++) { pol[d] = p[d]; dir[d] = k[d]; }
	centre[0] = at;
	vf_ensures(r.size() == 1, "every source is kept");
	if (modulated) same(**r.begin(), TotalField(Planewave(ModulatedGaussian(spread, centre, hz / physicalConstants::speedOfLight_SI), pol, dir, E)), "a modulated pulse has its mean along the direction and its frequency in units of the speed of light");
	else same(**r.begin(), TotalField(Planewave(Gaussian(spread, centre), pol, dir, E)), "a pulse has its mean along the direction, or starts five widths before the surface");
}

VF_HARNESS(C17_dipole)
{
	Square s; double v[8];
	for (int i = 0; i < 4; i++) for (int d = 0; d < 2; d++) { v[2 * i + d] = s.mesh.vert[3 * i + d] = vf_real("vertex", -3, 3); vf_requires(v[2 * i + d] < 1e9 && v[2 * i + d] > -1e9); }
	double spread = vf_real("spread", 0.1, 2), length = vf_real("length", 0.1, 2), mean = vf_real("mean", -5, 5);
	vf_requires(spread > 0);
	int given = vf_choose("mean", 3);
	json q; q["type"] = "dipole"; q["magnitude"]["spread"] = spread; q["magnitude"]["length"] = length;
	if (given == 0) q["magnitude"]["mean"] = mean;
	q["tags"] = json::array({ 6 });
	json c; c["sources"] = json::array({ q });
	other_rank = vf_real("other", 0.1, 3); vf_requires(other_rank > 0 && other_rank < 1e9);
	vf_mpi_reduce = reduce;
	Sources r = driver::buildSources(c, given == 2 ? nullptr : &s.mesh);
	vf_mpi_reduce = nullptr;
	double x = (v[4] + v[0]) / 2.0, y = (v[5] + v[1]) / 2.0, far = std::sqrt(x * x + y * y);
	double at = 5.0 * spread * std::sqrt(2.0);
	if (given == 0) at = mean;
	if (given == 1) {
		// which surface is nearer and whether the least delay applies, case by case
		bool here = vf_choose("here", 2), least = vf_choose("least", 2);
		vf_requires(here == (far < other_rank));
		at -= here ? far : other_rank;
		vf_requires(least == (at < spread * std::sqrt(2.0)));
		if (least) at = spread * std::sqrt(2.0);
	}
	vf_ensures(r.size() == 1, "every source is kept");
	same(**r.begin(), TotalField(DerivGaussDipole(length, spread, at)), "a dipole has its length, spread and mean; without one the pulse starts five widths before the surface but at least one after the start");
}

VF_HARNESS(C17_initial_fields)
{
	double p[3], centre[3], spread = vf_real("spread", 0.1, 2);
	vf_requires(spread > 0);
	for (int d = 0; d < 3; d++) { p[d] = vf_real("p", 0.1, 2); centre[d] = vf_real("centre", -1, 1); }
	double length = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
	vf_requires(length > 0.1);
	for (int d = 0; d < 3; d++) p[d] /= length;
	bool magnetic = vf_choose("magnetic", 2);
	int kind = vf_choose("kind", 4), dim = 1 + vf_choose("dimension", 3);
	static const char* kinds[4] = { "gaussian", "resonant", "besselj6_2D", "besselj6_3D" };
	json q; q["type"] = "initial"; q["field_type"] = magnetic ? "magnetic" : "electric"; q["polarization"] = list(p, 3); q["magnitude"]["type"] = kinds[kind];
	std::vector<size_t> modes;
	if (kind == 0) { q["magnitude"]["spread"] = spread; q["center"] = list(centre, 3); q["dimension"] = dim; }
	if (kind == 1) { json m = json::array(); for (int d = 0; d < dim; d++) { m.push_back(d + 2); modes.push_back(d + 2); } q["magnitude"]["modes"] = m; }
	json c; c["sources"] = json::array({ q });
	Sources r = driver::buildSources(c);
	vf_ensures(r.size() == 1, "every source is kept");
	FieldType ft = magnetic ? H : E;
	Vector pol(3), at(3), zero(dim), origin(3); at = 0.0; zero = 0.0; origin = 0.0;
	for (int d = 0; d < 3; d++) pol[d] = p[d];
	if (kind == 0) { for (int d = 0; d < 3; d++) at[d] = centre[d]; same(**r.begin(), InitialField(Gaussian(spread, zero, dim), ft, pol, at), "a Gaussian initial field has its spread, centre, dimension, field and polarisation"); }
	if (kind == 1) same(**r.begin(), InitialField(SinusoidalMode(modes), ft, pol, at), "a resonant initial field has its modes, field and polarisation", dim);
	if (kind == 2) same(**r.begin(), InitialField(BesselJ6(), ft, pol, at), "a 2D Bessel initial field is one", 2);
	if (kind == 3) same(**r.begin(), InitialField(SphericalBesselJ6(), ft, pol, at), "a 3D Bessel initial field is one");
}

// the thin layers and the names of a model, read by the function that builds it
//@ scope=two_triangles_and_up_to_two_layers
VF_HARNESS(C17_layers)
{
	Square s; Mesh::on_disk = &s.mesh;
	Mpi::rank = 1; // the first rank only adds printed notices
	static const char* sides[4] = { "PEC", "PMC", "SMA", "none" };
	static const BdrCond cond[3] = { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
	int present = vf_choose("present", 4), left = vf_choose("left", 4), where = vf_choose("where", 3), right = (left + 1) % 4;
	bool single = where == 2;
	double eps[2], mu[2], sigma[2], width[2]; int segments[2], order[2];
	json layers = json::array();
	for (int i = 0; i < 2; i++) {
		eps[i] = vf_real("eps", 1, 5); mu[i] = vf_real("mu", 1, 3); sigma[i] = vf_real("sigma", 1, 1000); width[i] = vf_real("width", 0.001, 0.01);
		vf_requires(eps[i] >= 1 && mu[i] >= 1 && sigma[i] > 0 && sigma[i] < 1e6 && width[i] > 0 && width[i] < 1 && eps[i] < 1000 && mu[i] < 1000);
		segments[i] = vf_int("segments", 1, 20); order[i] = vf_int("order", 1, 5); vf_requires(segments[i] > 0 && order[i] > 0);
		json l;
		if (present % 2) l["relative_permittivity"] = eps[i]; else eps[i] = 1.0;
		if (present / 2) l["relative_permeability"] = mu[i]; else mu[i] = 1.0;
		l["bulk_conductivity"] = sigma[i]; l["material_width"] = width[i]; l["num_of_segments"] = segments[i]; l["order"] = order[i];
		layers.push_back(l);
	}
	json ends = json::object();
	if (left < 3) ends["left"] = sides[left];
	if (right < 3) ends["right"] = sides[right];
	json b; b["tags"] = json::array({ 6 }); b["type"] = "SGBC";
	if (single) { b["material"] = layers[0]; b["material"]["sgbc_boundaries"] = ends; }
	else { b["layers"] = layers; if (where == 0) b["sgbc_boundaries"] = ends; }
	json c; c["model"]["filename"] = "plate.mesh"; c["model"]["materials"] = json::array({ json{ { "tags", json::array({ 1, 2 }) } } });
	c["model"]["boundaries"] = json::array({ json{ { "tags", json::array({ 5, 7 }) }, { "type", "PEC" } }, b });
	c["sources"] = json::array();
	Model m = driver::buildModel(c, "", true);
	vf_ensures(m.meshName_ == "plate", "a model is named after its mesh");
	auto& props = m.getSGBCProperties();
	vf_ensures(props.size() == 1 && props[0].geom_tags.size() == 1 && props[0].geom_tags[0] == 6, "a thin layer keeps its tags");
	vf_ensures(props[0].layers.size() == (single ? 1 : 2), "every layer is kept");
	for (int i = 0; i < int(props[0].layers.size()); i++) {
		auto l = props[0].layers[i];
		vf_ensures(l.material.getPermittivity() == eps[i] && l.material.getPermeability() == mu[i], "a layer has its material, with the defaults of vacuum");
		vf_ensures(l.material.getConductivity() == sigma[i] * physicalConstants::freeSpaceImpedance_SI, "the conductivity of a layer is scaled by the free-space impedance");
		vf_ensures(l.width == width[i] && int(l.num_of_segments) == segments[i] && int(l.order) == order[i], "a layer has its width, segments and order");
	}
	auto& e = props[0].sgbc_bdr_info;
	bool told = where != 1;
	vf_ensures(e.first.isOn == (told && left < 3) && e.second.isOn == (told && right < 3), "the ends of a layer have a condition when the case gives one");
	if (told && left < 3) vf_ensures(e.first.bdrCond == cond[left], "the outer end has its condition");
	if (told && right < 3) vf_ensures(e.second.bdrCond == cond[right], "the inner end has its condition");
	Mesh::on_disk = nullptr; Mpi::rank = 0;
}

VF_HARNESS(C17_layer_rejected)
{
	Square s; Mesh::on_disk = &s.mesh;
	double sigma = vf_real("sigma", 1, 1000), width = vf_real("width", 0.001, 0.01);
	vf_requires(sigma > 0 && sigma < 1e6 && width > 0 && width < 1);
	int bad = vf_choose("bad", 6);
	json l; l["num_of_segments"] = 4; l["order"] = 2;
	if (bad != 0) l["bulk_conductivity"] = sigma;
	if (bad != 1) l["material_width"] = width;
	json b; b["tags"] = json::array({ 6 }); b["type"] = "SGBC";
	if (bad != 2) b["layers"] = json::array({ l });
	if (bad == 3) b["sgbc_boundaries"]["left"] = "SGBC";
	json c; c["model"]["filename"] = bad == 4 ? "plate.vtk" : "plate.mesh"; c["model"]["materials"] = json::array({ json{ { "tags", json::array({ 1, 2 }) } } });
	c["model"]["boundaries"] = json::array({ json{ { "tags", json::array({ 5, 7 }) }, { "type", "PEC" } }, b });
	c["sources"] = json::array();
	bool r = rejected([&] { driver::buildModel(c, "", true); });
	Mesh::on_disk = nullptr;
	vf_ensures(r == (bad < 5), "a layer without conductivity, width or layers, a wrong end and an unknown mesh format are rejected, and nothing else is");
}
