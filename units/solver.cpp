// C06, C07, C20: solver/Solver.cpp, solver/ProbesManager.cpp
#include "verif.h"
#include "io.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "components/Sources.cpp"
#include "components/ProblemDescription.cpp"
#include "components/RCSSurfaceExporter.cpp"
#include "solver/ProbesManager.cpp"
#include "solver/SourcesManager.cpp"
#include "solver/Solver.cpp"
#include "solver/SolverExtension.cpp"
#include "evolution/MaxwellEvolutionMethods.cpp"
#include "evolution/MaxwellEvolution.cpp"
#include "evolution/GlobalEvolution.cpp"
#include "evolution/HesthavenEvolutionMethods.cpp"
#include "evolution/HesthavenEvolution.cpp"

using namespace maxwell;
using namespace mfem;

// a Solver whose members are placed one by one, so that each contract starts from an arbitrary state
// that satisfies the data invariant of the class rather than from what its constructor computes
struct Recorder : ODESolver {
	int calls = 0; double dt = 0.0; Vector* x = nullptr; double* t = nullptr; int cycle = 0; const int* now = nullptr;
	void Step(Vector& x_, double& t_, double& dt_) override
	{
#ifndef VF_SYMBOLIC
		if (calls > 100000) { vf_ensures(false, "the run ends"); throw std::runtime_error("endless"); }
#endif
		calls++; dt = dt_; x = &x_; t = &t_; if (now) cycle = *now; t_ += dt_;
	}
};
struct Bench {
	ParMesh mesh; DG_FECollection fec; ParFiniteElementSpace fes;
	void* room; maxwell::Solver& s; Recorder* ode;
	static int unknowns(ParFiniteElementSpace& f, int n) { f.ndofs = n; return n; }
	Bench(int n, const SolverOptions& opts, const Probes& probes) : fec(1, 1), fes(&mesh, &fec), room(operator new(sizeof(maxwell::Solver))), s(*static_cast<maxwell::Solver*>(room))
	{
		fes.ndofs = n;
		new (&s.opts_) SolverOptions(opts);
		new (&s.fes_) std::unique_ptr<ParFiniteElementSpace>();
		new (&s.fields_) maxwell::Solver::ParFields(fes);
		new (&s.probesManager_) ProbesManager(probes, fes, s.fields_, s.opts_);
		ode = new Recorder;
		new (&s.odeSolver_) std::unique_ptr<ODESolver>(ode);
		new (&s.evolTDO_) std::unique_ptr<TimeDependentOperator>();
		s.globalEvol_cache_ = nullptr;
		ode->now = &s.probesManager_.cycle_;
	}
};

VF_HARNESS(C06_step)
{
	double dt = vf_real("dt", 0.01, 1), T = vf_real("T", 0, 2), t0 = vf_real("t0", 0, 2);
	vf_requires(dt > 0 && t0 >= 0 && t0 <= T);
	SolverOptions opts; opts.final_time = T; opts.time_step = vf_real("configured", 0, 1);
	int n = vf_size("n", 1, 3);
	vf_requires(n < 100000000);
	Bench b(n, opts, Probes());
	b.s.time_ = t0; b.s.dt_ = dt;
	int c0 = b.s.probesManager_.cycle_ = vf_int("cycle", 0, 100);
	b.s.step();
	double used = dt < T - t0 ? dt : T - t0;
	vf_ensures(b.ode->calls == 1, "one step of the integrator");
	vf_ensures(b.ode->x == &b.s.fields_.allDOFs(), "the state of the solver is advanced");
	vf_ensures(b.ode->t == &b.s.time_, "the time of the solver is advanced");
	vf_ensures_near(b.ode->dt, used, 1e-12, "the step is the configured one, shortened to the final time");
	vf_ensures_near(b.s.time_, t0 + used, 1e-12, "the time advances by the step");
	vf_ensures(b.s.time_ <= T + 1e-12, "the time does not pass the final time");
	vf_ensures(b.s.dt_ == dt, "the configured step stays");
	vf_ensures(b.ode->cycle == c0, "the probes see the state after the step");
	vf_ensures(b.s.probesManager_.cycle_ == c0 + 1, "the probes are updated once");
	if (t0 + dt <= T) vf_cover("whole step"); else vf_cover("shortened step");
}

VF_HARNESS(C06_run)
{
	double dt = vf_real("dt", 0.01, 1), T = vf_real("T", 0, 2);
	vf_requires(dt > 0 && T >= 0);
	if (vf_bool("long")) vf_requires(T >= dt); // at least one step
	SolverOptions opts; opts.final_time = T; opts.is_sgbc_solver = true;
	int n = vf_size("n", 1, 3);
	vf_requires(n < 100000000);
	Bench b(n, opts, Probes());
	b.s.time_ = 0.0; b.s.dt_ = dt;
	vf_invariant([](void* p) { auto& s = *static_cast<maxwell::Solver*>(p); return s.time_ >= 0 && s.time_ <= s.opts_.final_time; }, &b.s, "the time stays between zero and the final time");
	vf_invariant([](void* p) { auto& s = *static_cast<Bench*>(p); return s.ode->calls >= 0 && s.s.probesManager_.cycle_ == s.ode->calls; }, &b, "the probes are updated after every step");
	vf_invariant([](void* p) { auto& s = *static_cast<Bench*>(p); return s.ode->calls * s.s.dt_ >= s.s.time_; }, &b, "no step is longer than the configured one");
	vf_invariant([](void* p) { auto& s = *static_cast<Bench*>(p); return s.s.time_ == s.s.opts_.final_time || s.ode->calls * s.s.dt_ == s.s.time_; }, &b, "every step before the final time is a whole one");
	vf_invariant([](void* p) { auto& s = *static_cast<Bench*>(p); return s.ode->calls == 0 || (s.ode->calls - 1) * s.s.dt_ < s.s.opts_.final_time; }, &b, "no step is taken beyond the final time");
	b.s.run();
	vf_ensures((b.ode->calls - 1) * dt <= T + 1e-9, "no more steps than the final time over the step, rounded up");
	vf_ensures(b.ode->calls * dt >= T - 2e-8 * dt - 1e-9, "no fewer steps than needed");
	vf_ensures(b.s.time_ <= T + 1e-12, "the run does not pass the final time");
	vf_ensures(b.s.time_ > T - 1e-8 * dt - 1e-12, "the run reaches the final time");
	vf_ensures(b.s.dt_ == dt && b.s.opts_.final_time == T, "the configured step and final time stay");
	vf_cover("run");
}

VF_HARNESS(C06_options)
{
	SolverOptions opts;
	opts.evolution.order = vf_int("order", -2, 3); opts.final_time = vf_real("T", -2, 2); opts.cfl = vf_real("cfl", -1, 1);
	if (vf_bool("zero")) opts.cfl = 0.0;
	void* room = operator new(sizeof(maxwell::Solver));
	bool refused = false;
	try { static_cast<const maxwell::Solver*>(room)->checkOptionsAreValid(opts); } catch (const std::runtime_error&) { refused = true; }
	bool bad = opts.evolution.order < 0 || opts.final_time < 0 || opts.cfl <= 0;
	vf_ensures(refused == bad, "exactly the options without meaning are refused");
	if (bad) vf_cover("bad options"); else vf_cover("good options");
}

// ---------------------------------------------------------------- probes
static double hat(const FiniteElement*, const IntegrationPoint* p, int k) { return vf_ufi2("shape", k, 0) + vf_ufi2("slope", k, 0) * p->x; }
static int holder;  // the element that holds the point looked for
struct Domain {
	ParMesh mesh; DG_FECollection fec; FiniteElement fe; ParFiniteElementSpace fes; std::unique_ptr<maxwell::Solver::ParFields> fields;
	Domain() : fec(1, 1)
	{
		mesh.Dim = mesh.spaceDim = 1; mesh.NumOfElements = 2; mesh.elem_attr = {1, 1}; mesh.elem_type = {1, 1};
		mesh.find_point = [](const double* x, int* e, double* r) { *e = holder; r[0] = x[0]; return 1; };
		fe.shape = hat; fe.dof = 2; fec.fe = &fe;
		fes = ParFiniteElementSpace(&mesh, &fec);
		fields = std::make_unique<maxwell::Solver::ParFields>(fes);
		double* v = vf_real_array("field", 24, -2, 2);
		for (int i = 0; i < 24; i++) fields->allDOFs()(i) = v[i];
	}
	double value(int f, int d, int e, double x) const
	{
		double s = 0.0;
		for (int k = 0; k < 2; k++) s += fields->allDOFs()[(3 * f + d) * 4 + 2 * e + k] * (vf_ufi2("shape", k, 0) + vf_ufi2("slope", k, 0) * x);
		return s;
	}
};

static const int KINDS = 6;
struct Chosen { int saves, before; };
static void choose(Chosen& c) { c.saves = vf_int("saves", -1, 5); c.before = vf_int("before", 1, 20); }

//@ scope=two_probes_of_every_kind
VF_HARNESS(C07_intervals)
{
	Domain dom;
	double T = vf_real("T", 0, 3), dt = vf_real("dt", -0.1, 1);
	vf_requires(T >= 0 && T < 1000000000.0 * (dt > 0 ? dt : 1.0));
	SolverOptions opts; opts.final_time = T;
	ProbesManager pm(Probes(), dom.fes, *dom.fields, opts);
	// one arbitrary probe among others that keep their intervals
	Chosen c[2][KINDS];
	int wi = vf_choose("position", 2), wk = vf_choose("kind", KINDS);
	for (int i = 0; i < 2; i++) {
		for (int k = 0; k < KINDS; k++) { c[i][k].saves = 0; c[i][k].before = 3 + k + 10 * i; if (i == wi && k == wk) choose(c[i][k]); }
		ExporterProbe e; e.saves = c[i][0].saves; e.visSteps = c[i][0].before; pm.probes.exporterProbes.push_back(e);
		NearFieldProbe n; n.saves = c[i][1].saves; n.expSteps = c[i][1].before; pm.probes.nearFieldProbes.push_back(n);
		RCSSurfaceProbe r; r.saves = c[i][2].saves; r.expSteps = c[i][2].before; pm.probes.rcsSurfaceProbes.push_back(r);
		DomainSnapshotProbe d; d.saves = c[i][3].saves; d.expSteps = c[i][3].before; pm.probes.domainSnapshotProbes.push_back(d);
		FieldProbe f(E, X, {0.5}, c[i][4].before); f.setSaves(c[i][4].saves); pm.probes.fieldProbes.push_back(f);
		PointProbe p({0.5}, c[i][5].before); p.setSaves(c[i][5].saves); pm.probes.pointProbes.push_back(p);
	}
	pm.recalculateExportSteps(dt);
	for (int i = 0; i < 2; i++) {
	int got[KINDS] = {pm.probes.exporterProbes[i].visSteps, pm.probes.nearFieldProbes[i].expSteps, pm.probes.rcsSurfaceProbes[i].expSteps,
		pm.probes.domainSnapshotProbes[i].expSteps, pm.probes.fieldProbes[i].getVisSteps(), pm.probes.pointProbes[i].getVisSteps()};
	for (int k = 0; k < KINDS; k++) {
		int want = c[i][k].before;
		if (dt > 0 && c[i][k].saves > 0) {
			int total = int(std::ceil(T / dt));
			want = total / c[i][k].saves < 1 ? 1 : total / c[i][k].saves;
			vf_ensures(got[k] >= 1, "the interval is at least one step");
		}
		vf_ensures(got[k] == want, "the interval follows from the number of saves");
	}
	}
	vf_ensures(pm.cycle_ == 0 && pm.finalTime_ == T, "nothing else changes");
	vf_cover("intervals");
}

struct Moment { int cycle, steps; double time, T; bool due; };
static Moment moment()
{
	Moment m;
	m.cycle = vf_int("cycle", 0, 12); m.steps = vf_int("steps", 1, 4); m.T = vf_real("T", 0, 1); m.time = vf_real("time", 0, 1);
	vf_requires(m.cycle >= 0 && m.steps >= 1 && m.T >= 0);
	if (vf_bool("last")) m.time = m.T;
	vf_requires(m.time >= 0 && m.time <= m.T);
	m.due = m.time - m.T > -1e-8 || m.cycle % m.steps == 0;
	return m;
}

VF_HARNESS(C07_field_probe)
{
	vfio::start();
	Domain dom; Moment m = moment();
	SolverOptions opts; opts.final_time = m.T;
	FieldType f = vf_choose("f", 2) == 0 ? E : H; Direction d = Direction(vf_choose("d", 3));
	double x = vf_real("x", 0, 1); int e = holder = vf_int("element", 0, 1);
	vf_requires(e >= 0 && e < 2);
	Probes probes; probes.fieldProbes.push_back(FieldProbe(f, d, {x}, m.steps, true)); probes.fieldProbes[0].setProbeID(3);
	ProbesManager pm(probes, dom.fes, *dom.fields, opts);
	pm.cycle_ = m.cycle;
	pm.updateProbe(pm.probes.fieldProbes[0], m.time);
	const FieldMovie& movie = pm.getFieldProbe(0).getFieldMovie();
	if (m.due) {
		vf_ensures(movie.size() == 1, "a due probe records once");
		vf_ensures(movie.begin()->first == m.time, "the record carries the simulated time");
		vf_ensures_near(movie.begin()->second, dom.value(f, d, e, x), 1e-9, "the record is the chosen component at the chosen point");
		vf_ensures(vfio::log.n == 2, "one line is written");
		vf_ensures_near(vfio::log.v[0] * 299792458.0, m.time, 1e-9, "the line carries the time in seconds");
		vf_ensures_near(vfio::log.v[1], dom.value(f, d, e, x), 1e-9, "the line carries the value");
		vf_cover("due");
	} else {
		vf_ensures(movie.size() == 0 && vfio::log.n == 0, "no record between the exports");
		vf_cover("not due");
	}
}

VF_HARNESS(C07_point_probe)
{
	vfio::start();
	Domain dom; Moment m = moment();
	SolverOptions opts; opts.final_time = m.T;
	double x = vf_real("x", 0, 1); int e = holder = vf_int("element", 0, 1);
	vf_requires(e >= 0 && e < 2);
	Probes probes; probes.pointProbes.push_back(PointProbe({x}, m.steps, true)); probes.pointProbes[0].setProbeID(3);
	ProbesManager pm(probes, dom.fes, *dom.fields, opts);
	pm.cycle_ = m.cycle;
	pm.updateProbe(pm.probes.pointProbes[0], m.time);
	const FieldMovies& movie = pm.getPointProbe(0).getFieldMovies();
	if (m.due) {
		vf_ensures(movie.size() == 1, "a due probe records once");
		vf_ensures(movie.begin()->first == m.time, "the record carries the simulated time");
		const FieldsForMovie& r = movie.begin()->second;
		double got[6] = {r.Ex, r.Ey, r.Ez, r.Hx, r.Hy, r.Hz};
		vf_ensures(vfio::log.n == 7, "one line is written");
		vf_ensures_near(vfio::log.v[0] * 299792458.0, m.time, 1e-9, "the line carries the time in seconds");
		for (int k = 0; k < 6; k++) {
			vf_ensures_near(got[k], dom.value(k / 3, k % 3, e, x), 1e-9, "the record holds the six components at the point");
			vf_ensures_near(vfio::log.v[k + 1], dom.value(k / 3, k % 3, e, x), 1e-9, "the line holds the six components in order");
		}
		vf_cover("due");
	} else {
		vf_ensures(movie.size() == 0 && vfio::log.n == 0, "no record between the exports");
		vf_cover("not due");
	}
}

VF_HARNESS(C07_exporter_probe)
{
	vfio::start();
	Domain dom; Moment m = moment();
	SolverOptions opts; opts.final_time = m.T;
	Probes probes; probes.exporterProbes.push_back(ExporterProbe()); probes.exporterProbes[0].visSteps = m.steps;
	ProbesManager pm(probes, dom.fes, *dom.fields, opts);
	pm.cycle_ = m.cycle;
	pm.updateProbe(pm.probes.exporterProbes[0], m.time);
	ParaViewDataCollection& pd = pm.exporterProbesCollection_.begin()->second;
	vf_ensures(pd.saves == (m.due ? 1 : 0), "exactly the due exports are made");
	vf_ensures(pd.fields.at("E") == &dom.fields->get(E) && pd.fields.at("H") == &dom.fields->get(H), "the export shows the fields of the solver");
	if (m.due) {
		vf_ensures(pd.cycle == m.cycle, "the export carries the cycle");
		vf_ensures(pd.time - m.time < 0.000501 && m.time - pd.time < 0.000501, "the export carries the time to three decimals");
		vf_cover("due");
	} else vf_cover("not due");
}

VF_HARNESS(C07_snapshot_probe)
{
	vfio::start();
	Domain dom; Moment m = moment();
	SolverOptions opts; opts.final_time = m.T;
	Probes probes; probes.domainSnapshotProbes.push_back(DomainSnapshotProbe()); probes.domainSnapshotProbes[0].expSteps = m.steps;
	ProbesManager pm(probes, dom.fes, *dom.fields, opts);
	pm.cycle_ = m.cycle;
	pm.updateProbe(pm.probes.domainSnapshotProbes[0], m.time);
	if (m.due) {
		vf_ensures(vfio::log.opened == 7, "six components and the time are written");
		vf_ensures(vfio::log.n == 1 && vfio::log.v[0] == m.time, "the snapshot carries the simulated time");
		vf_cover("due");
	} else {
		vf_ensures(vfio::log.opened == 0 && vfio::log.n == 0, "nothing is written between the exports");
		vf_cover("not due");
	}
}

// every probe is offered every cycle, and the cycle advances by one
VF_HARNESS(C07_all_probes)
{
	vfio::start();
	Domain dom; Moment m = moment();
	SolverOptions opts; opts.final_time = m.T;
	holder = 1;
	Probes probes;
	probes.fieldProbes.push_back(FieldProbe(E, Y, {0.5}, m.steps, false)); probes.fieldProbes.push_back(FieldProbe(H, Z, {0.25}, m.steps, false));
	probes.pointProbes.push_back(PointProbe({0.5}, m.steps, false));
	probes.exporterProbes.push_back(ExporterProbe()); probes.exporterProbes[0].visSteps = m.steps;
	probes.domainSnapshotProbes.push_back(DomainSnapshotProbe()); probes.domainSnapshotProbes[0].expSteps = m.steps;
	ProbesManager pm(probes, dom.fes, *dom.fields, opts);
	pm.cycle_ = m.cycle;
	pm.updateProbes(m.time);
	unsigned long want = m.due ? 1 : 0;
	vf_ensures(pm.getFieldProbe(0).getFieldMovie().size() == want && pm.getFieldProbe(1).getFieldMovie().size() == want, "all field probes are updated");
	vf_ensures(pm.getPointProbe(0).getFieldMovies().size() == want, "point probes are updated");
	vf_ensures(pm.exporterProbesCollection_.begin()->second.saves == int(want), "exporters are updated");
	vf_ensures(vfio::log.n == int(want), "snapshots are updated");
	vf_ensures(pm.cycle_ == m.cycle + 1, "the cycle advances by one");
	vf_cover("all probes");
}

// state probe: the j-th state is saved at the first cycle not earlier than its nominal time
VF_HARNESS(C07_state_probe)
{
	vfio::start();
	Domain dom;
	SolverOptions opts; opts.final_time = 10.0;
	ProbesManager pm(Probes(), dom.fes, *dom.fields, opts);
	MORStateProbe p; p.record_time_start = vf_real("start", 0, 1); p.record_time_final = vf_real("final", 0, 2); p.saves = vf_int("saves", -1, 4);
	vf_requires(p.record_time_start >= 0 && p.record_time_final > p.record_time_start);
	pm.probes.morStateProbes.push_back(p);
	auto& probe = pm.probes.morStateProbes[0];
	double gap = p.saves > 1 ? (p.record_time_final - p.record_time_start) / (p.saves - 1) : 0.0;
	bool fresh = vf_bool("fresh");
	int done = 0;
	if (!fresh) {
		done = vf_int("done", 0, 4);
		vf_requires(done >= 0 && done <= p.saves && p.saves > 0);
		ProbesManager::MORStateContext c;
		c.initialized = true; c.save_count = done; c.dt_save = gap;
		c.next_save_time = p.saves > 1 ? p.record_time_start + done * gap : done == 0 ? p.record_time_start : p.record_time_final + 1.0;
		pm.morStateContexts_[&probe] = c;
	}
	double time = vf_real("time", 0, 2);
	pm.updateProbe(probe, time);
	double tol = gap > 0 ? gap * 1e-6 : 1e-12;
	bool inside = p.saves > 0 && time >= p.record_time_start - 1e-12 && time <= p.record_time_final + 1e-12;
	double nominal = p.record_time_start + done * gap;
	bool due = inside && done < p.saves && time >= nominal - tol;
	if (due) {
		vf_ensures(vfio::log.opened == 1, "a due state is written once");
		vf_ensures(vfio::log.n == 26 && vfio::log.v[0] == time && vfio::log.v[1] == 24, "a state is its time, its length and its values");
		int k = vf_int("k", 0, 23); vf_requires(k >= 0 && k < 24);
		vf_ensures(vfio::log.v[2 + k] == dom.fields->allDOFs()[k], "every value of the state is written in order");
		vf_cover("due");
	} else {
		vf_ensures(vfio::log.opened == 0 && vfio::log.n == 0, "no state between the nominal times");
		vf_cover("not due");
	}
	if (inside) {
		const auto& c = pm.morStateContexts_.at(&probe);
		vf_ensures(c.save_count == done + (due ? 1 : 0), "the saved states are counted");
		if (p.saves > 1) vf_ensures_near(c.next_save_time, p.record_time_start + c.save_count * gap, 1e-9, "the nominal times are equally spaced from start to end");
	}
}

// ---------------------------------------------------------------- time step
// Stated relationally, so that the constants of the heuristic are free: the contracts compare the estimates of
// different meshes, orders and CFL numbers.
static double lobatto(int order, int i) { return vf_ufi2("lobatto", order, i); }
struct Estimate {
	double factor = 1.0, cfl = 1.0; int order = 1; EvolutionOperatorType op = EvolutionOperatorType::Global; TimeDependentOperator* tdo = nullptr;
	double of(const Mesh& mesh) const
	{
		void* room = operator new(sizeof(Model)); Model& model = *static_cast<Model*>(room);
		new (&model.serialMesh_) Mesh(mesh); new (&model.pmesh_) ParMesh(); model.pmesh_.Dim = mesh.Dim;
		SolverOptions opts; opts.cfl = cfl; opts.evolution.order = order; opts.evolution.op = op;
		DG_FECollection fec(order, mesh.Dim); ParFiniteElementSpace fes(&model.pmesh_, &fec);
		return estimateTimeStep(model, opts, fes, tdo);
	}
};
// nodes of a segment mesh: element e starts anywhere, its spacings are gap(e, k) > 0
static double vfFactor = 1.0; static int vfOnly = -1; static double vfLeast = 0.0; static bool vfUniform = false;
static double gap(int e, int k) { double g = vf_ufi2("gap", e, k); return vfUniform ? vfLeast : vfLeast + g * g / (1.0 + g * g); }
static double segmentNode(const Mesh*, int order, int i)
{
	int n = order + 1, e = vfOnly >= 0 ? vfOnly : i / n, k = vfOnly >= 0 ? i : i % n;
	double x = vf_ufi1("start", e);
	for (int j = 0; j < order; j++) if (j < k) x += gap(e, j);
	return vfFactor * x;
}
static Mesh segments(int ne)
{
	Mesh m; m.Dim = m.spaceDim = 1; m.NumOfElements = ne; m.node_at = segmentNode;
	m.e2e_set = true; m.e2e.rows = ne;
	m.elem_size.resize(ne);
	for (int e = 0; e < ne; e++) m.elem_size[e] = vfFactor * gap(vfOnly >= 0 ? vfOnly : e, 0);
	return m;
}

//@ scope=orders_up_to_three
VF_HARNESS(C20_segments)
{
	Estimate est; est.order = vf_choose("order", 4); est.cfl = vf_real("cfl", 0.1, 1); vf_requires(est.cfl > 0);
	vfFactor = 1.0; vfOnly = -1; vfUniform = false; vfLeast = vf_real("least", 0.1, 1); vf_requires(vfLeast > 0 && vfLeast < 1e6);
	int ne = vf_size("ne", 1, 3);
	double dt = est.of(segments(ne));
	vf_ensures(dt > 0, "the estimate is positive");
	double a = vf_real("a", 0.2, 2); vf_requires(a > 0);
	Estimate est2 = est; est2.cfl = a * est.cfl;
	vf_ensures_near(est2.of(segments(ne)), a * dt, 1e-9, "the estimate is proportional to the CFL number");
	if (vf_choose("first", 2) == 0) vfOnly = 0;
	else { vfOnly = vf_int("j", 1, 2); vf_requires(vfOnly >= 1 && vfOnly < ne); }
	vf_ensures(dt <= est.of(segments(1)) + 1e-12, "no element alone allows less than the mesh");
	vfUniform = true;
	vf_ensures(dt >= est.of(segments(1)) - 1e-12, "the estimate is that of the smallest element");
	vf_cover("segments");
}

//@ scope=orders_up_to_two
VF_HARNESS(C20_segments_scaled)
{
	Estimate est; est.order = vf_choose("order", 3); est.cfl = vf_real("cfl", 0.1, 1); vf_requires(est.cfl > 0);
	vfFactor = 1.0; vfOnly = -1; vfUniform = false; vfLeast = vf_real("least", 0.1, 1); vf_requires(vfLeast > 0 && vfLeast < 1e6);
	int ne = vf_size("ne", 1, 3);
	double dt = est.of(segments(ne));
	double s = vf_real("s", 0.2, 2); vf_requires(s > 0 && s < 1e6);
	vfFactor = s;
	double scaled = est.of(segments(ne));
	vf_ensures(scaled <= s * dt + 1e-9, "a scaled mesh allows no more than the scaled estimate");
	vf_ensures(scaled >= s * dt - 1e-9, "a scaled mesh allows no less than the scaled estimate");
	vfFactor = 1.0;
	vf_cover("scaled");
}

//@ scope=orders_up_to_four
VF_HARNESS(C20_segments_order)
{
	vfFactor = 1.0; vfOnly = 0; vfUniform = true; vfLeast = vf_real("least", 0.1, 1); vf_requires(vfLeast > 0 && vfLeast < 1e6);
	Estimate low; low.order = vf_choose("order", 4); low.cfl = vf_real("cfl", 0.1, 1); vf_requires(low.cfl > 0);
	Estimate high = low; high.order = low.order + 1;
	vf_ensures(high.of(segments(1)) <= low.of(segments(1)) + 1e-12, "a higher order with the same node distance allows no more");
	vf_cover("order");
}

// simplex and tensor meshes: vertices, edges or faces and volumes are arbitrary
static int vfFaces, vfPer, vfType, vfOther;
static int cellFace(int e, int k) { return e * vfFaces + k; }
static int onlyFace(int e, int k) { return vfOnly * vfFaces + k; }
static int cellFaceVertex(int f, int k) { return f * vfPer + k; }
static double cellCoord(int v, int d)
{ // no edge is shorter than 0.25 in the unscaled mesh; the first edge of a face is turned so that it has no y part
	int f = v / vfPer, k = v % vfPer;
	double x = vf_ufi2("vertex", f, d);
	if (k == 1) { double g = vf_ufi2("second", f, d); x += d == 0 ? 0.25 + g * g : vfPer == 3 && d == 1 ? 0.0 : g; }
	if (k == 2) { double g = vf_ufi2("third", f, d); x += d == 1 ? 0.25 + g * g : g; }
	return vfFactor * x;
}
static double cellVolume(int e) { double v = vf_ufi1("volume", e); return vfLeast * (0.125 + v * v); }
static double onlyVolume(int e) { return cellVolume(vfOnly); }
static int cellType(int e) { return vfType; }
static const Mesh::Tables* tablesFor(int dim, int faces, int per, int type)
{
	vfFactor = vfLeast = 1.0; vfOnly = -1; vfFaces = faces; vfPer = per; vfType = type;
	return new Mesh::Tables{faces, per, cellFace, cellFaceVertex, cellCoord, cellVolume, cellType};
}
static const Mesh::Tables* onlyOf(const Mesh::Tables* t) { return new Mesh::Tables{t->faces, t->per, onlyFace, cellFaceVertex, cellCoord, onlyVolume, cellType}; }
static Mesh cellMesh(const Mesh::Tables* t, int dim, int ne)
{
	Mesh m; m.Dim = m.spaceDim = dim; m.NumOfElements = ne; m.tables = t;
	return m;
}
static Estimate arbitrary()
{
	Mesh::reference_node_at = lobatto;
	Estimate est; est.order = vf_int("order", 1, 4); est.cfl = vf_real("cfl", 0.1, 1); vf_requires(est.cfl > 0 && est.order >= 1);
	est.op = vf_choose("op", 2) == 0 ? EvolutionOperatorType::Global : EvolutionOperatorType::Maxwell;
	vf_requires(lobatto(est.order, 0) < lobatto(est.order, 1));
	return est;
}
static void wholeMesh(int dim, int faces, int per, int type)
{
	Estimate est = arbitrary();
	const Mesh::Tables* t = tablesFor(dim, faces, per, type);
	int ne = vf_size("ne", 1, 3);
	double dt = est.of(cellMesh(t, dim, ne));
	if (vf_choose("first", 2) == 0) vfOnly = 0;
	else { vfOnly = vf_int("j", 1, 2); vf_requires(vfOnly >= 1 && vfOnly < ne); }
	vf_ensures(dt <= est.of(cellMesh(onlyOf(t), dim, 1)) + 1e-12, "no element alone allows less than the mesh");
	vf_cover("whole mesh");
}
VF_HARNESS(C20_triangles) { wholeMesh(2, 3, 2, Element::TRIANGLE); }
VF_HARNESS(C20_quadrilaterals) { wholeMesh(2, 4, 2, Element::QUADRILATERAL); }
VF_HARNESS(C20_tetrahedra) { wholeMesh(3, 4, 3, Element::TETRAHEDRON); }

static void oneCell(int dim, int faces, int per, int type)
{
	Estimate est = arbitrary();
	const Mesh::Tables* t = tablesFor(dim, faces, per, type);
	double dt = est.of(cellMesh(t, dim, 1));
	vf_ensures(dt > 0, "the estimate is positive");
	double a = vf_real("a", 0.2, 2), s = vf_real("s", 0.2, 2); vf_requires(a > 0 && s > 0);
	Estimate est2 = est; est2.cfl = a * est.cfl;
	vf_ensures_near(est2.of(cellMesh(t, dim, 1)), a * dt, 1e-9, "the estimate is proportional to the CFL number");
	Estimate est3 = est; est3.order = vf_int("higher", 1, 5);
	vf_requires(est3.order > est.order && lobatto(est3.order, 1) > lobatto(est3.order, 0));
	vf_requires(lobatto(est3.order, 1) - lobatto(est3.order, 0) <= lobatto(est.order, 1) - lobatto(est.order, 0)); // nodes get closer
	vf_ensures(est3.of(cellMesh(t, dim, 1)) <= dt + 1e-12, "a higher order allows no more");
	vfFactor = s; vfLeast = dim == 2 ? s * s : s * s * s;
	vf_ensures_near(est.of(cellMesh(t, dim, 1)), s * dt, 1e-9, "the estimate is proportional to the size of the mesh");
	vf_cover("one cell");
}
//@ scope=one_element
VF_HARNESS(C20_one_triangle) { oneCell(2, 3, 2, Element::TRIANGLE); }
//@ scope=one_element
VF_HARNESS(C20_one_tetrahedron) { oneCell(3, 4, 3, Element::TETRAHEDRON); }

static void twoCells(int dim, int faces, int per, int type)
{
	Estimate est = arbitrary();
	const Mesh::Tables* t = tablesFor(dim, faces, per, type);
	double dt = est.of(cellMesh(t, dim, 2));
	vfOnly = 0; double first = est.of(cellMesh(onlyOf(t), dim, 1));
	vfOnly = 1; double second = est.of(cellMesh(onlyOf(t), dim, 1));
	vf_ensures_near(dt, first < second ? first : second, 1e-12, "the most restrictive element decides");
	vf_cover("two cells");
}
//@ scope=two_elements
VF_HARNESS(C20_two_triangles) { twoCells(2, 3, 2, Element::TRIANGLE); }
//@ scope=two_elements
VF_HARNESS(C20_two_tetrahedra) { twoCells(3, 4, 3, Element::TETRAHEDRON); }

// the nodal evolution decides by the face scale of its straight elements; curved ones fall back to the estimate of the mesh
extern "C" void* const vfNodalTable[] asm("_ZTVN7maxwell18HesthavenEvolutionE");
//@ scope=two_elements
VF_HARNESS(C20_nodal)
{
	Estimate est = arbitrary(); est.op = EvolutionOperatorType::Maxwell;
	const Mesh::Tables* t = tablesFor(3, 4, 3, Element::TETRAHEDRON);
	auto* evo = static_cast<HesthavenEvolution*>(operator new(sizeof(HesthavenEvolution)));
	*reinterpret_cast<void* const**>(evo) = vfNodalTable + 2;
	new (&evo->hestElemLinearStorage_) std::vector<HesthavenElement>();
	int straight = vf_choose("straight", 3); double* scale = vf_real_array("scale", 8, 0.1, 5);
	double greatest = 0.0;
	for (int i = 0; i < 8; i++) vf_requires(scale[i] > 0);
	for (int e = 0; e < straight; e++) {
		HesthavenElement h; h.fscale.resize(4); for (int i = 0; i < 4; i++) h.fscale(i) = scale[4 * e + i];
		evo->hestElemLinearStorage_.push_back(h);
	}
	double mesh = est.of(cellMesh(t, 3, 2));
	est.op = EvolutionOperatorType::Hesthaven; est.tdo = evo;
	double dt = est.of(cellMesh(t, 3, 2));
	vf_ensures(dt > 0, "the estimate is positive");
	int k = vf_choose("k", 8);
	if (k < 4 * straight) vf_ensures(dt * scale[k] * est.order * est.order <= est.cfl * (1.0 + 1e-12), "no straight element allows less than the mesh");
	if (straight < 2) vf_ensures(dt <= mesh + 1e-12, "curved elements allow no more than the estimate of the mesh");
	if (straight == 2) {
		double most = 0.0; for (int i = 0; i < 8; i++) if (scale[i] > most) most = scale[i];
		vf_ensures_near(dt * most * est.order * est.order, est.cfl, 1e-9, "the most restrictive element decides");
	}
	vf_cover("nodal");
}
