// C11: evolution/Fields.h, the packed-vector views of the nodal solver and the offsets of the operator factory
#include "verif.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "evolution/Fields.h"
#include "evolution/MaxwellEvolutionMethods.cpp"
#include "evolution/HesthavenEvolutionMethods.cpp"
#include "components/DGOperatorFactory.h"

using namespace maxwell;
using namespace mfem;

template <class FES, class GF> static void partition(FES& fes, int n)
{
	Fields<FES, GF> fields(fes);
	Vector& all = fields.allDOFs();
	vf_ensures(all.Size() == 6 * n, "the state holds six blocks");
	int p = vf_int("p", 0, 17);
	vf_requires(p >= 0 && p < 6 * n);
	vf_ensures(all(p) == 0.0, "the state starts at zero");
	double before = vf_real("before", -3, 3), value = vf_real("value", -3, 3);
	all(p) = before;
	int k = vf_int("k", 0, 2);
	vf_requires(k >= 0 && k < n);
	FieldType f = vf_choose("f", 2) == 0 ? E : H;
	Direction d = Direction(vf_choose("d", 3));
	auto& g = fields.get(f, d);
	const auto& cg = static_cast<const Fields<FES, GF>&>(fields).get(f, d);
	vf_ensures(g.Size() == n, "every component has the length of the space");
	vf_ensures(&cg == &g, "both accessors give the same component");
	int at = (3 * f + d) * n + k;
	g(k) = value;
	vf_ensures(all(at) == value, "a component is its own block of the state");
	if (p != at) vf_ensures(all(p) == before, "writing a component changes nothing else");
	auto& whole = fields.get(f);
	vf_ensures(whole.Size() == 3 * n, "one field spans three blocks");
	vf_ensures(whole(d * n + k) == value, "the three blocks of a field are seen together in order");
	vf_cover("partition");
}

VF_HARNESS(C11_partition_serial)
{
	int n = vf_size("n", 1, 3);
	Mesh mesh; DG_FECollection fec(1, 1);
	FiniteElementSpace fes(&mesh, &fec); fes.ndofs = n;
	partition<FiniteElementSpace, GridFunction>(fes, n);
}

VF_HARNESS(C11_partition_parallel)
{
	int n = vf_size("n", 1, 3);
	ParMesh mesh; DG_FECollection fec(1, 1);
	ParFiniteElementSpace fes(&mesh, &fec); fes.ndofs = n;
	partition<ParFiniteElementSpace, ParGridFunction>(fes, n);
}

// rows are six consecutive blocks of local unknowns, columns six consecutive blocks of local and halo unknowns
VF_HARNESS(C11_operator_offsets)
{
	int n = vf_int("n", 1, 5), m = vf_int("m", 0, 4);
	vf_requires(n >= 1 && m >= 0);
	bool local = vf_bool("local");
	GlobalIndices ids(n, m, local);
	int row = 0, col = 0;
	for (auto f : { E, H }) for (auto d : { X, Y, Z }) {
		const FieldOffsets& o = *ids.offsets[f][d];
		vf_ensures(o.rowStartOffset == row && o.rowEndOffset == row + n, "row blocks follow each other in component order");
		vf_ensures(o.colStartOffset == col, "column blocks follow each other in component order");
		vf_ensures(o.colEndOffset == col + (local ? n : n + m), "a column block ends with the local or with the halo unknowns");
		row += n; col += n + m;
	}
	vf_cover("offsets");
}

VF_HARNESS(C11_block_coefficients)
{
	FieldType f = vf_choose("f", 2) == 0 ? E : H, g = vf_choose("g", 2) == 0 ? E : H;
	Direction d = Direction(vf_choose("d", 3)), e = Direction(vf_choose("e", 3));
	auto two = calcOffsetCoeff({ f, g }, { d, e });
	vf_ensures(two.size() == 2 && two[0] == 3 * int(f) + int(d) && two[1] == 3 * int(g) + int(e), "block row and column follow the component order");
	auto one = calcOffsetCoeff({ f }, { d });
	vf_ensures(one[0] == 3 * int(f) + int(d) && one[1] == one[0], "a single component addresses its diagonal block");
}

VF_HARNESS(C11_nodal_views)
{
	int n = vf_size("n", 1, 3);
	Mesh mesh; DG_FECollection fec(1, 1);
	FiniteElementSpace fes(&mesh, &fec); fes.ndofs = n;
	Vector in(vf_real_array("in", 6 * n, -3, 3), 6 * n);
	int k = vf_int("k", 0, 2);
	vf_requires(k >= 0 && k < n);
	FieldsInputMaps read(in, fes);
	for (int d = 0; d < 3; d++) {
		vf_ensures(read.e_[d].size() == n && read.h_[d].size() == n, "input views have the length of the space");
		vf_ensures(&read.e_[d][k] == &in(d * n + k), "electric input views follow the component order");
		vf_ensures(&read.h_[d][k] == &in((3 + d) * n + k), "magnetic input views follow the component order");
	}
	FieldsOutputMaps write(in, fes);
	for (int d = 0; d < 3; d++) {
		vf_ensures(write.e_[d].size() == n && write.h_[d].size() == n, "output views have the length of the space");
		vf_ensures(&write.e_[d][k] == &in(d * n + k), "electric output views follow the component order");
		vf_ensures(&write.h_[d][k] == &in((3 + d) * n + k), "magnetic output views follow the component order");
	}
	vf_cover("views");
}

VF_HARNESS(C11_element_views)
{
	int ne = vf_size("elements", 1, 3), per = vf_size("per", 1, 3), n = ne * per;
	vf_requires(n < 100000000);
	Mesh mesh; mesh.NumOfElements = ne; DG_FECollection fec(1, 1);
	FiniteElementSpace fes(&mesh, &fec); fes.ndofs = n; fes.dofs_per_elem = per;
	Vector in(vf_real_array("in", 6 * n, -3, 3), 6 * n);
	int k = vf_int("k", 0, 2), el = vf_int("element", 0, 2);
	vf_requires(k >= 0 && k < per && el >= 0 && el < ne);
	FieldsElementMaps view(in, fes, el);
	for (int d = 0; d < 3; d++) {
		vf_ensures(view.e_[d].size() == per && view.h_[d].size() == per, "element views have the length of the element");
		vf_ensures(&view.e_[d][k] == &in(d * n + el * per + k), "electric element views follow the component order");
		vf_ensures(&view.h_[d][k] == &in((3 + d) * n + el * per + k), "magnetic element views follow the component order");
	}
	HesthavenFields jumps(ne * per);
	Eigen::Index flux = per;
	HesthavenElementJumps own(jumps, el, flux);
	for (int d = 0; d < 3; d++) {
		vf_ensures(own.e_[d].size() == per && own.h_[d].size() == per, "jump views have the length of the element's faces");
		vf_ensures(&own.e_[d][k] == jumps.e_[d].data() + (el * per + k), "electric jump views follow the component order");
		vf_ensures(&own.h_[d][k] == jumps.h_[d].data() + (el * per + k), "magnetic jump views follow the component order");
	}
	vf_cover("elements");
}
