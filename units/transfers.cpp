// C22: MaxwellTransferMap and the attribute backup around sub-meshes
#include "verif.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "evolution/MaxwellEvolutionMethods.cpp"
#include "evolution/HesthavenEvolutionMethods.cpp"

using namespace maxwell;
using namespace mfem;

// a transfer map with arbitrary, pairwise different positions in a parent of n unknowns
struct Transfer {
	MaxwellTransferMap* map; int m, n; int* at; double* from; double* into;
	GridFunction src, dst;
	Transfer()
	{
		m = vf_size("m", 1, 3); n = vf_size("n", 1, 5);
		at = vf_injection("at", m, 0, n);
		from = vf_real_array("from", m, -2, 2); into = vf_real_array("into", n, -2, 2);
		map = static_cast<MaxwellTransferMap*>(operator new(sizeof(MaxwellTransferMap)));
		new (&map->sub_to_parent_map_) Array<int>(m); new (&map->z_) Vector();
		for (int i = 0; i < m; i++) map->sub_to_parent_map_[i] = at[i];
		src.SetSize(m); for (int i = 0; i < m; i++) src(i) = from[i];
		dst.SetSize(n); for (int i = 0; i < n; i++) dst(i) = into[i];
	}
};

VF_HARNESS(C22_add_then_subtract)
{
	Transfer t;
	t.map->TransferAdd(t.src, t.dst);
	t.map->TransferSub(t.src, t.dst);
	int k = vf_int("k", 0, 4); vf_requires(k >= 0 && k < t.n);
	vf_ensures_near(t.dst(k), t.into[k], 1e-12, "adding and subtracting leaves the parent unchanged");
	vf_ensures(t.dst.Size() == t.n && t.src.Size() == t.m, "sizes are kept");
	vf_cover("add and subtract");
}

static void own(bool adding)
{
	Transfer t;
	if (adding) t.map->TransferAdd(t.src, t.dst); else t.map->TransferSub(t.src, t.dst);
	int j = vf_int("j", 0, 2); vf_requires(j >= 0 && j < t.m);
	int p = t.at[j];
	vf_ensures_near(t.dst(p), t.into[p] + (adding ? t.from[j] : -t.from[j]), 1e-12, "each value goes to its own position");
	vf_ensures(t.src(j) == t.from[j], "the sub-domain field is not changed");
	vf_cover("own position");
}
VF_HARNESS(C22_add_own_position) { own(true); }
VF_HARNESS(C22_subtract_own_position) { own(false); }

static void others(bool adding)
{
	Transfer t;
	int k = vf_int("k", 0, 4); vf_requires(k >= 0 && k < t.n);
	bool in = false;
	for (int i = 0; i < t.m; i++) if (t.at[i] == k) in = true;
	vf_requires(!in);
	if (adding) t.map->TransferAdd(t.src, t.dst); else t.map->TransferSub(t.src, t.dst);
	vf_ensures(t.dst(k) == t.into[k], "nothing outside the sub-domain changes");
	vf_cover("outside");
}
VF_HARNESS(C22_add_frame) { others(true); }
VF_HARNESS(C22_subtract_frame) { others(false); }

static const int NE = 3;
static Mesh tagged(int* attr)
{
	Mesh m; m.Dim = m.spaceDim = 2; m.NumOfElements = NE; m.nvpe = 0;
	for (int e = 0; e < NE; e++) { attr[e] = vf_int("attribute", 1, 4); vf_requires(attr[e] >= 1); m.elem_attr.push_back(attr[e]); m.elem_type.push_back(Element::TRIANGLE); }
	return m;
}
static void same(const Mesh& m, const int* attr)
{
	for (int e = 0; e < NE; e++) vf_ensures(m.GetAttribute(e) == attr[e], "every attribute is as it was");
	vf_ensures(m.GetNE() == NE, "no element is added or lost");
}

//@ scope=three_elements
VF_HARNESS(C22_backup)
{
	int attr[NE]; Mesh m = tagged(attr);
	auto kept = mapOriginalAttributes(m);
	vf_ensures(int(kept.size()) == NE, "every element is backed up");
	for (int e = 0; e < NE; e++) vf_ensures(kept.at(e) == attr[e], "the backup holds the attribute of each element");
	same(m, attr);
	vf_cover("backup");
}

//@ scope=three_elements
VF_HARNESS(C22_restore_element)
{
	int attr[NE]; Mesh m = tagged(attr);
	auto kept = mapOriginalAttributes(m);
	int e = vf_choose("e", NE), tag = vf_int("tag", 1, 1000);
	m.SetAttribute(e, tag);
	restoreOriginalAttributesAfterSubMeshing(e, m, kept);
	same(m, attr);
	vf_cover("restore element");
}

// the second element is -1 when the face has one side only
//@ scope=three_elements
VF_HARNESS(C22_restore_face)
{
	int attr[NE]; Mesh m = tagged(attr);
	auto kept = mapOriginalAttributes(m);
	int a = vf_choose("a", NE), b = vf_choose("b", NE + 1) - 1; vf_requires(a != b);
	int tag = vf_int("tag", 1, 1000);
	FaceElementTransformations tr; tr.Elem1No = a; tr.Elem2No = b;
	m.SetAttribute(a, tag); if (b >= 0) m.SetAttribute(b, tag);
	restoreOriginalAttributesAfterSubMeshing(&tr, m, kept);
	same(m, attr);
	vf_cover("restore face");
}

//@ scope=three_elements
VF_HARNESS(C22_interior_face)
{
	int attr[NE]; Mesh m = tagged(attr);
	for (int e = 0; e < NE; e++) vf_requires(attr[e] != hesthavenMeshingTag);
	auto kept = mapOriginalAttributes(m);
	int a = vf_choose("a", NE), b = vf_choose("b", NE); vf_requires(a != b);
	FaceElementTransformations tr; tr.Elem1No = a; tr.Elem2No = b;
	SubMesh sub = assembleInteriorFaceSubMesh(m, tr, kept);
	same(m, attr);
	vf_ensures(sub.GetNE() == 2, "the sub-mesh holds the two elements of the face");
	int lo = a < b ? a : b, hi = a < b ? b : a;
	vf_ensures(sub.GetParentElementIDMap()[0] == lo && sub.GetParentElementIDMap()[1] == hi, "the sub-mesh holds the elements of the face");
	vf_cover("interior face");
}

//@ scope=three_elements
VF_HARNESS(C22_boundary_face)
{
	int attr[NE]; Mesh m = tagged(attr);
	for (int e = 0; e < NE; e++) vf_requires(attr[e] != hesthavenMeshingTag);
	auto kept = mapOriginalAttributes(m);
	int a = vf_choose("a", NE);
	FaceElementTransformations tr; tr.Elem1No = a; tr.Elem2No = -1;
	SubMesh sub = assembleBoundaryFaceSubMesh(m, tr, kept);
	same(m, attr);
	vf_ensures(sub.GetNE() == 1 && sub.GetParentElementIDMap()[0] == a, "the sub-mesh holds the element of the face");
	vf_cover("boundary face");
}
