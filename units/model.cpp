// C12: components/Model.{h,cpp}
#include "verif.h"
#include "components/Material.cpp"
#include "components/Model.cpp"

using namespace maxwell;

static const BdrCond conditions[] = { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA, BdrCond::SGBC, BdrCond::TotalFieldIn };

static Mesh oneElement(int largestTag)
{
	Mesh m;
	m.NumOfElements = 1;
	m.elem_type = { Element::SEGMENT }; m.elem_attr = { 1 };
	m.bdr_attributes.Append(largestTag);
	return m;
}

// the vectors over material tags, for three materials with arbitrary tags and constants
//@ scope=up_to_three_tagged_materials
VF_HARNESS(C12_material_vectors)
{
	int n = 1 + vf_choose("count", 3);
	int tag[3]; double e[3], m[3], s[3];
	GeomTagToMaterialInfo info;
	int largest = 0;
	for (int i = 0; i < n; i++) {
		tag[i] = vf_int(i == 0 ? "t0" : i == 1 ? "t1" : "t2", 1, 6);
		vf_requires(tag[i] >= 1);
		for (int j = 0; j < i; j++) vf_requires(tag[i] != tag[j]);
		e[i] = vf_real(i == 0 ? "e0" : i == 1 ? "e1" : "e2", 1, 9);
		m[i] = vf_real(i == 0 ? "m0" : i == 1 ? "m1" : "m2", 1, 9);
		s[i] = vf_real(i == 0 ? "s0" : i == 1 ? "s1" : "s2", 0, 9);
		vf_requires(e[i] >= 1.0 && m[i] >= 1.0 && s[i] >= 0.0);
		info.gt2m.emplace(tag[i], Material(e[i], m[i], s[i]));
		if (tag[i] > largest) largest = tag[i];
	}
	Mesh mesh = oneElement(1);
	Model model(mesh, info, GeomTagToBoundaryInfo());
	vf_ensures(int(model.numberOfMaterials()) == n, "every material is kept");
	Vector eps = model.buildEpsMuPiecewiseVector(FieldType::E), mu = model.buildEpsMuPiecewiseVector(FieldType::H), sig = model.buildSigmaPiecewiseVector();
	vf_ensures(eps.Size() == largest && mu.Size() == largest && sig.Size() == largest, "the vectors reach to the largest tag");
	for (int i = 0; i < n; i++) {
		vf_ensures_eq(eps(tag[i] - 1), e[i], "permittivity of the material of the tag");
		vf_ensures_eq(mu(tag[i] - 1), m[i], "permeability of the material of the tag");
		vf_ensures_eq(sig(tag[i] - 1), s[i], "conductivity of the material of the tag");
	}
	int t = vf_int("t", 1, 6);
	if (t >= 1 && t <= largest) {
		bool used = false;
		for (int i = 0; i < n; i++) if (t == tag[i]) used = true;
		if (!used) vf_ensures(eps(t - 1) == 0.0 && mu(t - 1) == 0.0 && sig(t - 1) == 0.0, "tags without material are zero");
	}
}

VF_HARNESS(C12_default_material)
{
	Mesh mesh = oneElement(1);
	Model model(mesh);
	Vector eps = model.buildEpsMuPiecewiseVector(FieldType::E), mu = model.buildEpsMuPiecewiseVector(FieldType::H), sig = model.buildSigmaPiecewiseVector();
	vf_ensures(eps.Size() == 1 && mu.Size() == 1 && sig.Size() == 1 && eps(0) == 1.0 && mu(0) == 1.0 && sig(0) == 0.0, "without materials everything is vacuum under tag one");
}

static void checkMarkers(Model& model, int largest, int n, const int* tag, const BdrCond* cond, const bool* inner)
{
	int t = vf_int("t", 1, 5);
	vf_requires(t >= 1 && t <= largest);
	for (BdrCond c : conditions) for (int in = 0; in < 2; in++) {
		auto& marker = model.getMarker(c, in == 1);
		bool any = false, here = false;
		for (int i = 0; i < n; i++) if (cond[i] == c && (inner[i] == (in == 1) || c == BdrCond::TotalFieldIn)) { any = true; if (tag[i] == t) here = true; }
		vf_ensures(any ? marker.Size() == largest : marker.Size() == 0, "a marker covers all boundary tags, and only conditions in use have one");
		if (any) vf_ensures(marker[t - 1] == (here ? 1 : 0), "a marker is one exactly at the tags with its condition");
		if (c == BdrCond::TotalFieldIn) continue;
		const auto& m = in == 1 ? model.getInteriorBoundaryToMarker() : model.getBoundaryToMarker();
		auto it = m.find(c);
		vf_ensures((it != m.end()) == any, "the table of markers lists the conditions in use");
		if (it != m.end()) vf_ensures(it->second.Size() == largest && it->second[t - 1] == (here ? 1 : 0), "the table of markers holds the same markers");
	}
}

static Model build(int largest, int n, const int* tag, const BdrCond* cond, const bool* inner)
{
	GeomTagToBoundaryInfo info;
	for (int i = 0; i < n; i++) {
		if (inner[i]) info.gt2ib[tag[i]] = cond[i];
		else info.gt2b[tag[i]] = cond[i];
	}
	Mesh mesh = oneElement(largest);
	return Model(mesh, GeomTagToMaterialInfo(), info);
}

//@ scope=two_tagged_boundaries
VF_HARNESS(C12_markers)
{
	int largest = vf_size("largest", 1, 5);
	int tag[2] = { vf_int("t0", 1, 5), vf_int("t1", 1, 5) };
	BdrCond cond[2]; bool inner[2];
	int kind = vf_choose("kind", 3);
	inner[0] = kind == 2; inner[1] = kind >= 1;
	for (int i = 0; i < 2; i++) {
		vf_requires(tag[i] >= 1 && tag[i] <= largest);
		cond[i] = conditions[vf_choose(i ? "c1" : "c0", 5)];
	}
	vf_requires(tag[0] != tag[1]);
	Model model = build(largest, 2, tag, cond, inner);
	checkMarkers(model, largest, 2, tag, cond, inner);
	vf_ensures(int(model.getGeomTagToBoundaryCond().size()) == 2 - kind && int(model.getGeomTagToIntBoundaryCond().size()) == kind, "the conditions are kept as given");
}

VF_HARNESS(C12_bad_tags)
{
	int tag[1] = { vf_int("t", -3, 0) };
	vf_requires(tag[0] <= 0);
	BdrCond cond[1] = { conditions[vf_choose("c", 5)] };
	bool inner[1] = { vf_choose("inner", 2) == 1 };
	bool refused = false;
	try { Model model = build(3, 1, tag, cond, inner); } catch (const std::exception&) { refused = true; }
	vf_ensures(refused, "tags that are zero or negative are rejected");
}
