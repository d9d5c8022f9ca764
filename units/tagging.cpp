// C15: components/SubMesher.cpp
#include "verif.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"

using namespace maxwell;
using namespace mfem;

using Lists = std::vector<std::vector<int>>;

// a mesh from the vertices of its elements; the faces are those of the elements in turn
static void build(Mesh& m, int dim, const Lists& elements, const Lists& local, bool turned, bool swapped)
{
	m.Dim = m.spaceDim = dim; m.nvpe = int(elements[0].size()); m.nvpf = m.nvpb = int(local[0].size());
	m.NumOfElements = int(elements.size());
	Lists faces, sorted;
	for (int e = 0; e < m.NumOfElements; e++) {
		m.elem_attr.push_back(1); m.elem_type.push_back(dim == 2 ? Element::TRIANGLE : Element::TETRAHEDRON);
		for (int v : elements[e]) m.elem_verts.push_back(v);
		m.elem_face_I.push_back(int(m.elem_face_J.size()));
		for (auto& l : local) {
			std::vector<int> vs; for (int i : l) vs.push_back(elements[e][i]);
			auto s = vs; std::sort(s.begin(), s.end());
			int f = 0; while (f < int(sorted.size()) && sorted[f] != s) f++;
			if (f == int(sorted.size())) {
				if (turned) std::swap(vs[0], vs[1]);
				sorted.push_back(s); faces.push_back(vs); m.face_e1.push_back(e); m.face_e2.push_back(-1);
			}
			else { m.face_e2[f] = e; if (swapped) std::swap(m.face_e1[f], m.face_e2[f]); }
			m.elem_face_J.push_back(f);
		}
	}
	m.elem_face_I.push_back(int(m.elem_face_J.size()));
	m.NumOfFaces = int(faces.size());
	for (auto& f : faces) for (int v : f) m.face_verts.push_back(v);
}
static void boundary(Mesh& m, std::vector<int> vertices, int attribute, bool turned)
{
	auto s = vertices; std::sort(s.begin(), s.end());
	for (int f = 0; f < m.NumOfFaces; f++) {
		std::vector<int> t(m.face_verts.begin() + f * m.nvpf, m.face_verts.begin() + (f + 1) * m.nvpf); std::sort(t.begin(), t.end());
		if (t != s) continue;
		if (turned) std::swap(vertices[0], vertices[1]);
		m.bdr_face.push_back(f); m.bdr_attr.push_back(attribute); m.bdr_type.push_back(m.Dim == 2 ? Element::SEGMENT : Element::TRIANGLE);
		for (int v : vertices) m.bdr_verts.push_back(v);
		m.NumOfBdrElements++;
	}
}
static bool in(const SubMesh* s, int e) { return s && s->parent_element_ids_.Find(e) >= 0; }
static int count(const std::vector<El2Face>& v, int e) { int n = 0; for (auto& x : v) n += x.first == e; return n; }
static int faceOf(const std::vector<El2Face>& v, int e) { for (auto& x : v) if (x.first == e) return x.second; return -1; }

// what is recorded about one face of the surface whose first element is (not) on the total-field side
static void sides(const TotalFieldScatteredFieldSubMesher& s, const Mesh& m, int face, bool firstIsTF)
{
	int a = m.face_e1[face], b = m.face_e2[face];
	auto *tf = s.getTFConstSubMesh(), *sf = s.getSFConstSubMesh(), *all = s.getGlobalTFSFConstSubMesh();
	vf_ensures(in(tf, a) == firstIsTF && in(sf, a) == !firstIsTF, "the first element is on its side");
	vf_ensures(count(s.elem_to_face_tf_, a) == (firstIsTF ? 1 : 0) && count(s.elem_to_face_sf_, a) == (firstIsTF ? 0 : 1), "the first element is recorded once, on its side");
	int l = faceOf(firstIsTF ? s.elem_to_face_tf_ : s.elem_to_face_sf_, a);
	vf_ensures(l >= 0 && m.elem_face_J[m.elem_face_I[a] + l] == face, "the face recorded is that of the first element");
	vf_ensures(in(all, a), "the first element is in the common sub-domain");
	if (b >= 0) {
		vf_ensures(in(tf, b) == !firstIsTF && in(sf, b) == firstIsTF, "the second element is on the other side");
		vf_ensures(count(s.elem_to_face_tf_, b) == (firstIsTF ? 0 : 1) && count(s.elem_to_face_sf_, b) == (firstIsTF ? 1 : 0), "the second element is recorded once, on the other side");
		l = faceOf(firstIsTF ? s.elem_to_face_sf_ : s.elem_to_face_tf_, b);
		vf_ensures(l >= 0 && m.elem_face_J[m.elem_face_I[b] + l] == face, "the face recorded is that of the second element");
		vf_ensures(in(all, b), "the second element is in the common sub-domain");
	}
	// the surface keeps its condition in the sub-domain of each side
	for (auto* part : { tf, sf }) for (int e : { a, b }) if (e >= 0 && in(part, e)) {
		int n = 0;
		for (int i = 0; i < part->NumOfBdrElements; i++) if (part->parent_face_ids_[part->bdr_face[i]] == face) n += part->bdr_attr[i] == static_cast<int>(BdrCond::TotalFieldIn);
		vf_ensures(n == 1, "the face is marked in the sub-domain of its side");
	}
}
static int total(const TotalFieldScatteredFieldSubMesher& s) { return int(s.elem_to_face_tf_.size() + s.elem_to_face_sf_.size()); }

static double centre(const Mesh& m, const int* v, int n, int d) { double s = 0.0; for (int k = 0; k < n; k++) s += m.vert[3 * v[k] + d]; return s / n; }
static double ofElement(const Mesh& m, int e, int d) { return centre(m, &m.elem_verts[e * m.nvpe], m.nvpe, d); }
static double ofFace(const Mesh& m, int f, int d) { return centre(m, &m.face_verts[f * m.nvpf], m.nvpf, d); }

//@ scope=five_triangles_and_three_faces_of_the_surface
VF_HARNESS(C15_plane)
{
	Mesh m; bool turned = vf_choose("turned", 2) == 1, swapped = vf_choose("swapped", 2) == 1, mirrored = vf_choose("mirrored", 2) == 1;
	build(m, 2, { { 4, 5, 6 }, { 0, 1, 2 }, { 8, 9, 10 }, { 1, 3, 2 }, { 5, 7, 6 } }, { { 0, 1 }, { 1, 2 }, { 2, 0 } }, turned, swapped);
	boundary(m, { 0, 1 }, 1, false); boundary(m, { 2, 1 }, 2, mirrored); boundary(m, { 5, 6 }, 2, mirrored); boundary(m, { 8, 9 }, 2, mirrored); boundary(m, { 9, 10 }, 3, false);
	double* at = vf_real_array("at", 33, -2, 2);
	m.vert.resize(33); for (int i = 0; i < 33; i++) m.vert[i] = at[i]; m.NumOfVertices = 11;
	m.SetAttributes();
	Array<int> marker(3); marker = 0; marker[1] = 1;
	bool first[3];
	for (int k = 0; k < 3; k++) {
		first[k] = vf_choose("first", 2) == 1;
		int f = m.bdr_face[1 + k];
		double b[2], t[2];
		for (int d = 0; d < 2; d++) {
			b[d] = (m.face_e2[f] >= 0 ? ofElement(m, m.face_e2[f], d) : ofFace(m, f, d)) - ofElement(m, m.face_e1[f], d);
			t[d] = at[3 * m.face_verts[2 * f + 1] + d] - at[3 * m.face_verts[2 * f] + d];
		}
		double cross = b[0] * t[1] - b[1] * t[0];
		vf_requires(first[k] ? cross < 0.0 : cross >= 0.0);
	}
	TotalFieldScatteredFieldSubMesher s(m, marker);
	int k = vf_choose("face", 3);
	sides(s, m, m.bdr_face[1 + k], first[k]);
	vf_ensures(total(s) == 5, "nothing else is recorded");
	int e = vf_choose("e", 5);
	vf_ensures(m.elem_attr[e] == 1, "the mesh given is not changed");
	vf_cover("plane");
}

//@ scope=five_tetrahedra_and_three_faces_of_the_surface
VF_HARNESS(C15_space)
{
	Mesh m; bool turned = vf_choose("turned", 2) == 1, swapped = vf_choose("swapped", 2) == 1;
	// the two inner faces have an edge in common
	build(m, 3, { { 2, 3, 4, 6 }, { 0, 1, 2, 3 }, { 8, 9, 10, 11 }, { 2, 3, 4, 7 }, { 1, 2, 3, 5 } }, { { 1, 2, 3 }, { 0, 3, 2 }, { 0, 1, 3 }, { 0, 2, 1 } }, turned, swapped);
	boundary(m, { 0, 1, 2 }, 1, false); boundary(m, { 2, 1, 3 }, 2, turned); boundary(m, { 4, 2, 3 }, 2, turned); boundary(m, { 8, 9, 10 }, 2, turned); boundary(m, { 9, 10, 11 }, 3, false);
	double* at = vf_real_array("at", 36, -2, 2);
	m.vert.resize(36); for (int i = 0; i < 36; i++) m.vert[i] = at[i]; m.NumOfVertices = 12;
	m.SetAttributes();
	Array<int> marker(3); marker = 0; marker[1] = 1;
	const int surface[7] = { 1, 2, 3, 4, 8, 9, 10 };
	bool first[3];
	for (int k = 0; k < 3; k++) {
		first[k] = vf_choose("first", 2) == 1;
		int f = m.bdr_face[1 + k]; double d1 = 0.0, d2 = 0.0;
		for (int d = 0; d < 3; d++) {
			double c = centre(m, surface, 7, d), x = ofElement(m, m.face_e1[f], d) - c, y = (m.face_e2[f] >= 0 ? ofElement(m, m.face_e2[f], d) : ofFace(m, f, d)) - c;
			d1 += x * x; d2 += y * y;
		}
		vf_requires(first[k] ? d1 < d2 : d1 >= d2);
	}
	TotalFieldScatteredFieldSubMesher s(m, marker);
	int k = vf_choose("face", 3);
	sides(s, m, m.bdr_face[1 + k], first[k]);
	vf_ensures(total(s) == 5, "nothing else is recorded");
	vf_cover("space");
}

// a line of up to four elements with an entry point, and possibly an exit point after it
static void line(int points)
{
	int n = 2 + vf_choose("n", 3);
	auto m = Mesh::MakeCartesian1D(n);
	m.elem_face_I.clear(); m.elem_face_J.clear();
	for (int e = 0; e < n; e++) { m.elem_face_I.push_back(2 * e); m.elem_face_J.push_back(e); m.elem_face_J.push_back(e + 1); } m.elem_face_I.push_back(2 * n);
	int at[2] = { vf_choose("first", 5), points == 2 ? vf_choose("second", 5) : 5 };
	vf_requires(at[0] <= n && (points == 1 || (at[0] < at[1] && at[1] <= n)));
	for (int k = 0; k < points; k++) {
		if (at[k] == 0) m.bdr_attr[0] = 3;
		else if (at[k] == n) m.bdr_attr[1] = 3;
	}
	// boundary elements are listed from left to right
	bool last = points == 2 && at[1] == n;
	if (last) { m.bdr_face.pop_back(); m.bdr_attr.pop_back(); m.bdr_verts.pop_back(); m.NumOfBdrElements--; }
	for (int k = 0; k < points; k++) if (at[k] > 0 && (at[k] < n || last)) { m.bdr_face.push_back(at[k]); m.bdr_attr.push_back(3); m.bdr_verts.push_back(at[k]); m.bdr_type.push_back(Element::POINT); m.NumOfBdrElements++; }
	m.SetAttributes();
	Array<int> marker(3); marker = 0; marker[2] = 1;
	TotalFieldScatteredFieldSubMesher s(m, marker);
	for (int k = 0; k < points; k++) {
		// the total field is to the right of the entry point and to the left of the exit point; on the border it is inside
		int p = at[k]; bool inside = k == 0 && p > 0 && p < n;
		int tf = inside || p == 0 ? p : p - 1, sf = inside ? p - 1 : k == 1 && p < n ? p : -1;
		vf_ensures(in(s.getTFConstSubMesh(), tf) && !in(s.getSFConstSubMesh(), tf), "the total-field element is on its side");
		bool recorded = false;
		for (auto& x : s.elem_to_face_tf_) recorded |= x.first == tf && x.second == p - tf;
		vf_ensures(recorded, "the total-field element and its face are recorded");
		if (sf >= 0) {
			vf_ensures(in(s.getSFConstSubMesh(), sf) && !in(s.getTFConstSubMesh(), sf), "the scattered-field element is on its side");
			recorded = false;
			for (auto& x : s.elem_to_face_sf_) recorded |= x.first == sf && x.second == p - sf;
			vf_ensures(recorded, "the scattered-field element and its face are recorded");
		}
		vf_ensures(in(s.getGlobalTFSFConstSubMesh(), tf) && (sf < 0 || in(s.getGlobalTFSFConstSubMesh(), sf)), "both are in the common sub-domain");
	}
	int sided = 0; for (int k = 0; k < points; k++) sided += at[k] > 0 && at[k] < n;
	vf_ensures(int(s.elem_to_face_tf_.size()) == points && int(s.elem_to_face_sf_.size()) == sided, "nothing else is recorded");
	vf_cover("line");
}
//@ scope=two_to_four_elements
VF_HARNESS(C15_line_one_point) { line(1); }
//@ scope=two_to_four_elements
VF_HARNESS(C15_line_two_points) { line(2); }

// a near-to-far-field surface: of each face, the element designated by its orientation is in the sub-domain
static void farSide(Mesh& m, const Array<int>& marker, const bool* first)
{
	ParFiniteElementSpace fes; NearToFarFieldSubMesher s(m, fes, marker);
	int k = vf_choose("face", 3), f = m.bdr_face[1 + k], a = m.face_e1[f], b = m.face_e2[f];
	auto* part = s.getConstSubMesh();
	if (b >= 0) {
		vf_ensures(in(part, a) == first[k] && in(part, b) == !first[k], "just the element on the designated side is kept");
		vf_ensures(count(s.elem_to_face_ntff_, a) == (first[k] ? 1 : 0) && count(s.elem_to_face_ntff_, b) == (first[k] ? 0 : 1), "just the element on the designated side is recorded");
	}
	else if (first[k]) vf_ensures(in(part, a), "the only element of a face is kept");
	int n = 0;
	if (part) for (int i = 0; i < part->NumOfBdrElements; i++) if (part->parent_face_ids_[part->bdr_face[i]] == f) n += part->bdr_attr[i] == static_cast<int>(BdrCond::NearToFarField);
	if (b >= 0 || first[k]) vf_ensures(n == 1, "the face is marked in the sub-domain");
	vf_ensures(int(s.elem_to_face_ntff_.size()) == 3, "nothing else is recorded");
	int e = vf_choose("e", 5);
	vf_ensures(m.elem_attr[e] == 1, "the mesh given is not changed");
}

//@ scope=five_triangles_and_three_faces_of_the_surface
VF_HARNESS(C15_far_plane)
{
	Mesh m; bool turned = vf_choose("turned", 2) == 1, swapped = vf_choose("swapped", 2) == 1;
	build(m, 2, { { 4, 5, 6 }, { 0, 1, 2 }, { 8, 9, 10 }, { 1, 3, 2 }, { 5, 7, 6 } }, { { 0, 1 }, { 1, 2 }, { 2, 0 } }, turned, swapped);
	boundary(m, { 0, 1 }, 1, false); boundary(m, { 2, 1 }, 2, turned); boundary(m, { 5, 6 }, 2, turned); boundary(m, { 8, 9 }, 2, turned); boundary(m, { 9, 10 }, 3, false);
	double* at = vf_real_array("at", 33, -2, 2);
	m.vert.resize(33); for (int i = 0; i < 33; i++) m.vert[i] = at[i]; m.NumOfVertices = 11;
	m.SetAttributes();
	Array<int> marker(3); marker = 0; marker[1] = 1;
	bool first[3];
	for (int k = 0; k < 3; k++) {
		first[k] = vf_choose("first", 2) == 1;
		int f = m.bdr_face[1 + k];
		double b[2], t[2];
		for (int d = 0; d < 2; d++) {
			b[d] = (m.face_e2[f] >= 0 ? ofElement(m, m.face_e2[f], d) : ofFace(m, f, d)) - ofElement(m, m.face_e1[f], d);
			t[d] = at[3 * m.face_verts[2 * f + 1] + d] - at[3 * m.face_verts[2 * f] + d];
		}
		double cross = b[0] * t[1] - b[1] * t[0];
		vf_requires(first[k] ? cross >= 0.0 : cross < 0.0);
	}
	farSide(m, marker, first);
	vf_cover("far plane");
}

//@ scope=five_tetrahedra_and_three_faces_of_the_surface
VF_HARNESS(C15_far_space)
{
	Mesh m; bool turned = vf_choose("turned", 2) == 1, swapped = vf_choose("swapped", 2) == 1;
	build(m, 3, { { 2, 3, 4, 6 }, { 0, 1, 2, 3 }, { 8, 9, 10, 11 }, { 2, 3, 4, 7 }, { 1, 2, 3, 5 } }, { { 1, 2, 3 }, { 0, 3, 2 }, { 0, 1, 3 }, { 0, 2, 1 } }, turned, swapped);
	boundary(m, { 0, 1, 2 }, 1, false); boundary(m, { 2, 1, 3 }, 2, turned); boundary(m, { 4, 2, 3 }, 2, turned); boundary(m, { 8, 9, 10 }, 2, turned); boundary(m, { 9, 10, 11 }, 3, false);
	double* at = vf_real_array("at", 36, -2, 2);
	m.vert.resize(36); for (int i = 0; i < 36; i++) m.vert[i] = at[i]; m.NumOfVertices = 12;
	m.SetAttributes();
	Array<int> marker(3); marker = 0; marker[1] = 1;
	bool first[3] = { true, true, true };
	for (int k = 0; k < 3; k++) {
		int f = m.bdr_face[1 + k]; if (m.face_e2[f] < 0) continue;
		first[k] = vf_choose("first", 2) == 1;
		double b[3], p[3], q[3];
		for (int d = 0; d < 3; d++) {
			b[d] = ofElement(m, m.face_e2[f], d) - ofElement(m, m.face_e1[f], d);
			p[d] = at[3 * m.face_verts[3 * f + 1] + d] - at[3 * m.face_verts[3 * f] + d]; q[d] = at[3 * m.face_verts[3 * f + 2] + d] - at[3 * m.face_verts[3 * f] + d];
		}
		double side = b[0] * (p[1] * q[2] - p[2] * q[1]) + b[1] * (p[2] * q[0] - p[0] * q[2]) + b[2] * (p[0] * q[1] - p[1] * q[0]);
		vf_requires(first[k] ? side >= 0.0 : side < 0.0);
	}
	farSide(m, marker, first);
	vf_cover("far space");
}
