// C10: placing and merging sparse blocks (components/DGOperatorFactory.h)
#include "verif.h"
#include "components/Material.cpp"
#include "components/Model.cpp"
#include "components/SubMesher.cpp"
#include "evolution/MaxwellEvolutionMethods.cpp"
#include "evolution/HesthavenEvolutionMethods.cpp"
#include "components/DGOperatorFactory.h"

using namespace maxwell;
using namespace mfem;

static const int R = 4, C = 4;
// a finalized block of two rows and two columns; the pattern says which entries are stored, and in which order
static SparseMatrix* block(int pattern)
{
	double a = vf_real("a", -2, 2), b = vf_real("b", -2, 2), c = vf_real("c", -2, 2);
	int* I = new int[3]; int* J = new int[4]; double* A = new double[4];
	I[0] = 0;
	if (pattern == 0) { I[1] = 2; I[2] = 3; J[0] = 0; J[1] = 1; J[2] = 0; A[0] = a; A[1] = b; A[2] = c; }
	if (pattern == 1) { I[1] = 0; I[2] = 2; J[0] = 1; J[1] = 0; A[0] = a; A[1] = b; }
	if (pattern == 2) { I[1] = 1; I[2] = 1; J[0] = 1; A[0] = a; }
	return new SparseMatrix(I, J, A, 2, 2);
}
static double entry(const SparseMatrix& m, int r, int c)
{
	if (r < 0 || r >= m.Height() || c < 0 || c >= m.Width()) return 0.0;
	double s = 0.0;
	for (int k = m.GetI()[r]; k < m.GetI()[r + 1]; k++) if (m.GetJ()[k] == c) s += m.GetData()[k];
	return s;
}
static void wellFormed(const SparseMatrix& m, int rows, int cols)
{
	vf_ensures(m.Height() == rows && m.Width() == cols, "the merged operator has the requested size");
	for (int r = 0; r < rows; r++) {
		vf_ensures(m.GetI()[r] <= m.GetI()[r + 1], "rows are consecutive");
		for (int k = m.GetI()[r]; k < m.GetI()[r + 1]; k++) {
			vf_ensures(m.GetJ()[k] >= 0 && m.GetJ()[k] < cols, "columns are inside the operator");
			for (int q = m.GetI()[r]; q < k; q++) vf_ensures(m.GetJ()[q] != m.GetJ()[k], "no column appears twice in a row");
		}
	}
	vf_ensures(m.GetI()[0] == 0, "rows are consecutive");
}

static void merged(int n, const int* pat, const int* ro, const int* co)
{
	std::vector<CSRBlockPlacement> blocks;
	std::vector<SparseMatrix*> given; double sign[3];
	for (int b = 0; b < n; b++) {
		sign[b] = vf_real("sign", -2, 2);
		given.push_back(block(pat[b]));
		CSRBlockPlacement p; p.block = std::make_unique<SparseMatrix>(*given[b]); p.rowOffset = ro[b]; p.colOffset = co[b]; p.sign = sign[b];
		blocks.push_back(std::move(p));
	}
	auto m = mergeBlocksToCSR(blocks, R, C);
	wellFormed(*m, R, C);
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) {
		double want = 0.0;
		for (int b = 0; b < n; b++) want += sign[b] * entry(*given[b], r - ro[b], c - co[b]);
		vf_ensures_near(entry(*m, r, c), want, 1e-12, "every entry is the signed sum of the blocks over it");
	}
	vf_cover("merged");
}

//@ scope=two_blocks_of_two_by_two_in_four_by_four deadline=240
VF_HARNESS(C10_merge_two)
{
	int pat[2], ro[2], co[2];
	for (int b = 0; b < 2; b++) { pat[b] = vf_choose("pattern", 3); ro[b] = vf_choose("row", 3); co[b] = vf_choose("column", 3); }
	vf_requires(ro[0] <= 1 && co[0] <= 1);
	merged(2, pat, ro, co);
}

//@ scope=three_blocks_of_two_by_two_in_four_by_four deadline=240
VF_HARNESS(C10_merge_three)
{
	int pat[3], ro[3], co[3];
	for (int b = 0; b < 3; b++) { pat[b] = vf_choose("pattern", 2); ro[b] = vf_choose("row", 2); co[b] = vf_choose("column", 2); }
	vf_requires(ro[0] == 0 && co[2] == 1);
	merged(3, pat, ro, co);
}

//@ scope=no_blocks
VF_HARNESS(C10_merge_none)
{
	std::vector<CSRBlockPlacement> blocks;
	auto m = mergeBlocksToCSR(blocks, R, C);
	wellFormed(*m, R, C);
	vf_ensures(m->GetI()[R] == 0, "without blocks the operator is empty");
	vf_cover("none");
}

// what is collected for the merge is the block itself at the requested place
//@ scope=blocks_of_two_by_two
VF_HARNESS(C10_collect)
{
	SparseMatrix* blk = block(vf_choose("pattern", 3));
	int n = vf_int("n", 1, 3), h = vf_int("h", 0, 2); vf_requires(n >= 1 && h >= 0 && n < 1000000 && h < 1000000);
	int f = vf_choose("f", 2), d = vf_choose("d", 3), g = vf_choose("g", 2), e = vf_choose("e", 3);
	GlobalIndices ids(n, h, false);
	double sign = vf_real("sign", -2, 2);
	std::vector<CSRBlockPlacement> blocks;
	collectBlockPlacement(*blk, blocks, std::make_pair(*ids.offsets[FieldType(f)][d].get(), *ids.offsets[FieldType(g)][e].get()), sign);
	vf_ensures(blocks.size() == 1, "one block is collected");
	vf_ensures(blocks[0].rowOffset == (3 * f + d) * n, "the block keeps its row offset");
	vf_ensures(blocks[0].colOffset == (3 * g + e) * (n + h), "the block keeps its column offset");
	vf_ensures(blocks[0].sign == sign, "the block keeps its sign");
	vf_ensures(blocks[0].block.get() != blk, "the block is copied");
	for (int r = 0; r < 2; r++) for (int c = 0; c < 2; c++) vf_ensures(entry(*blocks[0].block, r, c) == entry(*blk, r, c), "the entries of the block are copied");
	vf_cover("collect");
}

//@ scope=blocks_of_two_by_two_in_four_by_four
VF_HARNESS(C10_add_block)
{
	SparseMatrix* blk = block(vf_choose("pattern", 3));
	SparseMatrix dst(R, C); double before[R][C];
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) { before[r][c] = (r + c) % 2 ? vf_real("before", -2, 2) : 0.0; if ((r + c) % 2) dst.Add(r, c, before[r][c]); }
	int ro = vf_choose("row", 3), co = vf_choose("column", 3); double sign = vf_real("sign", -2, 2);
	FieldOffsets rows(1, 0, E, X, true), cols(1, 0, E, X, true); rows.rowStartOffset = ro; rows.rowEndOffset = ro + 2; rows.colStartOffset = 0; rows.colEndOffset = 2;
	cols.rowStartOffset = 0; cols.rowEndOffset = 2; cols.colStartOffset = co; cols.colEndOffset = co + 2;
	loadBlockInGlobalAtIndices(*blk, dst, std::make_pair(rows, cols), sign);
	dst.Finalize();
	wellFormed(dst, R, C);
	for (int r = 0; r < R; r++) for (int c = 0; c < C; c++) {
		double add = entry(*blk, r - ro, c - co);
		vf_ensures_near(entry(dst, r, c), before[r][c] + sign * add, 1e-12, "exactly the entries under the block change, by the block times the sign");
	}
	vf_cover("add block");
}
