// C23: grids and grid cells.
#include "core/base.h"
#include "pbt.h"
#include <set>
#include <string>
#include <vector>
#include "utils/grid.h"
#include <stdexcept>
#include <unordered_set>
using namespace Planner;
using namespace pbt;

namespace {
	using RC = std::pair<int, int>;
	void cells(Src& s, Case& c)
	{
		int rows = s.range(1, 9), cols = s.range(1, 9);
		int r = s.range(0, rows - 1), k = s.range(0, cols - 1);
		c << rows << "x" << cols << " cell (" << r << "," << k << ")";
		GridCellPosition p(r, k);
		std::set<RC> expect, got;
		for (int a = r - 1; a <= r + 1; a++)
			for (int b = k - 1; b <= k + 1; b++)
				if ((a != r || b != k) && a >= 0 && a < rows && b >= 0 && b < cols)
					expect.insert({ a, b });
		auto nb = p.GetNeighbors(rows, cols);
		for (auto& n : nb)
			got.insert({ n.row, n.col });
		c.check(got == expect && nb.size() == expect.size(), "the cell has ", nb.size(), " neighbours, expected ", expect.size());
		Grid<int> g(rows, cols, 0);
		std::set<RC> viaGrid;
		auto gn = g.GetNeighbors(p);
		for (auto& n : gn)
			viaGrid.insert({ n.row, n.col });
		c.check(viaGrid == expect && gn.size() == expect.size(), "the grid gives other neighbours than the cell");
		std::unordered_set<GridCellPosition> set;
		for (int a = 0; a < rows; a++)
			for (int b = 0; b < cols; b++) {
				GridCellPosition q(a, b);
				bool adj = expect.count({ a, b }) > 0, same = a == r && b == k;
				c.check(p.IsAdjacentTo(q) == adj && q.IsAdjacentTo(p) == adj, "(", r, ",", k, ") and (", a, ",", b, ") adjacency");
				c.check(p.IsDiagonalTo(q) == (a != r && b != k), "(", r, ",", k, ") and (", a, ",", b, ") diagonal");
				c.check((p == q) == same && (p != q) == !same, "cell comparison");
				if (same)
					c.check(std::hash<GridCellPosition>()(p) == std::hash<GridCellPosition>()(q), "equal cells have different hashes");
				set.insert(q);
				set.insert(GridCellPosition(a, b));
			}
		c.check((int)set.size() == rows * cols, "a hash set of cells merges or duplicates cells");
		// invalid cells
		GridCellPosition none, bad(s.range(-3, -1), k), bad2(r, s.range(-3, -1));
		c.check(!none.IsValid() && !bad.IsValid() && !bad2.IsValid() && p.IsValid(), "cell validity");
		c.check(none.GetNeighbors(rows, cols).empty() && bad.GetNeighbors(rows, cols).empty() && bad2.GetNeighbors(rows, cols).empty(), "an invalid cell has neighbours");
		// ordering of valued cells
		int v1 = s.range(-3, 3), v2 = s.range(-3, 3);
		GridCell<int> x(p, v1), y(GridCellPosition(0, 0), v2);
		c.check((x < y) == (v1 < v2) && (x > y) == (v1 > v2), "valued cells are not ordered by value");
		c.nontrivial(rows > 1 && cols > 1);
	}

	void largeCells(Src& s, Case& c)
	{
		int rows = s.range(1, 100000), cols = s.range(1, 100000);
		int r = s.chance(1, 4) ? rows - 1 : s.range(0, rows - 1), k = s.chance(1, 4) ? cols - 1 : s.range(0, cols - 1);
		c << rows << "x" << cols << " cell (" << r << "," << k << ")";
		GridCellPosition p(r, k);
		std::set<RC> expect, got;
		for (int a = r - 1; a <= r + 1; a++)
			for (int b = k - 1; b <= k + 1; b++)
				if ((a != r || b != k) && a >= 0 && a < rows && b >= 0 && b < cols)
					expect.insert({ a, b });
		for (auto& n : p.GetNeighbors(rows, cols)) {
			got.insert({ n.row, n.col });
			c.check(p.IsAdjacentTo(n) && n.IsAdjacentTo(p) && p.IsDiagonalTo(n) == (n.row != r && n.col != k), "a neighbour is not adjacent");
		}
		c.check(got == expect, "the cell has ", got.size(), " neighbours, expected ", expect.size());
		std::unordered_set<GridCellPosition> set;
		std::set<RC> ref;
		for (int i = 0; i < 40; i++) {
			GridCellPosition q(s.range(0, rows - 1), s.range(0, cols - 1));
			if (s.chance(1, 4))
				q = GridCellPosition(r, q.col);
			if (s.chance(1, 4))
				q = GridCellPosition(q.row, k);
			bool same = q.row == r && q.col == k, near = std::abs(q.row - r) <= 1 && std::abs(q.col - k) <= 1 && !same;
			c.check((p == q) == same && (p != q) == !same && p.IsAdjacentTo(q) == near && p.IsDiagonalTo(q) == (q.row != r && q.col != k), "cells (", r, ",", k, ") and (", q.row, ",", q.col, ")");
			set.insert(q);
			ref.insert({ q.row, q.col });
		}
		c.check(set.size() == ref.size(), "a hash set of cells merges or duplicates cells");
		c.nontrivial(rows > 300 || cols > 300);
	}

	void largeStorage(Src& s, Case& c)
	{
		int rows = s.range(1, 900), cols = s.range(1, 900);
		if (s.chance(1, 4))
			cols = s.range(60000, 70000), rows = s.range(1, 4);
		c << "grid " << rows << "x" << cols;
		Grid<int> g(rows, cols, -3);
		std::map<RC, int> ref;
		int n = s.range(1, 200);
		for (int i = 0; i < n; i++) {
			int a = s.chance(1, 5) ? rows - 1 : s.range(0, rows - 1), b = s.chance(1, 5) ? cols - 1 : s.range(0, cols - 1);
			g[a][b] = i;
			ref[{ a, b }] = i;
		}
		long written = 0;
		for (int a = 0; a < rows; a++)
			for (int b = 0; b < cols; b++)
				if (g[a][b] != -3) {
					auto it = ref.find({ a, b });
					c.check(it != ref.end() && it->second == g[a][b], "cell (", a, ",", b, ") holds ", g[a][b]);
					written++;
				}
		c.check(written == (long)ref.size(), "only ", written, " of ", ref.size(), " written cells are found");
		c.nontrivial((long)rows * cols > 65536);
	}

	void storage(Src& s, Case& c)
	{
		int rows = s.range(-1, 12), cols = s.range(-1, 12);
		c << "grid " << rows << "x" << cols;
		if (rows <= 0 || cols <= 0) {
			bool thrown = false;
			try {
				Grid<double> g(rows, cols, 1.0);
			} catch (const std::invalid_argument&) {
				thrown = true;
			}
			c.check(thrown, "an invalid grid size is not refused");
			return;
		}
		double init = s.range(-5, 5);
		Grid<double> g(rows, cols, init);
		std::vector<double> ref(rows * cols, init);
		c.check(g.rows == rows && g.columns == cols, "grid size");
		int n = s.size(0, 60);
		for (int i = 0; i < n; i++) {
			int a = s.range(0, rows - 1), b = s.range(0, cols - 1);
			double v = s.range(0, 1000);
			g[a][b] = v;
			ref[a * cols + b] = v;
		}
		for (int a = 0; a < rows; a++)
			for (int b = 0; b < cols; b++)
				c.check(g[a][b] == ref[a * cols + b], "cell (", a, ",", b, ") holds ", g[a][b], " instead of ", ref[a * cols + b]);
		Grid<std::string> gs(rows, cols, "x");
		gs[rows - 1][cols - 1] = "last";
		gs[0][0] = "first";
		c.check(gs[0][0] == "first" && (rows * cols == 1 || gs[rows - 1][cols - 1] == "last"), "grids of strings");
		c.nontrivial(n > 2 && rows != cols);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C23";
	p.rule = "every cell of random grids up to 9x9 against the definition of the 8-neighbourhood; random writes to grids up to 12x12 against a flat array; non-positive sizes; grids up to 100000 cells wide. Non-trivial: at least two rows and columns; more than two writes to a non-square grid.";
	p.laws = {
		{ "cells", 40000, cells },
		{ "storage", 40000, storage },
		{ "large_cells", 20000, largeCells },
		{ "large_storage", 200, largeStorage },
	};
	return p;
}
