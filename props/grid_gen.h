// Random occupancy grids and reference grid shortest paths.
#pragma once
#include "pbt.h"
#include "state_validator/occupancy_map.h"
#include <queue>

namespace gridgen {
	using namespace Planner;

	/// Occupancy map whose cells the test sets directly.
	class CellMap : public OccupancyMap {
	public:
		CellMap(int rows, int cols) :
			OccupancyMap(1.0f), occ(rows, std::vector<char>(cols, 0))
		{
			InitializeSize((float)rows, (float)cols);
		}
		virtual bool IsOccupied(const GridCellPosition& c) override { return occ.at(c.row).at(c.col) != 0; }
		std::vector<std::vector<char>> occ;
	};

	inline void fill(pbt::Src& s, std::vector<std::vector<char>>& occ)
	{
		int R = occ.size(), C = occ[0].size();
		switch (s.range(0, 4)) {
		case 0:
			break;
		case 1: { // random density
			int pct = s.range(1, 60);
			for (auto& row : occ)
				for (auto& v : row)
					v = (int)s.draw(99) >= 100 - pct;
			break;
		}
		case 2: { // walls with one gap, alternating: long detours
			int step = s.range(2, 4);
			for (int r = 1; r < R; r += step) {
				int gap = s.range(0, C - 1);
				for (int c = 0; c < C; c++)
					occ[r][c] = c != gap;
			}
			break;
		}
		case 3: { // diagonal-contact patterns
			for (int r = 0; r < R; r++)
				for (int c = 0; c < C; c++)
					occ[r][c] = ((r + c) % 2 == 0) && s.chance(3, 4);
			break;
		}
		default: { // segments
			int k = s.range(1, 6);
			for (int i = 0; i < k; i++) {
				int r = s.range(0, R - 1), c = s.range(0, C - 1), len = s.range(1, 10);
				bool vert = s.boolean();
				for (int j = 0; j < len; j++) {
					int rr = r + (vert ? j : 0), cc = c + (vert ? 0 : j);
					if (rr < R && cc < C)
						occ[rr][cc] = 1;
				}
			}
		}
		}
	}

	inline std::string show(const std::vector<std::vector<char>>& occ)
	{
		std::string o;
		for (auto& row : occ) {
			for (auto v : row)
				o += v ? '#' : '.';
			o += '/';
		}
		return o;
	}

	/// Legal move on the grid: into a free neighbouring cell, not squeezing
	/// diagonally between two occupied cells.
	inline bool legal(const std::vector<std::vector<char>>& occ, GridCellPosition a, GridCellPosition b)
	{
		int R = occ.size(), C = occ[0].size();
		if (b.row < 0 || b.row >= R || b.col < 0 || b.col >= C)
			return false;
		int dr = std::abs(a.row - b.row), dc = std::abs(a.col - b.col);
		if (dr > 1 || dc > 1 || (dr == 0 && dc == 0))
			return false;
		if (occ[b.row][b.col])
			return false;
		if (dr == 1 && dc == 1 && occ[a.row][b.col] && occ[b.row][a.col])
			return false;
		return true;
	}

	template <typename Cost>
	std::vector<std::vector<double>> distances(const std::vector<std::vector<char>>& occ, GridCellPosition s, Cost cost)
	{
		int R = occ.size(), C = occ[0].size();
		std::vector<std::vector<double>> d(R, std::vector<double>(C, std::numeric_limits<double>::infinity()));
		using Q = std::tuple<double, int, int>;
		std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
		d[s.row][s.col] = 0;
		q.push({ 0.0, s.row, s.col });
		while (!q.empty()) {
			auto [c, r, k] = q.top();
			q.pop();
			if (c > d[r][k])
				continue;
			for (int dr = -1; dr <= 1; dr++)
				for (int dc = -1; dc <= 1; dc++) {
					GridCellPosition a(r, k), b(r + dr, k + dc);
					if (!legal(occ, a, b))
						continue;
					double nc = c + cost(a, b);
					if (nc < d[b.row][b.col]) {
						d[b.row][b.col] = nc;
						q.push({ nc, b.row, b.col });
					}
				}
		}
		return d;
	}
}
