// C19: distances to obstacles follow every history of obstacle changes.
#include "map_gen.h"
using namespace Planner;
using namespace pbt;
using namespace mapgen;

namespace {
	const float NONE = std::sqrt((double)std::numeric_limits<int>::max());

	template <class Occ>
	void compare(Case& c, const GVD::ObstacleDistanceMap& map, const Occ& occupied, int rows, int cols, float res, double& worst)
	{
		std::vector<RC> obst;
		for (int r = 0; r < rows; r++)
			for (int k = 0; k < cols; k++)
				if (occupied(r, k))
					obst.push_back({ r, k });
		for (int r = 0; r < rows; r++)
			for (int k = 0; k < cols; k++) {
				float d = map.GetDistanceToNearestObstacle(r, k);
				GridCellPosition o = map.GetNearestObstacleCell(r, k);
				c.check(d == map.GetDistanceToNearestObstacle(GridCellPosition(r, k)) && o == map.GetNearestObstacleCell(GridCellPosition(r, k)), "the two forms of the query disagree");
				if (obst.empty()) {
					c.check(!o.IsValid(), "cell (", r, ",", k, ") has a nearest obstacle although there is none");
					c.check(d >= 0.999f * NONE * res, "cell (", r, ",", k, ") is ", d, " away from an obstacle although there is none");
					continue;
				}
				long best = std::numeric_limits<long>::max();
				for (auto& [a, b] : obst)
					best = std::min(best, (long)(a - r) * (a - r) + (long)(b - k) * (b - k));
				double truth = std::sqrt((double)best);
				c.check(o.IsValid() && o.row < rows && o.col < cols && occupied(o.row, o.col), "the nearest obstacle of cell (", r, ",", k, ") is the cell (", o.row, ",", o.col, "), which is not occupied");
				double own = std::hypot(o.row - r, o.col - k);
				c.check(std::abs(d / res - own) <= 1e-3 * (1 + own), "cell (", r, ",", k, ") is ", d / res, " cells from its nearest obstacle, which is ", own, " cells away");
				worst = std::max(worst, own - truth);
				c.check(own - truth <= 0.25, "cell (", r, ",", k, ") is ", truth, " cells from an obstacle but reported at ", own);
				if (best <= 2)
					c.check(std::abs(own - truth) < 1e-6, "cell (", r, ",", k, ") next to an obstacle is reported ", own, " cells away");
			}
		c.evals(rows * cols);
	}

	void cells(Src& s, Case& c)
	{
		int rows = s.size(1, 40), cols = s.size(1, 40);
		float res = s.oneOf<float>({ 1.0f, 0.1f, 2.5f });
		auto grid = makeRef<Grid<int>>(rows, cols, -1);
		GVD::ObstacleDistanceMap map(grid, res);
		Ref<GVD::VoronoiDistanceMap> voro;
		int rounds = s.size(1, 8), removed = 0, added = 0;
		double worst = 0;
		c << rows << "x" << cols;
		compare(c, map, [&](int r, int k) { return (*grid)[r][k] >= 0; }, rows, cols, res, worst);
		for (int i = 0; i < rounds; i++) {
			if (!voro && s.chance(1, 5))
				voro = map.GetVoronoiDistanceMap();
			int mode = s.range(0, 5), n = mode == 0 ? 1 : mode == 1 ? s.range(1, 40) : s.range(1, 6);
			c << (i ? "; " : ": ");
			for (int q = 0; q < n; q++) {
				int r = s.range(0, rows - 1), k = s.range(0, cols - 1);
				int& v = (*grid)[r][k];
				bool set = mode == 4 ? false : mode == 5 ? v < 0 : s.chance(2, 3);
				if (mode == 4 || mode == 5) {
					// pick an occupied cell when there is one
					for (int t = 0; t < rows * cols && (*grid)[r][k] < 0; t++)
						k = (k + 1) % cols, r = k == 0 ? (r + 1) % rows : r;
				}
				int& w = (*grid)[r][k];
				if (mode == 5)
					set = w < 0;
				if (set) {
					if (w >= 0 && !s.chance(1, 3))
						continue;
					c << "+" << r << "," << k << " ";
					w = s.range(0, 3);
					map.SetObstacle({ r, k });
					added++;
				} else if (w >= 0) {
					c << "-" << r << "," << k << " ";
					w = -1;
					map.UnsetObstacle({ r, k });
					removed++;
				}
			}
			map.Update();
			if (voro && s.boolean())
				voro->Update();
			compare(c, map, [&](int r, int k) { return (*grid)[r][k] >= 0; }, rows, cols, res, worst);
		}
		c.label("removed", removed > 0);
		c.label("distance not exact", worst > 1e-6);
		c.label("overestimated by more than 0.05 cells", worst > 0.05);
		c.label("with Voronoi map", voro != nullptr);
		c.nontrivial(added >= 2 && rows > 2 && cols > 2);
	}

	/// Few obstacles far apart with many ties; most are exchanged in one update.
	void wedges(Src& s, Case& c)
	{
		int rows = s.range(8, 40), cols = s.range(8, 40);
		auto grid = makeRef<Grid<int>>(rows, cols, -1);
		GVD::ObstacleDistanceMap map(grid, 1.0f);
		double worst = 0;
		std::vector<RC> cells;
		auto put = [&](int r, int k) {
			if (r < 0 || k < 0 || r >= rows || k >= cols || (*grid)[r][k] >= 0)
				return;
			c << "+" << r << "," << k << " ";
			(*grid)[r][k] = cells.size();
			map.SetObstacle({ r, k });
			cells.push_back({ r, k });
		};
		int rounds = s.range(1, 4);
		c << rows << "x" << cols << ": ";
		for (int i = 0; i < rounds; i++) {
			int r = s.range(0, rows - 1), k = s.range(0, cols - 1), d = s.range(1, 3);
			bool across = s.boolean();
			int n = s.range(1, 3);
			for (int q = 0; q < n; q++)
				put(across ? r + q * d : r, across ? k : k + q * d);
			map.Update();
			// exchange
			size_t out = s.range(0, std::min<int>(3, cells.size()));
			for (size_t q = 0; q < out; q++) {
				size_t at = s.range(0, cells.size() - 1);
				auto [a, b] = cells[at];
				cells.erase(cells.begin() + at);
				(*grid)[a][b] = -1;
				c << "-" << a << "," << b << " ";
				map.UnsetObstacle({ a, b });
			}
			int in = s.range(0, 3);
			for (int q = 0; q < in; q++)
				put(s.range(0, rows - 1), s.range(0, cols - 1));
			c << "; ";
			map.Update();
			compare(c, map, [&](int r, int k) { return (*grid)[r][k] >= 0; }, rows, cols, 1.0f, worst);
		}
		c.nontrivial(cells.size() >= 2);
	}

	/// Large maps with few obstacles, compared at sampled cells.
	void large(Src& s, Case& c)
	{
		int rows = s.range(150, 1000), cols = s.range(1, 4) == 1 ? s.range(1, 30) : s.range(150, 700);
		if (s.boolean())
			std::swap(rows, cols);
		float res = s.oneOf<float>({ 1.0f, 0.1f });
		auto grid = makeRef<Grid<int>>(rows, cols, -1);
		GVD::ObstacleDistanceMap map(grid, res);
		std::vector<RC> obst;
		int rounds = s.range(1, 2), removed = 0;
		double far = 0;
		for (int i = 0; i < rounds; i++) {
			for (int q = i ? s.range(0, (int)obst.size()) : 0; q > 0 && obst.size() > 1; q--) {
				int k = s.range(0, obst.size() - 1);
				(*grid)[obst[k].first][obst[k].second] = -1;
				map.UnsetObstacle({ obst[k].first, obst[k].second });
				obst.erase(obst.begin() + k);
				removed++;
			}
			int n = s.range(1, 5);
			for (int q = 0; q < n; q++) {
				int r = s.range(0, rows - 1), k = s.range(0, cols - 1);
				if (s.chance(1, 3))
					r = s.boolean() ? 0 : rows - 1, k = s.boolean() ? 0 : cols - 1;
				if ((*grid)[r][k] >= 0)
					continue;
				(*grid)[r][k] = q;
				map.SetObstacle({ r, k });
				obst.push_back({ r, k });
			}
			map.Update();
			for (int q = 0; q < 400; q++) {
				int r = s.range(0, rows - 1), k = s.range(0, cols - 1);
				if (q < 4)
					r = q & 1 ? rows - 1 : 0, k = q & 2 ? cols - 1 : 0;
				double best = 1e300;
				for (auto& [a, b] : obst)
					best = std::min(best, std::hypot(a - r, b - k));
				GridCellPosition o = map.GetNearestObstacleCell(r, k);
				c.check(o.IsValid() && o.row < rows && o.col < cols && (*grid)[o.row][o.col] >= 0, "the nearest obstacle of cell (", r, ",", k, ") is the cell (", o.row, ",", o.col, "), which is not occupied");
				double own = std::hypot(o.row - r, o.col - k), d = map.GetDistanceToNearestObstacle(r, k) / res;
				c.check(std::abs(d - own) <= 1e-3 * (1 + own), "cell (", r, ",", k, ") is ", d, " cells from its nearest obstacle, which is ", own, " cells away");
				c.check(own - best <= 0.5, "cell (", r, ",", k, ") is ", best, " cells from an obstacle but reported at ", own);
				far = std::max(far, own);
			}
		}
		c << rows << "x" << cols << ", " << obst.size() << " obstacles, up to " << far << " cells away";
		c.label("removed", removed > 0);
		c.nontrivial(far > 256);
	}

	void obstacles(Src& s, Case& c)
	{
		float res = s.oneOf<float>({ 1.0f, 0.5f, 0.1f });
		double w = s.range(6, 30) - 0.25, h = s.range(6, 30) - 0.25;
		if (s.chance(1, 8))
			(s.boolean() ? w : h) = s.range(1, 3) - 0.25; // a strip of one to three cells
		auto map = makeRef<ObstacleListOccupancyMap>(res);
		map->InitializeSize((float)(w * res), (float)(h * res));
		Point2d origin(s.signedMag(10), s.signedMag(10));
		map->SetPosition(origin);
		const int rows = map->Rows(), cols = map->Columns();
		Ref<GVD> gvd;
		std::vector<MadeObstacle> present, absent;
		int rounds = s.size(1, 8), removed = 0;
		c << rows << "x" << cols << ": ";
		auto describe = [&](const MadeObstacle& o) {
			std::ostringstream out;
			out << o.shape.kind;
			int n = 0;
			for (auto& k : o.obstacle->GetBoundaryGridCellPosition(*map))
				if (n++ < 40)
					out << " " << k.row << "," << k.col;
			return out.str();
		};
		double worst = 0, half = 0.5 * std::max(w, h) * res;
		for (int i = 0; i < rounds; i++) {
			if (!gvd && s.chance(1, 4))
				gvd = makeRef<GVD>(map);
			int n = s.range(1, 3);
			for (int q = 0; q < n; q++) {
				if (!present.empty() && s.chance(2, 5)) {
					int k = s.range(0, present.size() - 1);
					map->RemoveObstacle(present[k].obstacle);
					c << "remove " << describe(present[k]) << "; ";
					absent.push_back(present[k]);
					present.erase(present.begin() + k);
					removed++;
				} else if (!absent.empty() && s.boolean()) {
					Pose2d p = poseIn(s, half);
					p.position += origin;
					absent.back().obstacle->SetPose(p);
					map->AddObstacle(absent.back().obstacle);
					c << "add " << describe(absent.back()) << "; ";
					present.push_back(absent.back());
					absent.pop_back();
				} else {
					MadeObstacle o = obstacle(s, half, std::max(w, h) * res * s.oneOf<double>({ 0.1, 0.4, 1.0 }));
					o.pose.position += origin;
					o.obstacle->SetPose(o.pose);
					map->AddObstacle(o.obstacle);
					c << "add " << describe(o) << "; ";
					present.push_back(o);
				}
			}
			if (gvd && s.boolean())
				gvd->Update();
			else
				map->Update();
			c << "update; ";
			compare(c, *map->GetObstacleDistanceMap(), [&](int r, int k) { return map->IsOccupied({ r, k }); }, rows, cols, res, worst);
			if (gvd)
				for (int q = 0; q < 20; q++) {
					Point2d p(s.uniform(-0.7, 0.7) * w * res + origin.x(), s.uniform(-0.7, 0.7) * h * res + origin.y()), at;
					auto cell = map->WorldPositionToGridCell(p, false);
					float d = -7;
					bool in = cell.row >= 0 && cell.col >= 0 && cell.row < rows && cell.col < cols;
					c.check(gvd->GetDistanceToNearestObstacle(p, d) == in, "the distance to obstacles is ", in ? "not " : "", "available ", in ? "inside" : "outside", " the map");
					c.check(gvd->GetNearestObstaclePosition(p, at) == in, "the nearest obstacle is ", in ? "not " : "", "available ", in ? "inside" : "outside", " the map");
					if (!in)
						continue;
					c.check(d == map->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(cell) && d == gvd->GetDistanceToNearestObstacle(cell) && d == gvd->GetDistanceToNearestObstacle(cell.row, cell.col), "the distance at a position is ", d, ", not that of its cell");
					auto near = gvd->GetNearestObstacleCell(cell);
					c.check(near == map->GetObstacleDistanceMap()->GetNearestObstacleCell(cell) && near == gvd->GetNearestObstacleCell(cell.row, cell.col), "the nearest obstacle cells disagree");
					if (near.IsValid()) {
						auto back = map->WorldPositionToGridCell(at + Point2d(0.5 * res, 0.5 * res), false);
						bool same = back == near || map->WorldPositionToGridCell(at + Point2d(0.1 * res, 0.1 * res), false) == near;
						c.check(same, "the nearest obstacle position (", at.x(), ",", at.y(), ") is not in the nearest obstacle cell (", near.row, ",", near.col, ")");
					}
				}
		}
		c.label("removed", removed > 0);
		c.label("through the GVD", gvd != nullptr);
		c.nontrivial(rounds >= 2);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C19";
	p.rule = "(1) grids up to 40x40 with up to eight rounds of setting, setting again and clearing single cells (alone, many, toggled, all of them) followed by an update, and sparse rows of obstacles exchanged within one update; (2) maps up to 30x30 (strips of one to three cells among them) with up to eight rounds of adding, removing and moving obstacles of every shape, updated through the map or the GVD; (3) maps up to 1000x700 with a few obstacles, 400 cells sampled; after every update every cell is compared with a brute-force search over the occupied cells. Non-trivial: two cells set on a grid larger than 2x2; two cells left after an exchange; two rounds; a cell more than 256 cells from its obstacle.";
	p.assumptions = { "the brushfire distance of a cell may exceed the true one by up to 0.25 cells (0.5 on maps of more than 150 cells; it is exact within one cell of an obstacle)", "a map without obstacles reports at least 46340 cells" };
	p.laws = {
		{ "cells", 12000, cells },
		{ "wedges", 8000, wedges },
		{ "obstacles", 5000, obstacles },
		{ "large", 40, large },
	};
	return p;
}
