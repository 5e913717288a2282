// C20: Voronoi edges, distances to them and the potential field.
#include "map_gen.h"
using namespace Planner;
using namespace pbt;
using namespace mapgen;

namespace {
	const float NONE = std::sqrt((double)std::numeric_limits<int>::max());

	struct Stats {
		int edges = 0, missingPairs = 0, pairs = 0;
		double worst = 0;
	};

	/// ids: value of the obstacle of a cell, -1 when free. exact: no cell ever changed its value in place
	template <class Ids>
	void edges(Case& c, const GVD::ObstacleDistanceMap& om, const GVD::VoronoiDistanceMap& vm, const Ids& id, int rows, int cols, float res, bool exact, Stats& st)
	{
		std::vector<RC> e;
		std::vector<char> isEdge(rows * cols, 0);
		bool any = false;
		for (int r = 0; r < rows; r++)
			for (int k = 0; k < cols; k++) {
				if (vm.GetDistanceToNearestVoronoiEdge(r, k) == 0) {
					e.push_back({ r, k });
					isEdge[r * cols + k] = 1;
				}
				any = any || id(r, k) >= 0;
			}
		st.edges = e.size();
		if (!any)
			c.check(e.empty(), "there are ", e.size(), " Voronoi edge cells, the first at (", e.empty() ? 0 : e[0].first, ",", e.empty() ? 0 : e[0].second, "), without any obstacle");
		for (int r = 0; r < rows; r++)
			for (int k = 0; k < cols; k++) {
				float d = vm.GetDistanceToNearestVoronoiEdge(r, k);
				GridCellPosition o = vm.GetNearestVoronoiEdgeCell(r, k);
				c.check(d == vm.GetDistanceToNearestVoronoiEdge(GridCellPosition(r, k)) && o == vm.GetNearestVoronoiEdgeCell(GridCellPosition(r, k)), "the two forms of the query disagree");
				if (e.empty()) {
					c.check(!o.IsValid() && d >= 0.999f * NONE * res, "cell (", r, ",", k, ") is ", d, " away from a Voronoi edge although there is none");
					continue;
				}
				c.check(o.IsValid() && o.row < rows && o.col < cols && isEdge[o.row * cols + o.col], "the nearest Voronoi edge of cell (", r, ",", k, ") is the cell (", o.row, ",", o.col, "), which is not an edge");
				double own = std::hypot(o.row - r, o.col - k), truth = 1e300;
				for (auto& [a, b] : e)
					truth = std::min(truth, std::hypot(a - r, b - k));
				c.check(std::abs(d / res - own) <= 1e-3 * (1 + own), "cell (", r, ",", k, ") is ", d / res, " cells from its nearest edge, which is ", own, " cells away");
				c.check(own - truth <= 0.25, "cell (", r, ",", k, ") is ", truth, " cells from an edge but reported at ", own);
			}
		if (!any)
			return;
		auto touching = [](const GridCellPosition& a, const GridCellPosition& b) { return std::abs(a.row - b.row) <= 1 && std::abs(a.col - b.col) <= 1; };
		auto sq = [](const GridCellPosition& a, int r, int k) { return (a.row - r) * (a.row - r) + (a.col - k) * (a.col - k); };
		for (int r = 0; r < rows; r++)
			for (int k = 0; k < cols; k++) {
				auto os = om.GetNearestObstacleCell(r, k);
				bool justified = false;
				for (int dr = -1; dr <= 1; dr++)
					for (int dk = -1; dk <= 1; dk++) {
						int a = r + dr, b = k + dk;
						if ((!dr && !dk) || a < 0 || b < 0 || a >= rows || b >= cols)
							continue;
						auto on = om.GetNearestObstacleCell(a, b);
						if (id(os.row, os.col) == id(on.row, on.col))
							continue;
						justified = true;
						int ds = sq(os, r, k), dn = sq(on, a, b);
						if ((ds > 1 || dn > 1) && !touching(os, on) && sq(on, r, k) >= ds && sq(os, a, b) >= dn && exact) {
							// the border between the regions of two obstacles runs between these cells
							st.pairs++;
							c.check(isEdge[r * cols + k] || isEdge[a * cols + b], "no Voronoi edge between the cells (", r, ",", k, ") and (", a, ",", b, "), which are nearest to the different obstacles ", id(os.row, os.col), " and ", id(on.row, on.col));
						}
					}
				if (isEdge[r * cols + k] && exact)
					c.check(justified, "cell (", r, ",", k, ") is a Voronoi edge but all its neighbours are nearest to the same obstacle");
				if (isEdge[r * cols + k])
					c.check(id(r, k) < 0, "the occupied cell (", r, ",", k, ") is a Voronoi edge");
			}
	}

	/// Rectangular and single-cell obstacles set and cleared cell by cell.
	void cells(Src& s, Case& c)
	{
		int rows = s.size(2, 24), cols = s.size(2, 24);
		auto grid = makeRef<Grid<int>>(rows, cols, -1);
		float res = s.oneOf<float>({ 1.0f, 0.1f });
		GVD::ObstacleDistanceMap om(grid, res);
		Ref<GVD::VoronoiDistanceMap> vm;
		bool late = s.chance(1, 3);
		if (!late)
			vm = om.GetVoronoiDistanceMap();
		std::vector<std::vector<RC>> blobs;
		int rounds = s.range(1, 6), next = 0, removed = 0;
		std::vector<int> ids;
		Stats st;
		c << rows << "x" << cols << (late ? " late: " : ": ");
		for (int i = 0; i < rounds; i++) {
			int n = s.range(1, 4);
			std::set<RC> freed;
			for (int q = 0; q < n; q++) {
				if (!blobs.empty() && s.chance(2, 5)) {
					int k = s.range(0, blobs.size() - 1);
					c << "-" << ids[k] << " ";
					for (auto& [a, b] : blobs[k]) {
						(*grid)[a][b] = -1;
						om.UnsetObstacle({ a, b });
						freed.insert({ a, b });
					}
					blobs.erase(blobs.begin() + k);
					ids.erase(ids.begin() + k);
					removed++;
					continue;
				}
				int r = s.range(0, rows - 1), k = s.range(0, cols - 1), h = s.chance(1, 2) ? 1 : s.range(1, 4), w = s.chance(1, 2) ? 1 : s.range(1, 4);
				std::vector<RC> b;
				for (int a = r; a < std::min(rows, r + h); a++)
					for (int d = k; d < std::min(cols, k + w); d++)
						if ((*grid)[a][d] < 0 && !freed.count({ a, d }))
							b.push_back({ a, d });
				if (b.empty())
					continue;
				c << "+" << next << "@" << r << "," << k << ":" << h << "x" << w << " ";
				for (auto& [a, d] : b) {
					(*grid)[a][d] = next;
					om.SetObstacle({ a, d });
				}
				blobs.push_back(b);
				ids.push_back(next++);
			}
			om.Update();
			if (late && i == 0)
				vm = om.GetVoronoiDistanceMap(), om.Update();
			c << "; ";
			if (vm) {
				vm->Update();
				edges(c, om, *vm, [&](int a, int b) { return (*grid)[a][b]; }, rows, cols, res, true, st);
			}
		}
		c.label("edges", st.edges > 0);
		c.label("removed", removed > 0);
		c.label("late", late);
		c.nontrivial(st.edges > 3);
	}

	void field(Case& c, const GVD& gvd, OccupancyMap& map, Src& s, double w, double h, Point2d origin)
	{
		const double alpha = 20, dMax = 30;
		for (int r = 0; r < map.Rows(); r++)
			for (int k = 0; k < map.Columns(); k++) {
				double o = gvd.GetDistanceToNearestObstacle(r, k), v = gvd.GetDistanceToNearestVoronoiEdge(r, k);
				double expect = o >= dMax ? 0 : alpha / (alpha + o) * (v / (o + v)) * (o - dMax) * (o - dMax) / (dMax * dMax);
				float cost = gvd.GetPathCost(r, k);
				bool none = !gvd.GetNearestVoronoiEdgeCell(r, k).IsValid();
				c.check(std::abs(cost - expect) <= 1e-4 || (none && cost == 0), "the path cost of cell (", r, ",", k, ") at distance ", o, " from obstacles and ", v, " from edges is ", cost, " instead of ", expect);
				c.check(cost >= 0 && cost <= 1 + 1e-5, "the path cost of cell (", r, ",", k, ") is ", cost);
				c.check(cost == gvd.GetPathCost(GridCellPosition(r, k)), "the two forms of the query disagree");
			}
		for (int q = 0; q < 12; q++) {
			Point2d p(s.uniform(-0.7, 0.7) * w + origin.x(), s.uniform(-0.7, 0.7) * h + origin.y()), at;
			auto cell = map.WorldPositionToGridCell(p, false);
			bool in = cell.row >= 0 && cell.col >= 0 && cell.row < map.Rows() && cell.col < map.Columns();
			float d = -7, cost = -7;
			c.check(gvd.GetDistanceToNearestVoronoiEdge(p, d) == in && gvd.GetPathCost(p, cost) == in && gvd.GetNearestVoronoiEdgePosition(p, at) == in, "the potential field is ", in ? "not " : "", "available ", in ? "inside" : "outside", " the map");
			if (!in)
				continue;
			c.check(d == gvd.GetDistanceToNearestVoronoiEdge(cell), "the distance to edges at a position is ", d, ", not that of its cell");
			c.check(cost == gvd.GetPathCost(cell), "the path cost at a position is ", cost, ", not that of its cell");
			auto near = gvd.GetNearestVoronoiEdgeCell(cell);
			if (near.IsValid())
				c.check(map.WorldPositionToGridCell(at + Point2d(0.3 * map.resolution, 0.3 * map.resolution), false) == near || map.WorldPositionToGridCell(at - Point2d(0.3 * map.resolution, 0.3 * map.resolution), false) == near, "the nearest edge position is not in the nearest edge cell");
		}
	}

	void obstacles(Src& s, Case& c)
	{
		float res = s.oneOf<float>({ 1.0f, 0.5f, 2.0f, 0.1f });
		double w = (s.range(6, 28) - 0.25) * res, h = (s.range(6, 28) - 0.25) * res;
		auto map = makeRef<ObstacleListOccupancyMap>(res);
		map->InitializeSize((float)w, (float)h);
		Point2d origin(s.signedMag(10), s.signedMag(10));
		map->SetPosition(origin);
		const int rows = map->Rows(), cols = map->Columns();
		Ref<GVD> gvd;
		int lateAt = s.chance(1, 3) ? 1 : 0;
		std::vector<std::pair<MadeObstacle, std::set<RC>>> present;
		int rounds = s.size(1, 6), removed = 0;
		bool overlap = s.chance(1, 4), exact = !overlap;
		double half = 0.5 * std::max(w, h);
		Stats st;
		c << rows << "x" << cols << (lateAt ? " late: " : ": ");
		std::set<RC> taken;
		for (int i = 0; i < rounds; i++) {
			if (i == lateAt)
				gvd = makeRef<GVD>(map);
			int n = s.range(1, 3);
			std::set<RC> freed;
			for (int q = 0; q < n; q++) {
				if (!present.empty() && s.chance(2, 5)) {
					int k = s.range(0, present.size() - 1);
					map->RemoveObstacle(present[k].first.obstacle);
					c << "remove " << present[k].first.shape.kind << "; ";
					for (auto& x : present[k].second)
						freed.insert(x);
					present.erase(present.begin() + k);
					removed++;
				} else {
					MadeObstacle o = obstacle(s, half, std::max(w, h) * s.oneOf<double>({ 0.1, 0.3, 0.6 }));
					o.pose.position += origin;
					o.obstacle->SetPose(o.pose);
					std::set<RC> mine;
					bool clash = false;
					for (auto& k : o.obstacle->GetBoundaryGridCellPosition(*map))
						mine.insert({ k.row, k.col }), clash = clash || map->IsOccupied(k) || freed.count({ k.row, k.col });
					if (clash && !overlap)
						continue;
					c << "add " << o.shape.kind;
					int m = 0;
					for (auto& [a, b] : mine)
						if (m++ < 12)
							c << " " << a << "," << b;
					c << "; ";
					map->AddObstacle(o.obstacle);
					present.push_back({ o, mine });
				}
			}
			if (!gvd || s.boolean())
				map->Update();
			c << "update; ";
			if (!gvd)
				continue;
			gvd->Update();
			edges(c, *map->GetObstacleDistanceMap(), *map->GetObstacleDistanceMap()->GetVoronoiDistanceMap(), [&](int a, int b) { return map->GetOccupancyValue(a, b); }, rows, cols, res, exact, st);
			field(c, *gvd, *map, s, w, h, origin);
			if (s.chance(1, 3)) {
				gvd->Update();
				Stats again;
				edges(c, *map->GetObstacleDistanceMap(), *map->GetObstacleDistanceMap()->GetVoronoiDistanceMap(), [&](int a, int b) { return map->GetOccupancyValue(a, b); }, rows, cols, res, exact, again);
				c.check(again.edges == st.edges, "an update without changes changes the edges");
			}
		}
		c.label("edges", st.edges > 0);
		c.label("removed", removed > 0);
		c.label("late", lateAt && rounds > 1);
		c.nontrivial(st.edges > 3);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C20";
	p.rule = "(1) grids up to 24x24 with blocks of cells set and cleared over up to six rounds, (2) maps up to 28x28 with obstacles of every shape added and removed over up to six rounds, the diagram created before the obstacles or after the first update; after every update every cell and every pair of neighbouring cells is compared with the nearest obstacles and a brute-force search over the edge cells. Non-trivial: more than three edge cells.";
	p.assumptions = { "edge cells are those at distance zero from an edge", "where the placement of edges is compared with the regions of the obstacles, no two obstacles share cells and no cell changes owner within one update", "distances to edges may exceed the true ones by up to 0.25 cells", "without any edge the cost may be zero or that of an edge infinitely far away" };
	p.laws = {
		{ "cells", 8000, cells },
		{ "obstacles", 4000, obstacles },
	};
	return p;
}
