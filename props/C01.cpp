// C01: grid search finds the cheapest legal path whenever one exists.
#include "algo/a_star_n2.h"
#include "core/base.h"
#include "grid_gen.h"

using namespace Planner;
using namespace pbt;
using namespace gridgen;

namespace {
	struct Costs {
		int style = 0;
		double scale = 1;
		std::vector<std::vector<double>> terrain;
		double operator()(const GridCellPosition& a, const GridCellPosition& b) const
		{
			double len = std::sqrt((double)((a.row - b.row) * (a.row - b.row) + (a.col - b.col) * (a.col - b.col)));
			if (style == 0)
				return scale * len;
			if (style == 1) // entering terrain
				return scale * len * terrain[b.row][b.col];
			// direction dependent: climbing rows costs more
			return scale * len * (b.row > a.row ? 1.0 + terrain[b.row][b.col] : 1.0);
		}
	};

	std::string cellStr(const GridCellPosition& c) { return "(" + std::to_string(c.row) + "," + std::to_string(c.col) + ")"; }

	void grid(Src& s, Case& c)
	{
		struct World {
			int R, C, hStyle;
			Ref<CellMap> map;
			std::shared_ptr<Costs> costs;
			std::function<double(const GridCellPosition&, const GridCellPosition&)> hFcn;
			Ref<AStarStatePropagatorFcnN2> propagator;
			Ref<AStarHeuristicFcnN2> heuristic;
		};
		auto make = [&]() {
			World w;
			w.R = s.size(1, 20), w.C = s.size(1, 20);
			w.map = makeRef<CellMap>(w.R, w.C);
			fill(s, w.map->occ);
			auto costs = w.costs = std::make_shared<Costs>();
			costs->style = s.range(0, 2);
			costs->scale = s.oneOf<double>({ 1.0, 0.5, 3.0 });
			costs->terrain.assign(w.R, std::vector<double>(w.C, 1.0));
			const double grain = s.oneOf<double>({ 4, 4, 1 << 22 }); // or moves whose costs nearly tie
			if (costs->style != 0)
				for (auto& row : costs->terrain)
					for (auto& v : row)
						v = 1.0 + s.draw(20) / grain;
			std::function<double(const GridCellPosition&, const GridCellPosition&)> costFcn = [costs](const GridCellPosition& a, const GridCellPosition& b) { return (*costs)(a, b); };
			int hStyle = w.hStyle = s.range(0, 2);
			double k = costs->scale;
			w.hFcn = [hStyle, k](const GridCellPosition& a, const GridCellPosition& b) -> double {
				double dr = std::abs(a.row - b.row), dc = std::abs(a.col - b.col);
				if (hStyle == 0)
					return 0.0;
				if (hStyle == 1)
					return k * std::sqrt(dr * dr + dc * dc);
				return k * (std::max(dr, dc) + (std::sqrt(2.0) - 1) * std::min(dr, dc));
			};
			w.propagator = makeRef<AStarStatePropagatorFcnN2>(w.map, costFcn);
			w.heuristic = makeRef<AStarHeuristicFcnN2>(w.hFcn);
			c << w.R << "x" << w.C << " cost" << costs->style << " h" << hStyle << " " << show(w.map->occ);
			return w;
		};
		World w = make();
		AStarN2 algo;
		if (s.chance(1, 8)) {
			// Not initialised (or initialised with nothing): must fail cleanly
			if (s.boolean())
				c.check(!algo.Initialize(nullptr, w.heuristic), "initialising without a propagator is accepted");
			c.check(algo.SearchPath() == Status::Failure, "an uninitialised search reports success");
			c.check(algo.GetPath().empty(), "an uninitialised search has a path");
		}
		c.check(algo.Initialize(w.propagator, w.heuristic), "Initialize refused valid arguments");

		int queries = s.range(1, 4);
		for (int q = 0; q < queries; q++) {
			if (q > 0 && s.chance(1, 8)) {
				// another map
				c << "; ";
				w = make();
				c.check(algo.Initialize(w.propagator, w.heuristic), "Initialize refused valid arguments");
				c.label("initialised again");
			}
			const int R = w.R, C = w.C, hStyle = w.hStyle;
			auto &map = w.map;
			auto &costs = w.costs;
			auto &hFcn = w.hFcn;
			if (q > 0 && s.chance(1, 3)) {
				// The map changes between searches
				int n = s.range(1, 4);
				for (int i = 0; i < n; i++) {
					int r = s.range(0, R - 1), col = s.range(0, C - 1);
					map->occ[r][col] = s.boolean();
				}
				c.label("map changed between searches");
			}
			GridCellPosition init(s.range(0, R - 1), s.range(0, C - 1)), goal(s.range(0, R - 1), s.range(0, C - 1));
			// an occupied initial cell may be left
			if (s.chance(7, 8))
				map->occ[init.row][init.col] = 0;
			c.label("initial cell occupied", map->occ[init.row][init.col]);
			algo.SetInitState(init);
			algo.SetGoalState(goal);
			Status st = algo.SearchPath();
			auto path = algo.GetPath();
			double cost = algo.GetOptimalCost();
			auto ref = distances(map->occ, init, *costs);
			double best = ref[goal.row][goal.col];
			bool reachable = best < std::numeric_limits<double>::infinity();
			c << " " << cellStr(init) << "->" << cellStr(goal);
			c.label(reachable ? (init == goal ? "init equals goal" : "reachable") : "unreachable");
			c.nontrivial(reachable && path.size() > 3);
			c.check(reachable == (st == Status::Success), "search ", st == Status::Success ? "succeeded" : "failed", " from ", cellStr(init), " to ", cellStr(goal), " but the goal is ", reachable ? "reachable" : "unreachable");
			if (!reachable) {
				c.nontrivial(R * C > 4);
				c.check(path.empty(), "failed search left a path of ", path.size(), " cells");
				c.check(cost == std::numeric_limits<double>::infinity(), "failed search reports cost ", cost);
				continue;
			}
			c.check(!path.empty() && path.front() == init, "path does not start at the initial cell");
			c.check(path.back() == goal, "path does not end at the goal cell");
			double sum = 0;
			for (size_t i = 1; i < path.size(); i++) {
				c.check(legal(map->occ, path[i - 1], path[i]), "illegal move ", cellStr(path[i - 1]), "->", cellStr(path[i]));
				sum += (*costs)(path[i - 1], path[i]);
			}
			c.check(std::abs(sum - cost) <= 1e-9 * (1 + sum), "reported cost ", cost, " but the moves of the path cost ", sum);
			c.check(std::abs(cost - best) <= 1e-9 * (1 + best), "cost ", cost, " is not the minimum ", best);
			// A detour forced by obstacles
			c.label("detour", best > hFcn(init, goal) * (1 + 1e-9) && hStyle != 0);
		}
	}

	/// Maps with thousands of cells, among them long corridors.
	void large(Src& s, Case& c)
	{
		int R = s.range(40, 220), C = s.range(40, 220);
		auto map = makeRef<CellMap>(R, C);
		int kind = s.range(0, 2), step = s.range(2, 9);
		if (kind == 0) {
			// a corridor that winds through the whole map
			for (int r = 1; r < R; r += step)
				for (int k = 0; k < C; k++)
					map->occ[r][k] = (r / step) % 2 ? k != 0 : k != C - 1;
		} else if (kind == 1) {
			int pct = s.range(5, 45);
			uint64_t seed = s.draw(0xffffffff);
			for (int r = 0; r < R; r++)
				for (int k = 0; k < C; k++)
					map->occ[r][k] = mix(seed + r * 1000 + k) % 100 < (unsigned)pct;
		}
		std::function<double(const GridCellPosition&, const GridCellPosition&)> cost = [](const GridCellPosition& a, const GridCellPosition& b) { return a.row == b.row || a.col == b.col ? 1.0 : std::sqrt(2.0); };
		std::function<double(const GridCellPosition&, const GridCellPosition&)> h = [](const GridCellPosition& a, const GridCellPosition& b) { return std::hypot(a.row - b.row, a.col - b.col); };
		GridCellPosition init(0, 0), goal(R - 1, kind == 0 ? s.range(0, C - 1) : C - 1);
		map->occ[init.row][init.col] = 0;
		size_t longest = 0;
		{
			AStarN2 algo;
			algo.Initialize(makeRef<AStarStatePropagatorFcnN2>(map, cost), makeRef<AStarHeuristicFcnN2>(h));
			for (int q = 0; q < 2; q++) {
				algo.SetInitState(init);
				algo.SetGoalState(goal);
				Status st = algo.SearchPath();
				double best = distances(map->occ, init, cost)[goal.row][goal.col];
				c.check((best < 1e300) == (st == Status::Success), "the search ", st == Status::Success ? "succeeds" : "fails", " but the goal is ", best < 1e300 ? "reachable" : "unreachable");
				auto path = algo.GetPath();
				c.check(path.empty() == !(best < 1e300), "the path has ", path.size(), " cells");
				if (best < 1e300) {
					c.check(path.front() == init && path.back() == goal, "the path does not join the initial cell to the goal");
					double sum = 0;
					for (size_t i = 1; i < path.size(); i++) {
						c.check(legal(map->occ, path[i - 1], path[i]), "illegal move ", cellStr(path[i - 1]), "->", cellStr(path[i]));
						sum += cost(path[i - 1], path[i]);
					}
					c.check(std::abs(sum - best) <= 1e-9 * best && std::abs(algo.GetOptimalCost() - best) <= 1e-9 * (1 + best), "the path costs ", sum, " and is reported as ", algo.GetOptimalCost(), ", the minimum is ", best);
				}
				longest = std::max(longest, path.size());
				std::swap(init, goal);
				if (map->occ[init.row][init.col])
					break;
			}
		}
		c << R << "x" << C << (kind == 0 ? " winding corridor" : kind == 1 ? " random" : " empty") << ", path of " << longest << " cells";
		c.label("path of more than 1000 cells", longest > 1000);
		c.nontrivial(longest > 50);
	}

	/// The neighbourhood the grid search is built on.
	void neighbors(Src& s, Case& c)
	{
		int R = s.size(1, 12), C = s.size(1, 12);
		// a cell that may lie outside of the grid on the far side, or be invalid
		int r = s.range(-1, R - 1), k = s.range(-1, C - 1);
		GridCellPosition cell(r, k);
		auto n = cell.GetNeighbors(R, C);
		c << R << "x" << C << " " << cellStr(cell) << " " << n.size() << " neighbours";
		std::set<std::pair<int, int>> got;
		for (auto& x : n)
			c.check(got.insert({ x.row, x.col }).second, "neighbour listed twice ", cellStr(x));
		std::set<std::pair<int, int>> want;
		if (r >= 0 && k >= 0)
			for (int dr = -1; dr <= 1; dr++)
				for (int dc = -1; dc <= 1; dc++)
					if ((dr || dc) && r + dr >= 0 && r + dr < R && k + dc >= 0 && k + dc < C)
						want.insert({ r + dr, k + dc });
		c.check(got == want, "neighbours of ", cellStr(cell), " in ", R, "x", C, ": ", got.size(), " instead of ", want.size());
		c.nontrivial(want.size() >= 3);
		c.label(want.size() == 8 ? "interior" : "border");
		if (r >= 0 && k >= 0) {
			GridCellPosition o(s.range(0, R - 1), s.range(0, C - 1));
			int dr = std::abs(o.row - r), dc = std::abs(o.col - k);
			bool adj = std::max(dr, dc) == 1;
			c.check(cell.IsAdjacentTo(o) == adj && o.IsAdjacentTo(cell) == adj, "adjacency of ", cellStr(cell), " and ", cellStr(o));
			if (adj)
				c.check(cell.IsDiagonalTo(o) == (dr == 1 && dc == 1), "diagonality of ", cellStr(cell), " and ", cellStr(o));
			c.check((cell == o) == (dr == 0 && dc == 0) && (cell != o) == !(cell == o), "equality of ", cellStr(cell), " and ", cellStr(o));
			GridCellPosition copy(o.row, o.col);
			c.check(std::hash<GridCellPosition>()(copy) == std::hash<GridCellPosition>()(o), "equal cells hash differently");
		}
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C01";
	p.rule = "random occupancy grids (empty, random density, walls with gaps, checkerboards, segments), terrain / direction-dependent move costs, zero / euclidean / octile heuristics, 1-4 searches per planner (one in eight may start on an occupied cell) with map edits or another map in between; oracle: independent Dijkstra over the legal moves. Non-trivial: reachable with a path of more than 3 cells, or unreachable in a grid of more than 4 cells; for the neighbourhood law at least 3 neighbours; large: maps of up to 220x220 cells with winding corridors, a path of more than 50 cells.";
	p.assumptions = { "move costs are non-negative and the heuristic is consistent" };
	p.laws = {
		{ "grid_search", 150000, grid },
		{ "large", 60, large, false, 60, 20, false },
		{ "neighbours", 40000, neighbors },
	};
	return p;
}
