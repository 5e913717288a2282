// C03: bidirectional search agrees with the one-directional optimum.
#include "core/base.h"
#include "algo/a_star_n2.h"
#include "graph_gen.h"
#include "grid_gen.h"

using namespace Planner;
using namespace pbt;

namespace {
	struct Act {
		int id = 0;
	};
	using Algo = BidirectionalAStar<int, Act>;

	class Prop : public AStarStatePropagator<int, Act> {
	public:
		const std::vector<std::vector<graphgen::Edge>>* adj = nullptr;
		uint64_t calls = 0, limit = 0;
		virtual std::vector<std::tuple<int, Act, double>> GetNeighborStates(const int& s) override
		{
			if (++calls > limit)
				throw pbt::Failure { "the search does not terminate: " + std::to_string(calls) + " expansions" };
			std::vector<std::tuple<int, Act, double>> v;
			for (auto& e : (*adj)[s])
				v.push_back({ e.to, Act { e.action }, e.w });
			return v;
		}
	};

	/// h(state) = table[goal][state]
	class TableH : public AStarConcreteHeuristic<int> {
	public:
		const std::vector<std::vector<double>>* t;
		TableH(const std::vector<std::vector<double>>* t) :
			t(t) { m_goal = 0; }
		virtual double GetHeuristicValue(const int& s) override { return (*t)[m_goal][s]; }
	};
	/// Fixed potential (a consistent pair is p and K - p)
	class PotH : public AStarConcreteHeuristic<int> {
	public:
		std::vector<double> p;
		PotH(const std::vector<double>& p) :
			p(p) { }
		virtual double GetHeuristicValue(const int& s) override { return p[s]; }
	};

	void graphs(Src& s, Case& c)
	{
		struct World {
			graphgen::Graph g;
			std::vector<std::vector<graphgen::Edge>> in;
			std::vector<std::vector<double>> toGoal, fromGoal, ht, hr;
			double maxd = 0, capd = 0;
			int hk = 0;
			Ref<Prop> fp, rp;
			Ref<AStarHeuristic<int>> hF, hR;
		};
		// usually one; a planner may be initialised again for another
		int nw = s.chance(1, 4) ? 2 : 1;
		std::vector<std::unique_ptr<World>> worlds;
		for (int i = 0; i < nw; i++) {
			worlds.push_back(std::make_unique<World>());
			World& w = *worlds.back();
			auto& g = w.g = graphgen::make(s, 40, false, true);
			w.in = g.in();
			for (int v = 0; v < g.n; v++) {
				w.toGoal.push_back(graphgen::dijkstra(w.in, v));
				w.fromGoal.push_back(graphgen::dijkstra(g.out, v));
				for (double d : w.toGoal.back())
					if (d < 1e300)
						w.maxd = std::max(w.maxd, d);
			}
			w.fp = makeRef<Prop>(), w.rp = makeRef<Prop>();
			w.fp->adj = &g.out;
			w.rp->adj = &w.in;

			// Heuristic pair
			w.hk = s.range(0, 3);
			double f = s.oneOf<double>({ 0.0, 0.3, 0.7, 1.0 });
			w.capd = s.uniform(0, 1) * w.maxd;
			auto bounded = [&](double d) { return f * std::min(d < 1e300 ? d : w.maxd + 1, w.capd); };
			w.ht = w.toGoal, w.hr = w.fromGoal;
			for (auto& r : w.ht)
				for (auto& d : r)
					d = bounded(d);
			// the two heuristics of a pair need not be alike
			if (s.boolean()) {
				f = s.oneOf<double>({ 0.0, 0.5, 0.9, 1.0 });
				w.capd = std::max(w.capd, s.uniform(0, 1) * w.maxd);
			}
			for (auto& r : w.hr)
				for (auto& d : r)
					d = bounded(d);
			if (w.hk == 0) {
				w.hF = makeRef<PotH>(std::vector<double>(g.n, 0.0));
				w.hR = makeRef<PotH>(std::vector<double>(g.n, 0.0));
			} else if (w.hk == 1) {
				// consistent pair built by hand from a landmark
				int lm = s.range(0, g.n - 1);
				double K = s.oneOf<double>({ 0.0, 1.0, 10.0 });
				std::vector<double> p(g.n), q(g.n);
				for (int v = 0; v < g.n; v++) {
					p[v] = w.ht[lm][v];
					q[v] = K - p[v];
				}
				w.hF = makeRef<PotH>(p);
				w.hR = makeRef<PotH>(q);
			} else {
				Ref<AStarHeuristic<int>> a = makeRef<TableH>(&w.ht), b = makeRef<TableH>(&w.hr);
				std::tie(w.hF, w.hR) = Algo::GetAverageHeuristicPair(a, b);
			}
			c << (i ? "; " : "") << "n=" << g.n << " h=" << w.hk;
		}
		Algo algo;
		if (s.chance(1, 8)) {
			// not initialised, or without a heuristic or propagator: must fail cleanly
			int missing = s.range(0, 4);
			if (missing)
				c.check(!algo.Initialize(missing == 1 ? nullptr : worlds[0]->fp, missing == 2 ? nullptr : worlds[0]->rp, missing == 3 ? nullptr : worlds[0]->hF, missing == 4 ? nullptr : worlds[0]->hR), "Initialize accepts incomplete arguments");
			c.check(algo.SearchPath() == Status::Failure, "an uninitialised search reports success");
			c.check(algo.GetPath().empty(), "an uninitialised search has a path");
			c.label("not initialised first");
		}
		auto initialize = [&](World& w) { c.check(algo.Initialize(w.fp, w.rp, w.hF, w.hR), "Initialize refused valid arguments"); };
		int now = 0;
		initialize(*worlds[0]);
		int queries = s.range(1, 3) + nw - 1;
		for (int k = 0; k < queries; k++) {
			if (k && nw > 1 && s.chance(2, 3)) {
				now = 1 - now;
				initialize(*worlds[now]);
				c << " [" << now << "]";
				c.label("initialised again");
			}
			World& w = *worlds[now];
			auto &g = w.g;
			auto &toGoal = w.toGoal, &fromGoal = w.fromGoal;
			auto &fp = w.fp, &rp = w.rp;
			auto &hF = w.hF, &hR = w.hR;
			const int hk = w.hk;
			const double maxd = w.maxd, capd = w.capd;
			int a = s.range(0, g.n - 1), b = s.range(0, g.n - 1);
			fp->calls = rp->calls = 0;
			fp->limit = rp->limit = 2 * g.n + 2;
			algo.SetInitState(a);
			algo.SetGoalState(b);
			Status st = algo.SearchPath();
			double best = toGoal[b][a];
			bool reachable = best < 1e300;
			auto path = algo.GetPath();
			if (hk >= 2) {
				// the averaged heuristics estimate the cost of this search
				double tol = g.tolerance(capd + maxd);
				c.check(std::abs(hF->GetHeuristicValue(b)) <= tol, "the averaged heuristic of the forward search is ", hF->GetHeuristicValue(b), " at the goal");
				c.check(std::abs(hR->GetHeuristicValue(a)) <= tol, "the averaged heuristic of the reverse search is ", hR->GetHeuristicValue(a), " at the initial state");
				double sum = hF->GetHeuristicValue(a) + hR->GetHeuristicValue(a);
				for (int v = 0; v < g.n; v++) {
					c.check(hF->GetHeuristicValue(v) <= toGoal[b][v] + tol, "the averaged heuristic of state ", v, " is above its distance to the goal");
					c.check(hR->GetHeuristicValue(v) <= fromGoal[a][v] + tol, "the averaged heuristic of state ", v, " is above its distance from the initial state");
					c.check(std::abs(hF->GetHeuristicValue(v) + hR->GetHeuristicValue(v) - sum) <= tol, "the averaged heuristics are no consistent pair at state ", v);
				}
			}
			c << " " << a << "->" << b << (reachable ? "" : "!");
			c.label(reachable ? "reachable" : "unreachable");
			c.check((st == Status::Success) == reachable, "search ", a, "->", b, st == Status::Success ? " succeeded" : " failed", " but the goal is ", reachable ? "reachable" : "unreachable");
			double cost = algo.GetOptimalCost();
			if (!reachable) {
				c.check(path.empty(), "a failed search left a path");
				c.check(cost == std::numeric_limits<double>::infinity(), "a failed search reports cost ", cost);
				continue;
			}
			c.check(!path.empty() && path.front() == a && path.back() == b, "path does not join the initial state to the goal");
			c.nontrivial(path.size() > 2);
			double sum = 0;
			for (size_t i = 0; i + 1 < path.size(); i++) {
				double least = std::numeric_limits<double>::infinity();
				for (auto& e : g.out[path[i]])
					if (e.to == path[i + 1])
						least = std::min(least, e.w);
				c.check(least < 1e300, "no transition from ", path[i], " to ", path[i + 1], " (position ", i, " of the path)");
				sum += least;
			}
			double tol = g.tolerance(best + capd);
			c.check(std::abs(cost - best) <= tol, "cost ", cost, " from ", a, " to ", b, " is not the minimum ", best);
			c.check(std::abs(sum - best) <= tol, "the path costs ", sum, " but the minimum is ", best);
			c.label("average pair", hk >= 2);
			c.label("hand-built pair", hk == 1);
		}
	}

	void grids(Src& s, Case& c)
	{
		using namespace gridgen;
		int R = s.size(1, 18), C = s.size(1, 18);
		auto map = makeRef<CellMap>(R, C);
		fill(s, map->occ);
		auto euclid = [](const GridCellPosition& a, const GridCellPosition& b) { return std::sqrt((double)((a.row - b.row) * (a.row - b.row) + (a.col - b.col) * (a.col - b.col))); };
		std::function<double(const GridCellPosition&, const GridCellPosition&)> fcn = euclid;
		Ref<AStarStatePropagator<GridCellPosition, NullAction>> fp = makeRef<AStarStatePropagatorFcnN2>(map, fcn), rp = makeRef<AStarStatePropagatorFcnN2>(map, fcn);
		std::function<double(const GridCellPosition&, const GridCellPosition&)> hf = euclid;
		if (s.chance(1, 4))
			hf = [](const GridCellPosition&, const GridCellPosition&) { return 0.0; };
		Ref<AStarHeuristic<GridCellPosition>> h1 = makeRef<AStarHeuristicFcnN2>(hf), h2 = makeRef<AStarHeuristicFcnN2>(hf);
		if (s.chance(1, 5))
			h2 = h1; // as in the shipped example
		auto [hF, hR] = BidirectionalAStarN2::GetAverageHeuristicPair(h1, h2);
		BidirectionalAStarN2 algo;
		algo.Initialize(fp, rp, hF, hR);
		c << R << "x" << C << " " << show(map->occ);
		int queries = s.range(1, 3);
		for (int q = 0; q < queries; q++) {
			GridCellPosition init(s.range(0, R - 1), s.range(0, C - 1)), goal(s.range(0, R - 1), s.range(0, C - 1));
			map->occ[init.row][init.col] = map->occ[goal.row][goal.col] = 0;
			algo.SetInitState(init);
			algo.SetGoalState(goal);
			Status st = algo.SearchPath();
			auto path = algo.GetPath();
			auto ref = distances(map->occ, init, euclid);
			double best = ref[goal.row][goal.col];
			bool reachable = best < 1e300;
			c << " (" << init.row << "," << init.col << ")->(" << goal.row << "," << goal.col << ")";
			c.label(reachable ? "reachable" : "unreachable");
			c.check((st == Status::Success) == reachable, "search ", st == Status::Success ? "succeeded" : "failed", " but the goal is ", reachable ? "reachable" : "unreachable");
			if (!reachable) {
				c.check(path.empty(), "a failed search left a path");
				continue;
			}
			c.nontrivial(path.size() > 3);
			c.check(!path.empty() && path.front() == init && path.back() == goal, "path does not join the initial cell to the goal");
			double sum = 0;
			for (size_t i = 1; i < path.size(); i++) {
				c.check(legal(map->occ, path[i - 1], path[i]), "illegal move at position ", i, " of the path");
				sum += euclid(path[i - 1], path[i]);
			}
			c.check(std::abs(algo.GetOptimalCost() - best) <= 1e-9 * (1 + best), "cost ", algo.GetOptimalCost(), " is not the minimum ", best);
			c.check(std::abs(sum - best) <= 1e-9 * (1 + best), "the path costs ", sum, " but the minimum is ", best);
		}
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C03";
	p.rule = "random directed weighted graphs and occupancy grids; zero, hand-built consistent and averaged heuristic pairs; 1-4 searches per planner, which may be initialised again for another graph in between; oracle: Dijkstra and validity of every transition of the returned path. Non-trivial: a solution of more than two states (graphs) or three cells (grids).";
	p.assumptions = { "edge costs are non-negative", "the reverse propagator generates exactly the reversed transitions", "the heuristics form a consistent pair (or are averaged from consistent ones)" };
	p.laws = {
		{ "graphs", 100000, graphs },
		{ "grids", 60000, grids },
	};
	return p;
}
