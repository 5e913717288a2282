// C02: the generic best-first search is optimal and complete on any weighted
// directed graph, for consistent (graph search) or admissible (tree search)
// heuristics.
#include "core/base.h"
#include "algo/a_star.h"
#include "graph_gen.h"
#include <map>

using namespace Planner;
using namespace pbt;
using namespace graphgen;

namespace {
	/// Search state: only `id` takes part in equality; `payload` must be carried along.
	struct St {
		int id = -1;
		int payload = 0;
	};
	struct HashSt {
		std::size_t operator()(const St& s) const { return (std::size_t)(s.id % 7); } // many collisions
	};
	struct EqSt {
		bool operator()(const St& a, const St& b) const { return a.id == b.id; }
	};
	struct Act {
		int id = 0;
	};

	class Prop : public AStarStatePropagator<St, Act> {
	public:
		const Graph* g = nullptr;
		std::map<int, int> expanded;
		uint64_t calls = 0, limit = 0;
		virtual std::vector<std::tuple<St, Act, double>> GetNeighborStates(const St& s) override
		{
			expanded[s.id]++;
			if (++calls > limit)
				throw pbt::Failure { "the search does not terminate: " + std::to_string(calls) + " expansions" };
			if (s.payload != s.id * 31 + 5)
				throw pbt::Failure { "the state handed to the expansion is not one the graph produced" };
			std::vector<std::tuple<St, Act, double>> v;
			for (auto& e : g->out[s.id])
				v.push_back({ St { e.to, e.to * 31 + 5 }, Act { e.action }, e.w });
			return v;
		}
	};

	using Table = std::vector<std::vector<double>>; // [goal][state]

	/// Heuristic on St from a table, remembers the goal it was given.
	class TableH : public AStarConcreteHeuristic<St> {
	public:
		const Table* t;
		TableH(const Table* t) :
			t(t) { }
		virtual double GetHeuristicValue(const St& s) override { return (*t)[m_goal.id][s.id]; }
	};
	/// The same on plain integers, to be used through the adapter.
	class IntH : public AStarConcreteHeuristic<int> {
	public:
		const Table* t;
		IntH(const Table* t) :
			t(t) { m_goal = 0; }
		virtual double GetHeuristicValue(const int& s) override { return (*t)[m_goal][s]; }
	};
	struct ToInt {
		int operator()(const St& s) { return s.id; }
	};

	/// Consistent heuristics for every goal, derived from true distances.
	Table makeTable(Src& s, const Graph& g, const std::vector<std::vector<double>>& toGoal, bool consistent, int& style)
	{
		style = s.range(0, consistent ? 3 : 4);
		double maxd = 0;
		for (auto& r : toGoal)
			for (double d : r)
				if (d < 1e300)
					maxd = std::max(maxd, d);
		Table t(g.n, std::vector<double>(g.n, 0.0));
		double f = s.oneOf<double>({ 0.5, 0.9, 1.0 });
		double capd = s.uniform(0, 1) * maxd;
		// lowering a heuristic by a constant keeps it admissible and consistent
		double offset = s.chance(1, 4) ? -(double)s.range(1, 20) * (g.nearTies ? 1 << 20 : 1) / 4 : 0;
		std::vector<double> noise(g.n);
		if (style == 4)
			for (auto& v : noise)
				v = s.draw(4) / 4.0;
		for (int goal = 0; goal < g.n; goal++)
			for (int u = 0; u < g.n; u++) {
				double d = toGoal[goal][u];
				// unreachable states: any finite constant at least the largest distance keeps consistency
				double dd = d < 1e300 ? d : maxd + 1;
				switch (style) {
				case 0:
					t[goal][u] = 0;
					break;
				case 1:
					t[goal][u] = f * dd;
					break;
				case 2:
					t[goal][u] = std::min(dd, capd);
					break;
				case 3:
					t[goal][u] = 0.999 * std::min(dd, capd);
					break;
				default: // admissible but not consistent
					t[goal][u] = dd * noise[u];
				}
				t[goal][u] += offset;
			}
		return t;
	}

	template <bool GraphSearch, typename Explored>
	void run(Src& s, Case& c)
	{
		using Algo = AStar<St, Act, HashSt, EqSt, GraphSearch, Explored>;
		struct World {
			Graph g;
			std::vector<std::vector<double>> toGoal;
			std::vector<Table> t;
			int st1, st2;
			bool combined = false;
			Ref<AStarHeuristic<St>> h;
			Ref<Prop> prop;
		};
		// usually one; a planner may be initialised again for another
		int n = s.chance(1, 4) ? 2 : 1;
		std::vector<std::unique_ptr<World>> worlds;
		for (int i = 0; i < n; i++) {
			worlds.push_back(std::make_unique<World>());
			World& w = *worlds.back();
			w.g = GraphSearch ? make(s, 40, false, true) : make(s, 12, true, true);
			auto in = w.g.in();
			for (int v = 0; v < w.g.n; v++)
				w.toGoal.push_back(dijkstra(in, v));
			int parts = s.range(2, 5);
			for (int k = 0; k < parts; k++) {
				int style;
				w.t.push_back(makeTable(s, w.g, w.toGoal, GraphSearch, style));
				(k ? w.st2 : w.st1) = style;
			}
			int hk = s.range(0, 3);
			w.combined = hk % 2;
			// the parts of a combination are added one by one, or together
			auto fill = [&](auto& comb, auto make) {
				if (parts == 2 && s.boolean())
					comb->Add(make(0), make(1));
				else if (parts == 3 && s.boolean())
					comb->Add(make(0), make(1), make(2));
				else
					for (int k = 0; k < parts; k++)
						comb->Add(make(k));
			};
			if (hk == 0)
				w.h = makeRef<TableH>(&w.t[0]);
			else if (hk == 1) {
				auto comb = makeRef<AStarCombinedHeuristic<St>>();
				fill(comb, [&](int k) -> Ref<AStarHeuristic<St>> { return makeRef<TableH>(&w.t[k]); });
				w.h = comb;
			} else if (hk == 2) {
				Ref<AStarHeuristic<int>> ih = makeRef<IntH>(&w.t[0]);
				w.h = makeRef<AStarHeuristicAdapter<St, int, ToInt>>(ih, ToInt());
			} else {
				// combined of adapted
				auto comb = makeRef<AStarCombinedHeuristic<int>>();
				fill(comb, [&](int k) -> Ref<AStarHeuristic<int>> { return makeRef<IntH>(&w.t[k]); });
				Ref<AStarHeuristic<int>> ih = comb;
				w.h = makeRef<AStarHeuristicAdapter<St, int, ToInt>>(ih, ToInt());
			}
			w.prop = makeRef<Prop>();
			w.prop->g = &w.g;
			int m = 0;
			for (auto& o : w.g.out)
				m += o.size();
			c << (i ? "; " : "") << (GraphSearch ? "graph" : "tree") << " n=" << w.g.n << " edges=" << m << " h=" << hk << "/" << w.st1 << "," << w.st2;
		}
		Algo algo;
		int now = 0;
		auto refused = [&](const char* when) {
			int missing = s.range(0, 2);
			if (missing || when)
				c.check(!algo.Initialize(missing != 1 ? nullptr : worlds[0]->prop, missing != 2 ? nullptr : worlds[0]->h), "Initialize accepts incomplete arguments");
			c.check(algo.SearchPath() == Status::Failure, "a search that is not initialised reports success");
			c.label("not initialised");
		};
		if (s.chance(1, 16))
			refused(nullptr);
		c.check(algo.Initialize(worlds[0]->prop, worlds[0]->h), "Initialize refused valid arguments");

		int queries = s.range(1, 3) + n - 1;
		for (int q = 0; q < queries; q++) {
			if (q && n > 1 && s.chance(2, 3)) {
				now = 1 - now;
				c.check(algo.Initialize(worlds[now]->prop, worlds[now]->h), "Initialize refused valid arguments");
				c << " [" << now << "]";
				c.label("initialised again");
			} else if (s.chance(1, 24)) {
				refused("again");
				c.check(algo.Initialize(worlds[now]->prop, worlds[now]->h), "Initialize refused valid arguments");
			}
			World& w = *worlds[now];
			Graph& g = w.g;
			auto& toGoal = w.toGoal;
			auto& prop = w.prop;
			int a = s.range(0, g.n - 1), b = s.range(0, g.n - 1);
			prop->expanded.clear();
			prop->calls = 0;
			prop->limit = GraphSearch ? 2 * g.n + 2 : 2000000;
			algo.SetInitState(St { a, a * 31 + 5 });
			algo.SetGoalState(St { b, b * 31 + 5 });
			Status st = algo.SearchPath();
			double best = toGoal[b][a];
			bool reachable = best < 1e300;
			for (int v = 0; v < g.n; v++) {
				// the heuristic is the one it has been built from, for the goal of this search
				double expected = w.t[0][b][v];
				for (size_t k = 1; w.combined && k < w.t.size(); k++)
					expected = std::max(expected, w.t[k][b][v]);
				double value = w.h->GetHeuristicValue(St { v, v * 31 + 5 });
				c.check(value == expected, "the heuristic of state ", v, " is ", value, ", its parts give ", expected);
			}
			auto path = algo.GetPath();
			auto acts = algo.GetActions();
			c << " " << a << "->" << b << (reachable ? "" : "!");
			c.label(reachable ? "reachable" : "unreachable");
			c.check((st == Status::Success) == reachable, "search ", a, "->", b, (st == Status::Success ? " succeeded" : " failed"), " but the goal is ", reachable ? "reachable" : "unreachable");
			if (GraphSearch)
				for (auto& [id, n] : prop->expanded)
					c.check(n == 1, "state ", id, " expanded ", n, " times");
			if (!reachable) {
				c.check(path.empty() && acts.empty(), "a failed search left a path");
				c.check(algo.GetOptimalCost() == std::numeric_limits<double>::infinity(), "a failed search reports cost ", algo.GetOptimalCost());
				// completeness: everything reachable has been expanded
				continue;
			}
			c.check(!path.empty() && path.front().id == a && path.back().id == b, "path does not join the initial state to the goal");
			c.check(acts.size() + 1 == path.size(), path.size(), " states but ", acts.size(), " actions");
			double sum = 0;
			for (size_t i = 0; i + 1 < path.size(); i++) {
				const Edge* found = nullptr;
				for (auto& e : g.out[path[i].id])
					if (e.action == acts[i].id)
						found = &e;
				c.check(found && found->to == path[i + 1].id, "action ", acts[i].id, " does not lead from ", path[i].id, " to ", path[i + 1].id);
				sum += found->w;
			}
			double cost = algo.GetOptimalCost();
			double tol = g.tolerance(best);
			c.check(std::abs(sum - cost) <= tol, "reported cost ", cost, " but the actions cost ", sum);
			c.check(std::abs(cost - best) <= tol, "cost ", cost, " from ", a, " to ", b, " is not the minimum ", best);
			c.nontrivial(path.size() > 2);
			c.label("informative heuristic", w.st1 != 0);
		}
	}

	/// Long chains of states, with dead ends and detours on the way.
	void chains(Src& s, Case& c)
	{
		struct Chain : AStarStatePropagator<int, Act> {
			int n, side;
			uint64_t seed;
			double w(int i) const { return 1 + mix(seed + i) % 8 / 4.0; }
			std::vector<std::tuple<int, Act, double>> GetNeighborStates(const int& i) override
			{
				std::vector<std::tuple<int, Act, double>> v;
				if (i >= n)
					return v; // dead end
				if (i + 1 < n)
					v.push_back({ i + 1, Act { i }, w(i) });
				if (i + 2 < n && mix(seed ^ i) % side == 0)
					v.push_back({ i + 2, Act { i + n }, w(i) + w(i + 1) + 0.5 }); // a detour
				if (mix(seed ^ i) % side == 1)
					v.push_back({ n + i, Act { i }, 0.25 });
				return v;
			}
		};
		struct Zero : AStarConcreteHeuristic<int> {
			double GetHeuristicValue(const int&) override { return 0; }
		};
		auto g = makeRef<Chain>();
		g->n = s.range(2, s.oneOf<int>({ 2000, 60000, 500000 }));
		g->side = s.range(2, 30);
		g->seed = s.draw(0xffffffff);
		double best = 0;
		for (int i = 0; i + 1 < g->n; i++)
			best += g->w(i);
		c << "chain of " << g->n << " states";
		AStar<int, Act> algo;
		algo.Initialize(g, makeRef<Zero>());
		for (int q = 0; q < 2; q++) {
			algo.SetInitState(0);
			algo.SetGoalState(g->n - 1);
			c.check(algo.SearchPath() == Status::Success, "the search along a chain fails");
			auto path = algo.GetPath();
			c.check((int)path.size() == g->n && (int)algo.GetActions().size() == g->n - 1, "the path has ", path.size(), " states instead of ", g->n);
			for (int i = 0; i < g->n; i++)
				c.check(path[i] == i, "state ", i, " of the path is ", path[i]);
			c.check(std::abs(algo.GetOptimalCost() - best) <= 1e-9 * best, "the cost is ", algo.GetOptimalCost(), " instead of ", best);
		}
		c.nontrivial(g->n > 1000);
	}

	void graphSearch(Src& s, Case& c) { run<true, Explored<St, HashSt, EqSt>>(s, c); }
	void graphSearchMap(Src& s, Case& c) { run<true, ExploredMap<St, Act, HashSt, EqSt>>(s, c); }
	void treeSearch(Src& s, Case& c) { run<false, ExploredVoid<St>>(s, c); }
}

Property pbt::property()
{
	Property p;
	p.id = "C02";
	p.rule = "random directed weighted graphs (sparse, dense, chains with shortcuts, lattices; unit, integer, real and widely spread weights, zero weights, self loops, parallel edges) with colliding hashes and states that carry a payload; consistent heuristics derived from true distances, alone, combined or through the state adapter; 1-4 searches per planner, which may be initialised again for another graph in between; oracle: Dijkstra. Tree search: DAGs with admissible, possibly inconsistent heuristics. Chains of up to 500000 states. Non-trivial: a solution of more than one transition (chains: 1000).";
	p.assumptions = { "edge costs are non-negative", "heuristics are consistent (graph search) or admissible (tree search)" };
	p.laws = {
		{ "graph_search", 60000, graphSearch },
		{ "graph_search_map", 20000, graphSearchMap },
		{ "tree_search", 60000, treeSearch },
		{ "chains", 50, chains, false, 60, 20, false },
	};
	return p;
}
