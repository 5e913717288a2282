// C29: planners, maps and paths are independent of each other: what one computes does not
// depend on which others exist, ran before or run at the same time.
#include "algo/a_star_n2.h"
#include "algo/heuristics.h"
#include "algo/hybrid_a_star.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include "algo/smoother.h"
#include "graph_gen.h"
#include "grid_gen.h"
#include "map_gen.h"
#include "path_gen.h"
#include "rrt_gen.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "utils/frontier.h"
#include "utils/tree.h"
#include <condition_variable>
#include <mutex>
#include <poll.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace Planner;
using namespace pbt;

namespace {
	struct Value {
		const char* name; // a literal: the same address in every forked process
		double v, tol;
	};
	/// What a program may use: its own choices, a place to report, and points where others may run.
	struct Ctx {
		Src& s;
		std::vector<Value> out;
		std::function<void()> step;
		void report(const char* name, double v, double tol = 1e-9) { out.push_back({ name, v, tol }); }
	};
	using Program = void (*)(Ctx&);

	struct Expose : AStarHeuristic<Pose2d> {
		static auto setGoal() { return &Expose::SetGoal; }
	};

	void gridSearch(Ctx& x)
	{
		Src& s = x.s;
		int R = s.range(2, 14), C = s.range(2, 14);
		auto map = makeRef<gridgen::CellMap>(R, C);
		gridgen::fill(s, map->occ);
		std::function<double(const GridCellPosition&, const GridCellPosition&)> cost = [&x](const GridCellPosition& a, const GridCellPosition& b) {
			x.step();
			return std::sqrt((double)((a.row - b.row) * (a.row - b.row) + (a.col - b.col) * (a.col - b.col))) * (1 + (b.row * 7 + b.col * 3) % 5);
		};
		std::function<double(const GridCellPosition&, const GridCellPosition&)> h = [](const GridCellPosition& a, const GridCellPosition& b) { return (double)std::max(std::abs(a.row - b.row), std::abs(a.col - b.col)); };
		auto prop = makeRef<AStarStatePropagatorFcnN2>(map, cost);
		if (s.boolean()) {
			AStarN2 algo;
			algo.Initialize(prop, makeRef<AStarHeuristicFcnN2>(h));
			for (int q = 0; q < 2; q++) {
				GridCellPosition a(s.range(0, R - 1), s.range(0, C - 1)), b(s.range(0, R - 1), s.range(0, C - 1));
				map->occ[a.row][a.col] = 0;
				algo.SetInitState(a);
				x.step();
				algo.SetGoalState(b);
				x.step();
				x.report("status of a grid search", (int)algo.SearchPath());
				x.step();
				x.report("cost of a grid search", algo.GetOptimalCost());
				auto p = algo.GetPath();
				x.report("ends of a grid path", p.empty() ? -1 : p.front().row * 1e6 + p.front().col * 1e4 + p.back().row * 100 + p.back().col);
			}
		} else {
			auto rprop = makeRef<AStarStatePropagatorFcnN2>(map, [&x](const GridCellPosition& a, const GridCellPosition& b) {
				x.step();
				return std::sqrt((double)((a.row - b.row) * (a.row - b.row) + (a.col - b.col) * (a.col - b.col))) * (1 + (a.row * 7 + a.col * 3) % 5);
			});
			Ref<AStarHeuristic<GridCellPosition>> f, r;
			std::tie(f, r) = BidirectionalAStarN2::GetAverageHeuristicPair(makeRef<AStarHeuristicFcnN2>(h), makeRef<AStarHeuristicFcnN2>(h));
			BidirectionalAStarN2 algo;
			algo.Initialize(prop, rprop, f, r);
			GridCellPosition a(s.range(0, R - 1), s.range(0, C - 1)), b(s.range(0, R - 1), s.range(0, C - 1));
			map->occ[a.row][a.col] = map->occ[b.row][b.col] = 0;
			algo.SetInitState(a);
			x.step();
			algo.SetGoalState(b);
			x.step();
			x.report("status of a bidirectional grid search", (int)algo.SearchPath());
			x.step();
			x.report("cost of a bidirectional grid search", algo.GetOptimalCost());
		}
	}

	struct Act {
		int id = 0;
	};
	class Prop : public AStarStatePropagator<int, Act> {
	public:
		const std::vector<std::vector<graphgen::Edge>>* adj = nullptr;
		Ctx* x = nullptr;
		virtual std::vector<std::tuple<int, Act, double>> GetNeighborStates(const int& s) override
		{
			x->step();
			std::vector<std::tuple<int, Act, double>> v;
			for (auto& e : (*adj)[s])
				v.push_back({ e.to, Act { e.action }, e.w });
			return v;
		}
	};
	class ZeroH : public AStarConcreteHeuristic<int> {
	public:
		virtual double GetHeuristicValue(const int&) override { return 0; }
	};

	void graphSearch(Ctx& x)
	{
		Src& s = x.s;
		auto g = graphgen::make(s, 30, false, true);
		auto in = g.in();
		auto fp = makeRef<Prop>(), rp = makeRef<Prop>();
		fp->adj = &g.out;
		rp->adj = &in;
		fp->x = rp->x = &x;
		AStar<int, Act> uni;
		BidirectionalAStar<int, Act> bi;
		uni.Initialize(fp, makeRef<ZeroH>());
		bi.Initialize(fp, rp, makeRef<ZeroH>(), makeRef<ZeroH>());
		for (int q = 0; q < 2; q++) {
			int a = s.range(0, g.n - 1), b = s.range(0, g.n - 1);
			uni.SetInitState(a), bi.SetInitState(a);
			x.step();
			uni.SetGoalState(b), bi.SetGoalState(b);
			x.step();
			x.report("status of a graph search", (int)uni.SearchPath());
			x.report("status of a bidirectional graph search", (int)bi.SearchPath());
			x.step();
			x.report("cost of a graph search", uni.GetOptimalCost());
			x.report("cost of a bidirectional graph search", bi.GetOptimalCost());
		}
	}

	class SteppingValidator : public rrtgen::Validator {
	public:
		Ctx* x;
		SteppingValidator(const Ref<StateSpace<Point2d, 2, double>>& sp, const rrtgen::World* w, Ctx* x) :
			rrtgen::Validator(sp, w), x(x) { }
		virtual bool IsStateValid(const Point2d& p) override
		{
			x->step();
			return rrtgen::Validator::IsStateValid(p);
		}
		virtual bool IsPathValid(const Path<Point2d>& p, float* last = nullptr) override
		{
			x->step();
			return rrtgen::Validator::IsPathValid(p, last);
		}
	};

	template <typename Algo, typename Params>
	void tree(Ctx& x)
	{
		Src& s = x.s;
		double size = 10;
		auto w = rrtgen::makeWorld(s, size);
		auto space = makeRef<rrtgen::Scripted>(w.lb, w.ub);
		auto val = makeRef<SteppingValidator>(space, &w, &x);
		Algo algo(space, val, makeRef<PathConnectionR2>());
		for (int q = 0; q < 2; q++) {
			Params p;
			p.maxIteration = s.range(5, 60);
			p.maxConnectionDistance = size * s.uniform(0.1, 0.6);
			p.goalBias = 0;
			std::vector<Point2d> samples;
			for (unsigned i = 0; i < p.maxIteration; i++)
				samples.push_back(s.chance(1, 3) ? w.goal : Point2d(s.uniform(0, size) + rrtgen::jitter(i, 0), s.uniform(0, size) + rrtgen::jitter(i, 1)));
			space->samples = samples;
			space->used = 0;
			algo.SetParameters(p);
			x.step();
			algo.SetInitState(w.init);
			algo.SetGoalState(w.goal);
			x.step();
			x.report("status of a tree search", (int)algo.SearchPath());
			x.step();
			auto path = algo.GetPath();
			double len = 0;
			for (size_t i = 1; i < path.size(); i++)
				len += (path[i] - path[i - 1]).norm();
			x.report("length of the path of a tree search", len, 1e-7);
			x.report("samples of a tree search", space->used);
		}
	}

	struct HashInt {
		std::size_t operator()(const std::pair<int, double>& i) const { return (std::size_t)i.first % 5; }
	};
	struct EqInt {
		bool operator()(const std::pair<int, double>& a, const std::pair<int, double>& b) const { return a.first == b.first; }
	};
	struct LessInt {
		bool operator()(const std::pair<int, double>& a, const std::pair<int, double>& b) const { return a.second < b.second; }
	};

	void containers(Ctx& x)
	{
		Src& s = x.s;
		Frontier<std::pair<int, double>, LessInt, HashInt, EqInt> f;
		Tree<Point2d, 2> t;
		t.CreateRootNode(Point2d(0, 0));
		Grid<int> g(5, 5, 0);
		std::vector<Tree<Point2d, 2>::Node*> nodes;
		for (int i = 0; i < 60; i++) {
			x.step();
			switch (s.range(0, 4)) {
			case 0:
				f.Push({ s.range(0, 20), i + s.draw(3) * 100.0 });
				break;
			case 1:
				if (!f.Empty())
					x.report("element of an open list", f.Pop().second);
				break;
			case 2:
				f.Remove({ s.range(0, 20), 0 });
				break;
			case 3: {
				Point2d p(s.uniform(-5, 5), s.uniform(-5, 5));
				auto* near = t.GetNearestNode(p);
				x.report("distance to the nearest node of a tree", ((*near)->state - p).norm());
				t.Extend(p, near);
				x.report("size of a tree", t.Size());
				break;
			}
			default: {
				int r = s.range(0, 4), k = s.range(0, 4);
				x.report("value of a grid cell", g[r][k]);
				g[r][k] = i;
			}
			}
		}
	}

	void heuristics(Ctx& x)
	{
		Src& s = x.s;
		double rev = s.oneOf<double>({ 1.0, 2.0 }), fwd = s.oneOf<double>({ 1.0, 3.0 });
		double half = s.oneOf<double>({ 1.0, 2.0 }), spatial = s.oneOf<double>({ 0.7, 0.9 }), angular = s.oneOf<double>({ 0.9, 1.1 }), radius = s.oneOf<double>({ 0.5, 1.0, 2.0 });
		float sw = s.oneOf<float>({ 0.0f, 1.0f, 4.0f });
		int R = s.range(2, 12), C = s.range(2, 12);
		class Cells : public OccupancyMap {
		public:
			Ctx* x;
			std::vector<std::vector<char>> occ;
			Cells(int R, int C, Ctx* x) :
				OccupancyMap(0.5f), x(x), occ(R, std::vector<char>(C, 0)) { InitializeSize((R - 0.25f) * 0.5f, (C - 0.25f) * 0.5f); }
			virtual bool IsOccupied(const GridCellPosition& c) override
			{
				x->step();
				return occ.at(c.row).at(c.col) != 0;
			}
		};
		auto map = makeRef<Cells>(R, C, &x);
		gridgen::fill(s, map->occ);
		ObstaclesHeuristic h(map, rev, fwd);
		x.step();
		auto n = NonHolonomicHeuristic::Build({ Pose2d(-half, -half, -M_PI), Pose2d(half, half, M_PI) }, spatial, angular, radius, rev, fwd, sw);
		for (int q = 0; q < 2; q++) {
			auto pose = [&]() { return Pose2d(s.uniform(-0.24, 0.24) * R, s.uniform(-0.24, 0.24) * C, s.uniform(-3, 3)); };
			Pose2d goal = pose();
			x.step();
			h.Update(goal);
			(h.*Expose::setGoal())(goal);
			(n.get()->*Expose::setGoal())(goal);
			for (int i = 0; i < 12; i++) {
				Pose2d p = pose();
				x.step();
				x.report("obstacle heuristic", h.GetHeuristicValue(p));
				x.report("Reeds-Shepp heuristic", n->GetHeuristicValue(p));
			}
		}
	}

	void distanceMap(Ctx& x)
	{
		Src& s = x.s;
		int R = s.range(3, 16), C = s.range(3, 16);
		auto grid = makeRef<Grid<int>>(R, C, -1);
		GVD::ObstacleDistanceMap map(grid, 1.0f);
		for (int round = 0; round < 3; round++) {
			int n = s.range(1, 5);
			for (int i = 0; i < n; i++) {
				int r = s.range(0, R - 1), k = s.range(0, C - 1);
				x.step();
				if ((*grid)[r][k] >= 0) {
					(*grid)[r][k] = -1;
					map.UnsetObstacle({ r, k });
				} else {
					(*grid)[r][k] = s.range(0, 3);
					map.SetObstacle({ r, k });
				}
			}
			x.step();
			map.Update();
			for (int i = 0; i < 20; i++) {
				int r = s.range(0, R - 1), k = s.range(0, C - 1);
				x.report("distance to the nearest obstacle", map.GetDistanceToNearestObstacle(r, k), 0.26);
			}
		}
	}

	struct World {
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> validator;
		Ref<GVD> gvd;
		std::vector<mapgen::MadeObstacle> present;
		double w, h;
		Point2d origin;
		Pose2d pose(Src& s) const { return Pose2d(origin.x() + s.uniform(-0.55, 0.55) * w, origin.y() + s.uniform(-0.55, 0.55) * h, s.angle()); }
	};
	World world(Ctx& x, int obstacles, double res)
	{
		Src& s = x.s;
		World u;
		u.w = s.uniform(6, 11), u.h = s.uniform(6, 11);
		u.map = makeRef<ObstacleListOccupancyMap>((float)res);
		x.step();
		u.validator = makeRef<StateValidatorOccupancyMap>(makeRef<StateSpaceSE2>(std::array<Pose2d, 2> { Pose2d(-u.w / 2, -u.h / 2, -M_PI), Pose2d(u.w / 2, u.h / 2, M_PI) }), u.map);
		u.origin = Point2d(s.signedMag(10), s.signedMag(10));
		u.map->SetPosition(u.origin);
		u.validator->minSafeRadius = s.oneOf<float>({ 0.3f, 0.6f, 1.0f });
		for (int i = 0; i < obstacles; i++) {
			auto o = mapgen::obstacle(s, 0.35 * std::max(u.w, u.h), 1.5);
			o.pose.position += u.origin;
			o.obstacle->SetPose(o.pose);
			x.step();
			u.map->AddObstacle(o.obstacle);
			u.present.push_back(o);
		}
		x.step();
		return u;
	}

	void mapHistory(Ctx& x)
	{
		Src& s = x.s;
		World u = world(x, s.range(0, 3), 0.5);
		u.gvd = makeRef<GVD>(u.map);
		for (int round = 0; round < 3; round++) {
			x.step();
			if (!u.present.empty() && s.boolean()) {
				int k = s.range(0, (int)u.present.size() - 1);
				x.report("an obstacle is removed", u.map->RemoveObstacle(u.present[k].obstacle));
				u.present.erase(u.present.begin() + k);
			} else {
				auto o = mapgen::obstacle(s, 0.35 * std::max(u.w, u.h), 1.5);
				o.pose.position += u.origin;
				o.obstacle->SetPose(o.pose);
				x.report("an obstacle is added", u.map->AddObstacle(o.obstacle));
				u.present.push_back(o);
			}
			x.step();
			x.report("number of obstacles", u.map->GetNumObstacles());
			u.gvd->Update();
			x.step();
			int occupied = 0;
			for (int r = 0; r < u.map->Rows(); r++)
				for (int k = 0; k < u.map->Columns(); k++)
					occupied += u.map->IsOccupied({ r, k });
			x.report("occupied cells", occupied);
			for (int i = 0; i < 15; i++) {
				Pose2d p = u.pose(s);
				x.step();
				GridCellPosition c = u.map->WorldPositionToGridCell(p.position);
				x.report("cell of a point", c.row * 1000 + c.col);
				float d = 0;
				bool ok = u.gvd->GetDistanceToNearestObstacle(p.position, d);
				x.report("a distance is known", ok);
				if (ok)
					x.report("distance of a point to an obstacle", d, 0.15);
			}
		}
	}

	void validation(Ctx& x)
	{
		Src& s = x.s;
		World u = world(x, s.range(0, 3), 0.5);
		u.map->Update();
		for (int i = 0; i < 15; i++) {
			x.step();
			x.report("validity of a state", u.validator->IsStateValid(u.pose(s)));
			auto p = pathgen::reedsShepp(s, u.pose(s));
			float last = -1;
			x.step();
			x.report("validity of a path", u.validator->IsPathValid(*p.path, &last));
			x.report("valid part of a path", last, 1e-3);
		}
	}

	void paths(Ctx& x)
	{
		Src& s = x.s;
		for (int i = 0; i < 6; i++) {
			x.step();
			Pose2d a = pathgen::pose(s, 5), b = pathgen::pose(s, 5);
			double radius = s.oneOf<double>({ 1.0, 0.4, 3.0 });
			x.report("Reeds-Shepp distance", ReedsShepp::Solver::GetShortestDistance(a, b, radius));
			x.step();
			auto seg = ReedsShepp::Solver::GetOptimalPath(a, b, radius, 2.0f, 1.0f, 0.5f);
			PathReedsShepp rs(a, seg, radius);
			x.report("length of an optimal Reeds-Shepp path", rs.GetLength());
			auto m = s.range(0, 1) ? pathgen::constantSteer(s, a) : pathgen::composite(s, a);
			x.step();
			x.report("length of a path", m.path->GetLength());
			for (int k = 0; k < 4; k++) {
				double r = s.uniform(0, 1);
				Pose2d p = m.path->Interpolate(r), q = rs.Interpolate(r);
				x.step();
				x.report("x on a path", p.x());
				x.report("y on a path", p.y());
				x.report("x on a Reeds-Shepp path", q.x());
				x.report("direction of a path", (int)m.path->GetDirection(r));
			}
			x.report("cusps of a path", m.path->GetCuspPointRatios().size());
			x.step();
			double cut = s.uniform(0, 1);
			m.path->Truncate(cut);
			rs.Truncate(cut);
			x.step();
			x.report("length of a truncated path", m.path->GetLength());
			x.report("end of a truncated path", m.path->GetFinalState().x());
			x.report("end of a truncated Reeds-Shepp path", rs.GetFinalState().x());
		}
	}

	void smoothing(Ctx& x)
	{
		Src& s = x.s;
		World u = world(x, s.range(0, 2), 0.5);
		u.gvd = makeRef<GVD>(u.map);
		u.gvd->Update();
		Smoother::Parameters p(1.0f);
		p.maxIterations = s.oneOf<int>({ 1, 10, 40 });
		Smoother sm;
		sm.Initialize(u.validator, u.gvd, 1.0f);
		sm.SetParameters(p);
		for (int round = 0; round < 2; round++) {
			std::vector<Pose2d> path;
			Pose2d at(u.origin.x() + s.uniform(-0.3, 0.3) * u.w, u.origin.y() + s.uniform(-0.3, 0.3) * u.h, s.angle());
			int n = s.range(5, 25);
			for (int i = 0; i < n; i++) {
				path.push_back(at);
				double th = at.theta + s.uniform(-0.3, 0.3);
				at = Pose2d(at.x() + 0.2 * std::cos(th), at.y() + 0.2 * std::sin(th), th);
			}
			x.step();
			x.report("status of the smoother", (int)sm.Smooth(path, { 0, n / 2, n - 1 }));
			x.step();
			for (auto& q : sm.GetPath()) {
				x.report("x of a smoothed pose", q.x(), 1e-7);
				x.report("y of a smoothed pose", q.y(), 1e-7);
			}
		}
	}

	/// Use the random numbers of the library: one of these per case.
	void hybrid(Ctx& x)
	{
		Src& s = x.s;
		World u = world(x, s.range(0, 2), 0.5);
		u.map->Update();
		double radius = s.oneOf<double>({ 1.0, 0.6, 2.0 }), sw = s.oneOf<double>({ 1.0, 0.0 }), rev = s.oneOf<double>({ 1.0, 2.0 }), fwd = s.oneOf<double>({ 1.0, 1.5 });
		HybridAStar::SearchParameters par(radius, sw, rev, fwd, s.oneOf<double>({ 0.0, 1.0 }), s.oneOf<unsigned>({ 5, 3 }), s.oneOf<double>({ 1.0, 0.7 }), s.oneOf<double>({ 0.5, 0.3 }));
		HybridAStar planner(par);
		x.report("a planner is initialized", planner.Initialize(u.validator));
		for (int q = 0; q < 2; q++) {
			x.step();
			planner.SetInitState(u.pose(s));
			x.step();
			planner.SetGoalState(u.pose(s));
			x.step();
			x.report("status of Hybrid A*", (int)planner.SearchPath());
			x.step();
			x.report("cost of Hybrid A*", planner.GetGraphSearchOptimalCost(), 1e-6);
			x.report("poses of Hybrid A*", planner.GetPath().size());
			x.report("motions explored by Hybrid A*", planner.GetGraphSearchExploredPathSet().size());
			x.step();
		}
	}

	/// Distances so short that direct connections are tried from every state: no random decision.
	void shortHybrid(Ctx& x)
	{
		Src& s = x.s;
		auto map = makeRef<ObstacleListOccupancyMap>(s.oneOf<float>({ 0.4f, 0.25f }));
		double w = s.uniform(3, 4), h = s.uniform(3, 4);
		auto validator = makeRef<StateValidatorOccupancyMap>(makeRef<StateSpaceSE2>(std::array<Pose2d, 2> { Pose2d(-w / 2, -h / 2, -M_PI), Pose2d(w / 2, h / 2, M_PI) }), map);
		validator->minSafeRadius = s.oneOf<float>({ 0.3f, 0.5f });
		x.step();
		if (s.boolean()) {
			auto o = makeRef<Obstacle>();
			o->SetShape(makeRef<RectangleShape>(s.uniform(0.2, 1.2), 0.2));
			o->SetPose(Pose2d(s.uniform(-1, 1), s.uniform(-1, 1), s.angle()));
			map->AddObstacle(o);
		}
		map->Update();
		x.step();
		double radius = s.oneOf<double>({ 0.4, 0.3, 0.5 }), sw = s.oneOf<double>({ 0.2, 0.0, 0.5 }), rev = s.oneOf<double>({ 1.0, 1.2 }), fwd = s.oneOf<double>({ 1.0, 1.1 });
		HybridAStar::SearchParameters par(radius, sw, rev, fwd, s.oneOf<double>({ 0.0, 1.0 }), s.oneOf<unsigned>({ 5, 3 }), s.oneOf<double>({ 0.5, 0.3 }), s.oneOf<double>({ 0.5, 0.3 }));
		HybridAStar planner(par);
		x.report("a planner is initialized", planner.Initialize(validator));
		auto pose = [&]() { return Pose2d(s.uniform(-1.2, 1.2), s.uniform(-1.2, 1.2), s.angle()); };
		for (int q = 0; q < 2; q++) {
			x.step();
			Pose2d a = pose(), b = pose();
			planner.SetInitState(a);
			x.step();
			planner.SetGoalState(b);
			x.step();
			int status = (int)planner.SearchPath();
			x.report("status of a short Hybrid A* search", status);
			x.step();
			x.report("cost of a short Hybrid A* search", planner.GetGraphSearchOptimalCost(), 1e-6);
			x.report("poses of a short Hybrid A* search", planner.GetPath().size());
			x.step();
			auto explored = planner.GetGraphSearchExploredPathSet();
			x.report("motions explored by a short Hybrid A* search", explored.size());
			double length = 0, turn = 0;
			for (auto& e : explored) {
				length += e->GetLength();
				turn += std::abs(std::remainder(e->GetFinalState().theta - e->GetInitialState().theta, 2 * M_PI));
			}
			x.report("length of the motions explored by a short Hybrid A* search", length, 1e-6);
			x.report("turns of the motions explored by a short Hybrid A* search", turn, 1e-6);
			double len = 0;
			auto path = planner.GetPath();
			for (size_t i = 1; i < path.size(); i++)
				len += (path[i].position - path[i - 1].position).norm();
			x.report("length of the path of a short Hybrid A* search", len, 1e-6);
		}
	}

	template <typename Algo, typename Params>
	void sampledTree(Ctx& x)
	{
		Src& s = x.s;
		double size = 10;
		auto w = rrtgen::makeWorld(s, size);
		auto space = makeRef<StateSpaceR2>(w.lb, w.ub);
		auto val = makeRef<SteppingValidator>(space, &w, &x);
		Algo algo(space, val, makeRef<PathConnectionR2>());
		Params p;
		p.maxIteration = s.range(5, 150);
		p.maxConnectionDistance = size * s.uniform(0.1, 0.6);
		p.goalBias = 0.1;
		algo.SetParameters(p);
		for (int q = 0; q < 2; q++) {
			algo.SetInitState(w.init);
			x.step();
			algo.SetGoalState(w.goal);
			x.step();
			x.report("status of a sampling search", (int)algo.SearchPath());
			x.step();
			auto path = algo.GetPath();
			double len = 0;
			for (size_t i = 1; i < path.size(); i++)
				len += (path[i] - path[i - 1]).norm();
			x.report("length of the path of a sampling search", len, 1e-7);
		}
	}

	struct Kind {
		const char* name;
		Program run;
		int random; // draws from the random numbers shared by the whole library: 1 without an effect, 2 with
	};
	const std::vector<Kind> kinds {
		{ "grid search", gridSearch, 0 },
		{ "graph search", graphSearch, 0 },
		{ "containers", containers, 0 },
		{ "heuristics", heuristics, 0 },
		{ "distance map", distanceMap, 0 },
		{ "map history", mapHistory, 0 },
		{ "validation", validation, 0 },
		{ "paths", paths, 0 },
		{ "smoothing", smoothing, 0 },
		{ "RRT", tree<RRT<Point2d, 2>, RRTParameters>, 1 },
		{ "RRT*", tree<RRTStar<Point2d, 2>, RRTStarParameters>, 1 },
		{ "short Hybrid A*", shortHybrid, 1 },
		{ "Hybrid A*", hybrid, 2 },
		{ "sampled RRT", sampledTree<RRT<Point2d, 2>, RRTParameters>, 2 },
		{ "sampled RRT*", sampledTree<RRTStar<Point2d, 2>, RRTStarParameters>, 2 },
	};

	struct Job {
		int kind;
		uint64_t seed;
		std::vector<std::pair<uint64_t, uint64_t>> patches; // choices that differ from those of the seed
	};
	using Results = std::vector<std::vector<Value>>;

	std::vector<Value> runJob(const Job& j, const std::function<void()>& step)
	{
		auto tape = std::make_unique<Tape>();
		Src src(j.seed, tape.get());
		for (auto& [at, seed] : j.patches)
			src.patch(at, seed);
		Ctx x { src, {}, step };
		kinds[j.kind].run(x);
		return x.out;
	}

	/// Run @f in a child process and hand back what it returns.
	Results inChild(Case& c, const char* what, const std::function<Results()>& f)
	{
		int fd[2];
		if (pipe(fd))
			throw Discard();
		pid_t pid = fork();
		if (pid < 0)
			throw Discard();
		if (pid == 0) {
			close(fd[0]);
			int code = 0;
			std::string buf;
			auto put = [&](const void* p, size_t n) { buf.append((const char*)p, n); };
			try {
				for (auto& r : f()) {
					uint64_t n = r.size();
					put(&n, sizeof n);
					put(r.data(), n * sizeof(Value));
				}
			} catch (pbt::Failure& e) {
				code = 40;
			} catch (std::exception& e) {
				code = 41;
			}
			for (size_t at = 0; at < buf.size();) {
				ssize_t k = write(fd[1], buf.data() + at, buf.size() - at);
				if (k <= 0)
					_exit(42);
				at += k;
			}
			_exit(code);
		}
		close(fd[1]);
		std::string buf;
		char tmp[65536];
		ssize_t k;
		while ((k = read(fd[0], tmp, sizeof tmp)) > 0)
			buf.append(tmp, k);
		close(fd[0]);
		int st = 0;
		waitpid(pid, &st, 0);
		c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the programs end abnormally when run ", what, " (", WIFSIGNALED(st) ? "signal " : "exit ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), ")");
		Results out;
		for (size_t at = 0; at < buf.size();) {
			uint64_t n;
			memcpy(&n, buf.data() + at, sizeof n);
			at += sizeof n;
			out.emplace_back(n, Value {});
			memcpy((void*)out.back().data(), buf.data() + at, n * sizeof(Value));
			at += n * sizeof(Value);
		}
		return out;
	}

	void same(Case& c, const std::vector<Job>& jobs, size_t i, const std::vector<Value>& alone, const std::vector<Value>& other, const char* what)
	{
		const char* name = kinds[jobs[i].kind].name;
		size_t n = std::min(alone.size(), other.size());
		for (size_t k = 0; k < n; k++) {
			auto &a = alone[k], &b = other[k];
			bool eq = a.name == b.name && (a.v == b.v || (std::isnan(a.v) && std::isnan(b.v)) || std::abs(a.v - b.v) <= a.tol * (1 + std::abs(a.v)));
			c.check(eq, "program ", i, " (", name, ") reports ", b.name, " = ", b.v, " when run ", what, ", but ", a.name, " = ", a.v, " when run alone (value ", k, ")");
		}
		c.check(alone.size() == other.size(), "program ", i, " (", name, ") reports ", other.size(), " values when run ", what, " instead of ", alone.size());
	}

	void programs(Src& s, Case& c)
	{
		int n = s.range(2, 4);
		std::vector<Job> jobs;
		bool twin = s.chance(1, 2);
		int random = 0, drawing = 0;
		for (int i = 0; i < n; i++) {
			int k = twin && i && random < 2 ? jobs[0].kind : s.range(0, (int)kinds.size() - 1);
			if (random + kinds[k].random > 2)
				k = s.range(0, 8);
			if (kinds[k].random)
				drawing++;
			random = std::max(random, kinds[k].random);
			jobs.push_back({ k, s.draw(0xffffffff), {} });
			c << (i ? ", " : "") << kinds[k].name;
			if (i && jobs[0].kind == k && s.chance(3, 4)) {
				// the same inputs but for a few choices
				jobs[i].seed = jobs[0].seed;
				int patches = s.range(0, 3), within = s.oneOf<int>({ 8, 40, 200 });
				for (int q = 0; q < patches; q++)
					jobs[i].patches.push_back({ s.draw(within), s.draw(0xffffffff) });
				c << " (" << patches << " choices differ)";
				c.label("nearly the same inputs");
			}
		}
		uint64_t seed = s.draw(0xffffffff);
		int mode = s.range(0, 3);
		if (mode == 3 && drawing > 1)
			mode = 1; // the random numbers are not for several threads at a time
		auto nothing = []() { };
		// alone, each in a process of its own
		Results alone;
		for (auto& j : jobs)
			alone.push_back(inChild(c, "alone", [&]() {
				setRandomSeed(seed);
				return Results { runJob(j, nothing) };
			})[0]);
		size_t values = 0;
		for (auto& a : alone)
			values += a.size();
		c.nontrivial(values > 20);
		if (mode == 0) {
			// one after another in one process, some of them repeatedly
			std::vector<int> order;
			for (int i = 0; i < n; i++)
				order.push_back(i);
			for (int i = n - 1; i > 0; i--)
				std::swap(order[i], order[s.range(0, i)]);
			int more = s.range(0, 3);
			for (int i = 0; i < more; i++) {
				int k = s.range(0, n - 1);
				if (kinds[jobs[k].kind].random < (random == 2 ? 1 : 2))
					order.push_back(k);
			}
			auto r = inChild(c, "after others", [&]() {
				setRandomSeed(seed);
				Results out;
				for (int k : order)
					out.push_back(runJob(jobs[k], nothing));
				return out;
			});
			c.check(r.size() == order.size(), "results are missing");
			for (size_t i = 0; i < order.size(); i++)
				same(c, jobs, order[i], alone[order[i]], r[i], "after others");
			c.label("in sequence");
		} else if (mode == 1) {
			// taking turns: a thread runs until its program reaches a step at which another is chosen
			std::vector<unsigned char> sched;
			int every = s.oneOf<int>({ 1, 2, 8 });
			for (int i = 0; i < 400; i++)
				sched.push_back(s.draw(every) == 0 ? 0 : 1 + s.draw(n - 1));
			auto r = inChild(c, "in turns with others", [&]() {
				setRandomSeed(seed);
				std::mutex m;
				std::condition_variable cv;
				int turn = 0;
				size_t at = 0;
				std::vector<char> done(n, 0);
				Results out(n);
				std::exception_ptr error;
				auto next = [&](int from) {
					for (int k = 1; k <= n; k++)
						if (!done[(from + k) % n])
							return (from + k) % n;
					return -1;
				};
				std::vector<std::thread> threads;
				for (int i = 0; i < n; i++)
					threads.emplace_back([&, i]() {
						auto wait = [&](std::unique_lock<std::mutex>& l) { cv.wait(l, [&]() { return turn == i; }); };
						auto step = [&]() {
							std::unique_lock<std::mutex> l(m);
							int choice = sched[at++ % sched.size()];
							if (!choice || done[choice - 1] || choice - 1 == i)
								return;
							turn = choice - 1;
							cv.notify_all();
							wait(l);
						};
						{
							std::unique_lock<std::mutex> l(m);
							wait(l);
						}
						try {
							out[i] = runJob(jobs[i], step);
						} catch (...) {
							error = std::current_exception();
						}
						std::unique_lock<std::mutex> l(m);
						done[i] = 1;
						turn = next(i);
						cv.notify_all();
					});
				for (auto& t : threads)
					t.join();
				if (error)
					std::rethrow_exception(error);
				return out;
			});
			for (int i = 0; i < n; i++)
				same(c, jobs, i, alone[i], r.at(i), "in turns with others");
			c.label("taking turns");
		} else if (mode == 2) {
			// nested, on one thread: at generated steps of one program the next one runs from beginning to end
			std::vector<int> at;
			int within = s.oneOf<int>({ 4, 20, 100 });
			for (int i = 0; i < n; i++)
				at.push_back(1 + (int)s.draw(within));
			auto r = inChild(c, "from inside others", [&]() {
				setRandomSeed(seed);
				Results out(n);
				std::function<void(int)> run = [&](int i) {
					int steps = 0;
					bool called = false;
					auto inner = [&]() {
						called = true;
						if (i + 1 < n)
							run(i + 1);
					};
					out[i] = runJob(jobs[i], [&]() {
						if (++steps == at[i])
							inner();
					});
					if (!called)
						inner();
				};
				run(0);
				return out;
			});
			for (int i = 0; i < n; i++)
				same(c, jobs, i, alone[i], r.at(i), "from inside others");
			c.label("nested");
		} else {
			// at the same time
			auto r = inChild(c, "at the same time as others", [&]() {
				setRandomSeed(seed);
				StateSpaceSE2 first(std::array<Pose2d, 2> { Pose2d(-1, -1, -M_PI), Pose2d(1, 1, M_PI) }); // sets up the random numbers
				Results out(n);
				std::exception_ptr error;
				std::mutex m;
				std::vector<std::thread> threads;
				for (int i = 0; i < n; i++)
					threads.emplace_back([&, i]() {
						try {
							out[i] = runJob(jobs[i], nothing);
						} catch (...) {
							std::lock_guard<std::mutex> l(m);
							error = std::current_exception();
						}
					});
				for (auto& t : threads)
					t.join();
				if (error)
					std::rethrow_exception(error);
				return out;
			});
			for (int i = 0; i < n; i++)
				same(c, jobs, i, alone[i], r.at(i), "at the same time as others");
			c.label("at the same time");
		}
		for (auto& j : jobs)
			c.label(kinds[j.kind].name);
		c.label("same kind", jobs[0].kind == jobs[1].kind);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C29";
	p.rule = "two to four generated programs (grid, graph and bidirectional searches, RRT and RRT*, open lists, trees and grids, heuristics, distance maps, obstacle maps with Voronoi diagrams, validators, paths, smoothers, Hybrid A*) run each alone in a fresh process, then one after another with repetitions, taking turns at generated points inside their operations (also inside the callbacks of a search) on threads of their own or nested on one thread, or in free-running threads; their results must be the same. Half of the cases run programs of one kind whose inputs differ in a few choices. Non-trivial: more than 20 values are compared.";
	p.assumptions = { "the random numbers of the library are one stream for the whole process: at most one program of a case whose results depend on it draws from it", "paths are compared through their costs and lengths, distances to obstacles within the tolerance of C19", "a race between free-running threads is found only when it shows in a result" };
	p.laws = { { "programs", 1500, programs, true, 120, 30, false } };
	return p;
}
