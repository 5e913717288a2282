// C24: Hybrid A* returns connected, drivable, safe paths from the initial state to the goal.
#include "algo/hybrid_a_star.h"
#include "child.h"
#include "map_gen.h"
#include "path_gen.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace Planner;
using namespace pbt;
using namespace mapgen;
using pathgen::gap;

namespace {
	struct World {
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> validator;
		double w, h, res, safe, step;
		Point2d origin;
		std::vector<MadeObstacle> obstacles;
		std::vector<RC> occupied;
		void refresh()
		{
			map->Update();
			occupied.clear();
			for (int r = 0; r < map->Rows(); r++)
				for (int k = 0; k < map->Columns(); k++)
					if (map->IsOccupied({ r, k }))
						occupied.push_back({ r, k });
		}
		double clearance(const Point2d& p) const
		{
			double r = std::floor((p.x() - origin.x() + w / 2) / res), k = std::floor((p.y() - origin.y() + h / 2) / res), best = 1e300;
			for (auto& [a, b] : occupied)
				best = std::min(best, (a - r) * (a - r) + (b - k) * (b - k));
			return best < 1e300 ? std::sqrt(best) * res : 1e300;
		}
		double inside(const Point2d& p) const
		{
			double x = p.x() - origin.x(), y = p.y() - origin.y();
			return std::min({ x + w / 2, w / 2 - x, y + h / 2, h / 2 - y });
		}
	};

	void addObstacle(Src& s, World& u)
	{
		MadeObstacle o = obstacle(s, 0.4 * std::max(u.w, u.h), s.oneOf<double>({ 0.4, 1.5, 4.0 }));
		o.pose.position += u.origin;
		o.obstacle->SetPose(o.pose);
		u.map->AddObstacle(o.obstacle);
		u.obstacles.push_back(o);
	}

	World world(Src& s, Case& c, int maxObstacles)
	{
		World u;
		u.res = s.oneOf<double>({ 0.5, 0.25 });
		u.w = s.uniform(6, 12);
		u.h = s.uniform(6, 12);
		std::array<Pose2d, 2> bounds { Pose2d(-u.w / 2, -u.h / 2, -M_PI), Pose2d(u.w / 2, u.h / 2, M_PI) };
		u.map = makeRef<ObstacleListOccupancyMap>((float)u.res);
		u.validator = makeRef<StateValidatorOccupancyMap>(makeRef<StateSpaceSE2>(bounds), u.map);
		u.origin = s.boolean() ? Point2d(0, 0) : Point2d(s.signedMag(20), s.signedMag(20));
		u.map->SetPosition(u.origin);
		u.safe = s.oneOf<double>({ 0.5, 1.0, 0.25 });
		u.step = s.oneOf<double>({ 0.1, 0.3 });
		u.validator->minSafeRadius = (float)u.safe;
		u.validator->minPathInterpolationDistance = (float)u.step;
		int n = s.range(0, maxObstacles);
		for (int i = 0; i < n; i++)
			addObstacle(s, u);
		u.refresh();
		c << u.w << "x" << u.h << " with " << n << " obstacles, safe radius " << u.safe;
		return u;
	}

	Pose2d freePose(Src& s, World& u)
	{
		Pose2d p;
		for (int i = 0; i < 8; i++) {
			double th = s.chance(1, 6) ? s.oneOf<double>({ 0.0, M_PI, -M_PI, M_PI / 2 }) : s.angle();
			p = Pose2d(u.origin.x() + s.uniform(-0.5, 0.5) * u.w, u.origin.y() + s.uniform(-0.5, 0.5) * u.h, th);
			if (u.validator->IsStateValid(p))
				break;
		}
		return p;
	}

	struct Query {
		Pose2d init, goal;
		double radius, rev, fwd, sw, voro;
	};

	void judge(Case& c, Src& s, World& u, HybridAStar& planner, Status st, const Query& q, GVD& mine, double interp, bool smoothing, bool& drove)
	{
		auto path = planner.GetPath();
		auto segs = planner.GetGraphSearchPath();
		auto& stats = planner.GetStats();
		c.check((st >= 0) == (stats.graphSearchStatus >= 0), "the search returns ", (int)st, " but its graph search ", (int)stats.graphSearchStatus);
		if (st < 0) {
			c.check(path.empty(), "a failed search returns a path of ", path.size(), " poses");
			c.check(stats.smoothingStatus < 0, "a failed search reports the smoothing status ", (int)stats.smoothingStatus);
			c.check(segs.empty(), "a failed search has a graph path of ", segs.size(), " motions");
			c.check(!std::isfinite(planner.GetGraphSearchOptimalCost()), "a failed search has the cost ", planner.GetGraphSearchOptimalCost());
			return;
		}
		// ends
		c.check(!path.empty(), "a successful search returns no pose");
		c.check(gap(path.front(), q.init) <= 1e-6, "the path starts at (", path.front().x(), ",", path.front().y(), ",", path.front().theta, ")");
		c.check((path.back().position - q.goal.position).norm() <= 2e-3 && std::abs(rsref::m2(path.back().theta - q.goal.theta)) <= 1e-4, "the path ends at (", path.back().x(), ",", path.back().y(), ",", path.back().theta, ") instead of (", q.goal.x(), ",", q.goal.y(), ",", q.goal.theta, ")");
		// motions of the graph search
		Pose2d at = q.init;
		double cost = 0, total = 0, fieldLo[2] = { 0, 0 }, fieldHi[2] = { 0, 0 };
		int junctions = 0;
		Direction dir = Direction::NoMotion;
		GVD gvd(u.map);
		gvd.Update();
		mine.Update();
		const double diag = std::sqrt(2.0) * u.res;
		const double tolD = 1.75 * u.res + 0.5 * u.step + 1e-3;
		for (size_t i = 0; i < segs.size(); i++) {
			auto& p = *segs[i];
			c.check(gap(p.GetInitialState(), at) <= 1e-6, "motion ", i, " starts ", gap(p.GetInitialState(), at), " away from the end of the one before");
			const double L = p.GetLength();
			c.check(L > 0 || segs.size() == 1, "motion ", i, " has no length");
			int N = std::max(2, (int)std::ceil(L / 0.02));
			Pose2d a = p.Interpolate(0.0);
			double worst = 0;
			bool rs = dynamic_cast<PathReedsShepp*>(segs[i].get()) != nullptr;
			for (int k = 1; k <= N; k++) {
				Pose2d b = p.Interpolate((double)k / N);
				double ds = L / N, dth = std::abs(rsref::m2(b.theta - a.theta));
				c.check(dth <= ds / q.radius * (1 + 1e-6) + 1e-6, "motion ", i, " turns ", dth, " rad over ", ds, ", more than the radius ", q.radius, " allows");
				Point2d mid(std::cos(a.theta + rsref::m2(b.theta - a.theta) / 2), std::sin(a.theta + rsref::m2(b.theta - a.theta) / 2));
				Point2d d = b.position - a.position;
				c.check(d.norm() <= ds + 1e-6, "motion ", i, " jumps by ", d.norm());
				c.check(std::abs(d.x() * mid.y() - d.y() * mid.x()) <= 1e-6 + 0.5 * ds * ds / q.radius, "motion ", i, " slides sideways");
				double cl = u.clearance(b.position), in = u.inside(b.position);
				c.check(cl >= u.safe - tolD, "motion ", i, " comes within ", cl, " of an obstacle");
				c.check(in >= -(0.5 * u.step + 1e-3), "motion ", i, " leaves the map by ", -in);
				worst = std::max(worst, d.norm());
				a = b;
			}
			if (q.voro > 0)
				for (int w = 0; w < 2; w++) {
					GVD& diagram = w ? mine : gvd;
					// the field is integrated in steps of one cell diagonal: bracket every such sum
					for (double l = 0; l < L; l += diag) {
						double lo = 1e300, hi = 0;
						for (double x = l - 0.02; x <= l + diag + 0.02; x += 0.005) {
							float f = 0;
							if (!diagram.GetPathCost(p.Interpolate(std::min(1.0, std::max(0.0, x / L))).position, f))
								f = 0;
							lo = std::min(lo, (double)f);
							hi = std::max(hi, (double)f);
						}
						fieldLo[w] += lo * std::min(diag, L - l);
						fieldHi[w] += hi * diag;
					}
				}
			auto cusps = p.GetCuspPointRatios();
			Direction first = p.GetDirection(0.0), last = p.GetDirection(1.0);
			if (rs) {
				auto& r = dynamic_cast<PathReedsShepp&>(p);
				cost += r.ComputeCost(q.sw, q.rev, q.fwd);
				junctions += dir != Direction::NoMotion && first != dir;
			} else {
				cost += L * (first == Direction::Backward ? q.rev : q.fwd);
				if (dir != Direction::NoMotion && first != dir)
					cost += q.sw;
			}
			dir = last;
			at = p.GetFinalState();
			total += L;
		}
		drove = total > 1;
		if (!segs.empty())
			c.check((at.position - q.goal.position).norm() <= 2e-3 && std::abs(rsref::m2(at.theta - q.goal.theta)) <= 1e-4, "the last motion ends ", (at.position - q.goal.position).norm(), " from the goal");
		else
			c.check(gap(q.init, q.goal) <= 3e-3, "there are no motions although the goal is elsewhere");
		double got = planner.GetGraphSearchOptimalCost();
		double tol = 1e-4 * (1 + cost);
		if (q.voro == 0)
			c.check(got >= cost - tol && got <= cost + junctions * q.sw + tol, "the reported cost is ", got, ", the motions cost ", cost);
		else {
			bool in = false;
			for (int w = 0; w < 2; w++)
				in = in || (got >= cost + q.voro * fieldLo[w] - tol && got <= cost + junctions * q.sw + q.voro * fieldHi[w] + tol);
			c.check(in, "the reported cost is ", got, ", the motions cost ", cost, " and the field integrates to between ", fieldLo[0], " and ", fieldHi[0]);
		}
		auto explored = planner.GetGraphSearchExploredPathSet();
		for (size_t i = 0; i < segs.size(); i++)
			c.check(explored.count(segs[i]), "motion ", i, " is not in the set of explored motions");
		c.label("junction to a Reeds-Shepp path", segs.size() > 1);
		c.label("several constant steering motions", segs.size() > 3);
		// poses
		bool smoothed = stats.smoothingStatus >= 0;
		if (smoothed) {
			auto& sm = planner.GetSmoothedPath();
			c.check(sm.size() == path.size(), "the smoothed path has ", sm.size(), " poses, the path ", path.size());
			for (size_t i = 0; i < path.size(); i++)
				c.check(gap(sm[i], path[i]) <= 1e-9, "pose ", i, " of the path is not the smoothed one");
		}
		if (smoothed)
			for (size_t i = 0; i < path.size(); i++)
				c.check(u.validator->IsStateValid(path[i]), "pose ", i, " of the smoothed path is not valid");
		// (a search to the initial state does not move, wherever that is)
		const bool stay = gap(q.init, q.goal) < 1e-9 && !u.validator->IsStateValid(q.init);
		for (size_t i = 0; i < path.size() && !stay; i++) {
			double cl = u.clearance(path[i].position), in = u.inside(path[i].position);
			c.check(cl >= u.safe - tolD && in >= -(0.5 * u.step + 1e-3), "pose ", i, " is ", cl, " from an obstacle and ", in, " inside the map");
		}
		// the places where the direction changes, inside the motions and between them, are poses
		for (size_t i = 0; i < segs.size(); i++) {
			std::vector<Pose2d> cusps;
			for (double r : segs[i]->GetCuspPointRatios())
				cusps.push_back(segs[i]->Interpolate(r));
			if (i && segs[i]->GetLength() > 0.01 && segs[i - 1]->GetLength() > 0.01 && segs[i]->GetDirection(0.0) != segs[i - 1]->GetDirection(1.0)
				&& segs[i]->GetDirection(0.0) != Direction::NoMotion && segs[i - 1]->GetDirection(1.0) != Direction::NoMotion)
				cusps.push_back(segs[i]->GetInitialState());
			for (auto& cu : cusps) {
				double best = 1e300;
				for (auto& p : path)
					best = std::min(best, (p.position - cu.position).norm());
				c.check(best <= 1e-5, "the cusp at (", cu.x(), ",", cu.y(), ") is not in the ", smoothed ? "smoothed " : "", "path, the closest pose is ", best, " away");
				c.label("cusp", !smoothing);
				c.label("cusp of a smoothed path", smoothing && smoothed);
			}
		}
		if (!smoothing || !smoothed) {
			// the poses sample the motions at regular intervals
			std::vector<Pose2d> dense;
			std::vector<double> arc;
			double base = 0;
			size_t turns = 0;
			for (size_t i = 1; i < path.size(); i++)
				c.check((path[i].position - path[i - 1].position).norm() <= 2 * interp + 1e-3, "the poses ", i - 1, " and ", i, " are ", (path[i].position - path[i - 1].position).norm(), " apart");
			size_t j = 0;
			// walk along the motions, the poses follow in order
			for (auto& sgm : segs) {
				double L = sgm->GetLength();
				int N = std::max(1, (int)std::ceil(L / 0.005));
				for (int k = 0; k <= N; k++)
					dense.push_back(sgm->Interpolate((double)k / N));
				// cusps are sampled
				turns++;
				for (double r : sgm->GetCuspPointRatios()) {
					turns++;
					Pose2d cu = sgm->Interpolate(r);
					double best = 1e300;
					for (auto& p : path)
						best = std::min(best, gap(p, cu));
					c.check(best <= 1e-5, "the cusp at (", cu.x(), ",", cu.y(), ") is not in the path, the closest pose is ", best, " away");
				}
				base += L;
			}
			for (size_t i = 0; i < path.size() && !dense.empty(); i++) {
				size_t from = j;
				while (j < dense.size() && gap(dense[j], path[i]) > 0.02 + 0.01 / q.radius)
					j++;
				c.check(j < dense.size(), "pose ", i, " at (", path[i].x(), ",", path[i].y(), ") is not on the motions, or out of order (from ", from, " of ", dense.size(), ")");
			}
			c.check(path.size() <= 1.5 * base / interp + 2 * turns + 4, path.size(), " poses for a path of length ", base, " with ", turns, " motions and cusps");
			c.check(path.size() >= std::floor(base / (2 * interp)), "only ", path.size(), " poses for a path of length ", base);
		}
	}

	// The search tree: every motion starts where another one ended, is safe and is one of
	// the motions the parameters describe; a state that was expanded has all of them,
	// except those that end in a cell that another state holds.
	struct Tree {
		std::vector<Ref<PathNonHolonomicSE2Base>> motions;
		std::vector<Pose2d> poses; // 0 is the initial state, i + 1 the end of motion i
		std::vector<std::vector<int>> from; // motions per pose
	};

	void judgeTree(Case& c, Src& s, World& u, HybridAStar& planner, Status st, const Query& q, const HybridAStar::SearchParameters& par, bool same)
	{
		auto explored = planner.GetGraphSearchExploredPathSet();
		Tree t;
		t.poses.push_back(q.init);
		for (auto& m : explored) {
			c.check(m != nullptr, "an explored motion is empty");
			t.motions.push_back(m);
		}
		// a fixed order, the set is ordered by addresses
		auto key = [](const Ref<PathNonHolonomicSE2Base>& m) {
			Pose2d a = m->GetInitialState(), b = m->GetFinalState();
			return std::array<double, 6> { a.x(), a.y(), a.theta, b.x(), b.y(), b.theta };
		};
		std::sort(t.motions.begin(), t.motions.end(), [&](auto& a, auto& b) { return key(a) < key(b); });
		for (auto& m : t.motions)
			t.poses.push_back(m->GetFinalState());
		std::multimap<long, int> byX;
		auto bucket = [](double x) { return (long)std::floor(x / 0.01); };
		for (size_t i = 0; i < t.poses.size(); i++)
			byX.insert({ bucket(t.poses[i].x()), (int)i });
		t.from.resize(t.poses.size());
		std::vector<bool> unclear; // more than one state can be the start
		for (size_t i = 0; i < t.motions.size(); i++) {
			Pose2d a = t.motions[i]->GetInitialState();
			// (headings of half a turn to either side are different cells: two states can be at one pose)
			std::vector<int> found, exact;
			for (long b = bucket(a.x()) - 1; b <= bucket(a.x()) + 1; b++)
				for (auto [it, end] = byX.equal_range(b); it != end; ++it)
					if (it->second != (int)i + 1 && gap(t.poses[it->second], a) < 1e-6) {
						found.push_back(it->second);
						if (t.poses[it->second].theta == a.theta && t.poses[it->second].position == a.position)
							exact.push_back(it->second);
					}
			c.check(!found.empty(), "an explored motion starts at (", a.x(), ",", a.y(), ",", a.theta, "), where nothing was explored");
			if (exact.size() == 1)
				found = exact;
			unclear.push_back(found.size() > 1);
			for (int f : found)
				t.from[f].push_back((int)i);
		}
		// kinds of motions
		const unsigned n = par.numGeneratedMotion / 2;
		const double dmax = std::atan(par.wheelbase / q.radius);
		std::vector<double> kappas { 0.0 };
		for (unsigned i = 1; i <= n; i++)
			for (double sg : { 1.0, -1.0 })
				kappas.push_back(sg * std::tan(dmax * i / n) / par.wheelbase);
		const double full = 1.5 * par.spatialResolution;
		auto isGoal = [&](const Pose2d& p) { return (p.position - q.goal.position).norm() <= 2e-3 && std::abs(rsref::m2(p.theta - q.goal.theta)) <= 1e-4; };
		auto end = [](const Pose2d& p, double k, double len) {
			double th = p.theta + k * len;
			if (k == 0)
				return Pose2d(p.x() + len * std::cos(p.theta), p.y() + len * std::sin(p.theta), th);
			return Pose2d(p.x() + (std::sin(th) - std::sin(p.theta)) / k, p.y() - (std::cos(th) - std::cos(p.theta)) / k, th);
		};
		std::vector<bool> rs(t.motions.size());
		for (size_t i = 0; i < t.motions.size(); i++) {
			auto& m = *t.motions[i];
			rs[i] = dynamic_cast<PathReedsShepp*>(&m) != nullptr;
			Pose2d a = m.GetInitialState(), b = m.GetFinalState();
			double L = m.GetLength();
			if (rs[i]) {
				c.check(isGoal(b), "an explored Reeds-Shepp path ends at (", b.x(), ",", b.y(), ",", b.theta, "), not at the goal");
				continue;
			}
			c.check(L > 0 && L <= full + 1e-6, "an explored motion is ", L, " long instead of ", full);
			double sg = m.GetDirection(0.5) == Direction::Backward ? -1 : 1, best = 1e300;
			for (double k : kappas)
				best = std::min(best, gap(end(a, k, sg * L), b));
			c.check(best <= 1e-5 * (1 + L), "an explored motion from (", a.x(), ",", a.y(), ",", a.theta, ") to (", b.x(), ",", b.y(), ",", b.theta, ") of length ", L, " matches no steering angle, the closest is ", best, " away");
			if (i % (1 + t.motions.size() / 300) == 0)
				for (double r : { 0.25, 0.5, 0.75, 1.0 }) {
					Point2d p = m.Interpolate(r).position;
					c.check(u.clearance(p) >= u.safe - (1.75 * u.res + 0.5 * u.step + 1e-3) && u.inside(p) >= -(0.5 * u.step + 1e-3), "an explored motion comes within ", u.clearance(p), " of an obstacle, or leaves the map by ", -u.inside(p));
				}
		}
		if (same || !u.validator->IsStateValid(q.init) || !u.validator->IsStateValid(q.goal))
			return;
		// cells, with a margin for rounding
		auto cells = [&](const Pose2d& p) {
			std::vector<std::array<int, 3>> out;
			double th = std::fmod(p.theta + M_PI, 2 * M_PI);
			th = (th < 0 ? th + 2 * M_PI : th) - M_PI;
			for (double dx : { -1e-6, 1e-6 })
				for (double dy : { -1e-6, 1e-6 })
					for (double dt : { -1e-6, 1e-6 })
						out.push_back({ (int)((p.x() + dx) / par.spatialResolution), (int)((p.y() + dy) / par.spatialResolution), (int)((th + dt) / par.angularResolution) });
			if (M_PI - std::abs(th) < 1e-5)
				for (double w : { M_PI, -M_PI })
					out.push_back({ out[0][0], out[0][1], (int)(w / par.angularResolution) });
			return out;
		};
		std::set<std::array<int, 3>> held;
		for (auto& p : t.poses)
			for (auto& k : cells(p))
				held.insert(k);
		auto model = makeRef<KinematicBicycleModel>(par.wheelbase, 0.0);
		// costs from the root (without Voronoi cost)
		std::vector<double> g(t.poses.size(), -1);
		std::vector<Direction> dir(t.poses.size(), Direction::NoMotion);
		std::vector<int> order { 0 };
		g[0] = 0;
		for (size_t o = 0; o < order.size(); o++)
			for (int i : t.from[order[o]]) {
				if (g[i + 1] >= 0)
					continue;
				auto& m = *t.motions[i];
				Direction d = m.GetDirection(0.5);
				dir[i + 1] = d;
				g[i + 1] = g[order[o]] + m.GetLength() * (d == Direction::Backward ? q.rev : q.fwd) + (dir[order[o]] != Direction::NoMotion && dir[order[o]] != d ? q.sw : 0);
				if (unclear[i])
					g[i + 1] = 1e300;
				order.push_back(i + 1);
			}
		c.check(order.size() == t.poses.size(), "only ", order.size(), " of ", t.poses.size(), " explored states are connected to the initial state");
		size_t stride = 1 + t.poses.size() / 60, seen = 0;
		size_t first = (size_t)s.range(0, (int)stride - 1);
		for (size_t o = 0; o < t.poses.size(); o = o ? o + stride : first + 1) {
			const Pose2d& p = t.poses[o];
			if (o && rs[o - 1])
				continue;
			// a state in the frontier of a successful search was not expanded
			if (st >= 0 && t.from[o].empty())
				continue;
			seen++;
			for (double k : kappas)
				for (Direction d : { Direction::Forward, Direction::Backward }) {
					double delta = std::atan(k * par.wheelbase), sg = d == Direction::Forward ? 1 : -1;
					bool there = false;
					for (int i : t.from[o])
						if (!rs[i]) {
							double L = t.motions[i]->GetLength();
							there = there || (t.motions[i]->GetDirection(0.5) == d && gap(end(p, k, sg * L), t.poses[i + 1]) <= 1e-5 * (1 + L));
						}
					if (there)
						continue;
					PathConstantSteer m(model, p, delta, full, d);
					float ratio = 1;
					Pose2d e = m.GetFinalState();
					if (!u.validator->IsPathValid(m, &ratio))
						e = m.Interpolate(ratio);
					bool taken = false;
					for (auto& cell : cells(e))
						taken = taken || held.count(cell);
					c.check(taken, "the state (", p.x(), ",", p.y(), ",", p.theta, ") was expanded without the motion of curvature ", k, d == Direction::Forward ? " forward" : " backward", " to (", e.x(), ",", e.y(), ",", e.theta, "), a cell that no explored state holds");
				}
			// the direct path to the goal
			auto seg = ReedsShepp::Solver::GetOptimalPath(p, q.goal, q.radius, q.rev, q.fwd, q.sw);
			PathReedsShepp direct(p, seg, q.radius);
			double cost = direct.ComputeCost(q.sw, q.rev, q.fwd);
			if (cost < 4 && u.validator->IsPathValid(direct)) {
				c.check(st >= 0, "the search fails although the goal can be reached directly from the explored state (", p.x(), ",", p.y(), ",", p.theta, ")");
				if (q.voro == 0)
					c.check(planner.GetGraphSearchOptimalCost() <= g[o] + cost + q.sw + 1e-3 * (1 + g[o] + cost), "the path costs ", planner.GetGraphSearchOptimalCost(), ", the one through the explored state (", p.x(), ",", p.y(), ",", p.theta, ") only ", g[o] + cost);
			}
		}
		c.label("several expanded states judged", seen > 3);
		c.label("exhausted search judged", st < 0 && seen > 3);
	}

	void plan(Src& s, Case& c)
	{
		World u = world(s, c, 3);
		Query q;
		q.radius = s.oneOf<double>({ 1.0, 2.0, 0.6 });
		q.rev = s.oneOf<double>({ 1.0, 2.0 });
		q.fwd = s.oneOf<double>({ 1.0, 0.5 });
		q.sw = s.oneOf<double>({ 0.0, 1.0, 5.0 });
		q.voro = s.oneOf<double>({ 0.0, 1.0, 4.0 });
		unsigned motions = s.oneOf<unsigned>({ 5, 3, 7, 9 });
		HybridAStar::SearchParameters par(q.radius, q.sw, q.rev, q.fwd, q.voro, motions, s.oneOf<double>({ 1.0, 0.7 }), s.oneOf<double>({ 0.3, 0.5 }));
		HybridAStar planner(par);
		Status none = planner.SearchPath();
		c.check(none < 0, "a planner that is not initialized succeeds");
		c.check(!planner.Initialize(nullptr), "a planner is initialized without a validator");
		c.check(planner.Initialize(u.validator), "the planner cannot be initialized");
		GVD mine(u.map); // has seen what the planner's diagram has
		double interp = s.oneOf<double>({ 0.1, 0.25 });
		planner.pathInterpolation = (float)interp;
		auto sp = planner.GetSmootherParameters();
		bool smoothing = s.boolean();
		sp.maxIterations = smoothing ? 30 : 0;
		planner.SetSmootherParameters(sp);
		int rounds = s.range(1, 3), ok = 0, failed = 0;
		bool drove = false;
		for (int i = 0; i < rounds; i++) {
			if (i && s.boolean()) {
				if (!u.obstacles.empty() && s.boolean()) {
					u.map->RemoveObstacle(u.obstacles.back().obstacle);
					u.obstacles.pop_back();
				} else
					addObstacle(s, u);
				// the planner brings its diagram up to date
				if (s.boolean())
					u.map->Update();
			}
			Pose2d old = q.goal;
			bool again = i && s.chance(1, 4); // nearly the goal of the search before
			q.init = freePose(s, u);
			q.goal = again ? (s.boolean() ? Pose2d(old.x(), old.y(), s.angle()) : freePose(s, u)) : s.chance(1, 10) ? q.init : s.chance(1, 6) ? Pose2d(q.init.x() + s.uniform(-0.3, 0.3), q.init.y() + s.uniform(-0.3, 0.3), q.init.theta + s.uniform(-0.1, 0.1)) : freePose(s, u);
			if (again && s.boolean())
				q.goal.theta = old.theta;
			c << "; (" << q.init.x() << "," << q.init.y() << "," << q.init.theta << ") -> (" << q.goal.x() << "," << q.goal.y() << "," << q.goal.theta << ")";
			u.refresh();
			bool badEnd = !u.validator->IsStateValid(q.init) || !u.validator->IsStateValid(q.goal);
			bool same = gap(q.init, q.goal) < 1e-9;
			planner.SetInitState(q.init);
			planner.SetGoalState(q.goal);
			Status st = planner.SearchPath();
			if (badEnd && !same)
				c.check(st < 0, "the search succeeds although an end is not valid");
			if (same)
				c.check(st >= 0, "the search fails although the initial state is the goal");
			// the direct path is valid: it is tried first
			if (!badEnd && !same) {
				auto seg = ReedsShepp::Solver::GetOptimalPath(q.init, q.goal, q.radius, q.rev, q.fwd, q.sw);
				PathReedsShepp direct(q.init, seg, q.radius);
				bool valid = u.validator->IsPathValid(direct);
				double cost = direct.ComputeCost(q.sw, q.rev, q.fwd);
				c.label("direct path valid", valid);
				if (valid && cost < 4 && q.voro == 0)
					c.check(planner.GetGraphSearchOptimalCost() <= cost * (1 + 1e-6) + 1e-6, "the path costs ", planner.GetGraphSearchOptimalCost(), ", the direct path only ", cost);
				if (valid && cost < 4)
					c.check(st >= 0, "the search fails although the direct path of length ", direct.GetLength(), " is valid");
			}
			bool d = false;
			judge(c, s, u, planner, st, q, mine, interp, smoothing, d);
			judgeTree(c, s, u, planner, st, q, par, same);
			drove = drove || d;
			(st >= 0 ? ok : failed)++;
		}
		c << " motions " << motions << " radius " << q.radius << " ok " << ok << " failed " << failed;
		c.label("found", ok > 0);
		c.label("failed", failed > 0);
		c.nontrivial(drove);
	}
	/// A planner that was used before, also with another map, finds what a new one finds.
	void reuse(Src& s, Case& c)
	{
		Query q;
		q.radius = s.oneOf<double>({ 1.0, 2.0, 0.6 });
		q.rev = s.oneOf<double>({ 1.0, 2.0 });
		q.fwd = s.oneOf<double>({ 1.0, 0.5 });
		q.sw = s.oneOf<double>({ 0.0, 1.0, 5.0 });
		q.voro = s.oneOf<double>({ 0.0, 1.0, 4.0 });
		HybridAStar::SearchParameters par(q.radius, q.sw, q.rev, q.fwd, q.voro, s.oneOf<unsigned>({ 5, 3 }), s.oneOf<double>({ 1.0, 0.7 }), s.oneOf<double>({ 0.5, 0.3 }));
		HybridAStar used(par);
		std::vector<World> worlds;
		int n = s.range(1, 3);
		for (int i = 0; i < n; i++) {
			worlds.push_back(world(s, c, 3));
			c << "; ";
		}
		int now = 0, steps = s.size(2, 5), reinit = 0;
		c.check(used.Initialize(worlds[0].validator), "the planner cannot be initialized");
		bool drove = false, searched = false;
		Pose2d init, goal;
		for (int i = 0; i < steps; i++) {
			World& prev = worlds[now];
			if (i && s.boolean()) {
				now = s.range(0, n - 1);
				c.check(used.Initialize(worlds[now].validator), "the planner cannot be initialized again");
				reinit += &worlds[now] != &prev && searched;
				c << "; map " << now;
			}
			World& u = worlds[now];
			c.check(used.GetStateValidator() == u.validator, "the validator is not the one given");
			int change = i ? s.range(0, 5) : 0;
			if (change == 1)
				addObstacle(s, u);
			if (change == 2 && !u.obstacles.empty()) {
				u.map->RemoveObstacle(u.obstacles.back().obstacle);
				u.obstacles.pop_back();
			}
			if (change == 3)
				used.pathInterpolation = s.oneOf<float>({ 0.1f, 0.25f, 0.4f });
			if (change == 4) {
				auto sp = used.GetSmootherParameters();
				sp.maxIterations = s.range(0, 12);
				sp.collisionWeight = s.oneOf<float>({ 0.2f, 0.0f });
				used.SetSmootherParameters(sp);
			} else if (!i) {
				auto sp = used.GetSmootherParameters();
				sp.maxIterations = s.range(0, 12);
				used.SetSmootherParameters(sp);
			}
			if (change == 5) {
				u.safe = s.oneOf<double>({ 0.5, 1.0, 0.25 });
				u.validator->minSafeRadius = (float)u.safe;
			}
			u.refresh();
			// now and then the same query again
			bool sameGoal = i && change && u.inside(goal.position) > 0 && s.boolean(), sameInit = sameGoal && u.inside(init.position) > 0 && s.boolean();
			if (!sameInit)
				init = freePose(s, u);
			if (!sameGoal)
				goal = freePose(s, u);
			c << "; (" << init.x() << "," << init.y() << "," << init.theta << ") -> (" << goal.x() << "," << goal.y() << "," << goal.theta << ")";
			auto search = [&](HybridAStar& planner) {
				planner.SetInitState(init);
				planner.SetGoalState(goal);
				Status st = planner.SearchPath();
				std::vector<double> out { (double)st, planner.GetGraphSearchOptimalCost(), (double)planner.GetGraphSearchExploredPathSet().size(), (double)planner.GetStats().graphSearchStatus, (double)planner.GetStats().smoothingStatus };
				auto motions = planner.GetGraphSearchPath();
				auto poses = planner.GetPath();
				out.push_back(motions.size());
				out.push_back(poses.size());
				for (auto& m : motions)
					out.insert(out.end(), { m->GetLength(), m->GetFinalState().x(), m->GetFinalState().y(), m->GetFinalState().theta });
				for (auto& p : poses)
					out.insert(out.end(), { p.x(), p.y(), p.theta });
				return out;
			};
			// both start with the same random numbers
			auto b = child::run(c, "the search of a new planner", [&]() {
				HybridAStar fresh(par);
				fresh.Initialize(u.validator);
				fresh.pathInterpolation = used.pathInterpolation;
				fresh.SetSmootherParameters(used.GetSmootherParameters());
				return search(fresh);
			});
			auto a = search(used);
			searched = true;
			const char* names[] = { "status", "cost", "number of explored motions", "status of the graph search", "status of the smoother", "number of motions", "number of poses" };
			for (int k = 0; k < 7; k++)
				c.check(a[k] == b[k] || std::abs(a[k] - b[k]) <= 1e-9 * (1 + std::abs(b[k])), "the ", names[k], " of the planner used before is ", a[k], ", that of a new one ", b[k]);
			c.check(a.size() == b.size(), "the planners report ", a.size(), " and ", b.size(), " values");
			for (size_t k = 7; k < a.size(); k++)
				c.check(std::abs(a[k] - b[k]) <= 1e-9 * (1 + std::abs(b[k])), "value ", k - 7, " of the path of the planner used before is ", a[k], ", that of a new one ", b[k]);
			drove = drove || (i && a[5] > 1);
		}
		c.label("initialized again with another map", reinit > 0);
		c.label("several motions", drove);
		c.nontrivial(drove);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C24";
	p.rule = "maps of 6 to 12 m with up to three obstacles that change between the searches of one planner, turning radii 0.6 to 2 m, all cost multipliers, 3 to 9 steering angles, poses on and off special headings, the goal anywhere, next to or at the initial state, with and without smoothing; the motions of the graph search are sampled every two centimetres. reuse: a planner initialised again with another space, map or parameters against a new planner, both with the same random stream, in a child process. Non-trivial: a path longer than one metre was found.";
	p.assumptions = { "the bounds of the state space are centred on the map", "poses may be closer to obstacles than the safe radius by half the interpolation step and 1.75 cells (see C21)", "whether reaching a Reeds-Shepp path from a motion in the other direction is charged as a switch is left open", "the integral of the Voronoi field is compared within a factor and a cell diagonal per motion", "completeness is claimed only where the direct Reeds-Shepp path is valid and costs less than 4; there the path may not cost more than the direct one (without Voronoi cost)" };
	p.laws = { { "plan", 1000, plan, true, 120 }, { "reuse", 200, reuse, true, 120 } };
	return p;
}
