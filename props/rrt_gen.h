// Worlds, controlled sampling and reference search shared by the RRT and RRT* properties.
#pragma once
#include "core/base.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include "paths/path_r2.h"
#include "state_space/state_space_r2.h"
#include "state_validator/state_validator.h"
#include "pbt.h"

namespace rrtgen {
	using namespace Planner;
	using pbt::Case;
	using pbt::Src;

	struct Disc {
		Point2d c;
		double r;
	};

	inline double segDist(const Point2d& a, const Point2d& b, const Point2d& p)
	{
		Point2d d = b - a;
		double l2 = d.squaredNorm();
		double t = l2 > 0 ? std::clamp((p - a).dot(d) / l2, 0.0, 1.0) : 0.0;
		return (a + t * d - p).norm();
	}

	struct World {
		Point2d lb, ub, init, goal;
		std::vector<Disc> discs;
		/// How states are connected: 0 straight, 1 along x and then along y, 2 straight, twice as long when going up
		int kind = 0;
		double distance(const Point2d& a, const Point2d& b, const Point2d& c) const
		{
			if (kind != 1)
				return segDist(a, b, c);
			Point2d corner(b.x(), a.y());
			return std::min(segDist(a, corner, c), segDist(corner, b, c));
		}
		bool valid(const Point2d& a, const Point2d& b, double slack = 0) const
		{
			for (auto& o : discs)
				if (distance(a, b, o.c) <= o.r - slack)
					return false;
			return true;
		}
		/// A disc is so close to the limit that rounding decides
		bool unclear(const Point2d& a, const Point2d& b) const
		{
			for (auto& o : discs)
				if (std::abs(distance(a, b, o.c) - o.r) < 1e-9)
					return true;
			return false;
		}
		double length(const Point2d& a, const Point2d& b) const
		{
			if (kind == 1)
				return std::abs(b.x() - a.x()) + std::abs(b.y() - a.y());
			return (b - a).norm() * (kind == 2 && b.y() > a.y() ? 2 : 1);
		}
		Point2d at(const Point2d& a, const Point2d& b, double ratio) const
		{
			if (ratio >= 1)
				return b;
			if (kind != 1)
				return (1 - ratio) * a + ratio * b;
			double x = std::abs(b.x() - a.x()), y = std::abs(b.y() - a.y()), l = ratio * (x + y);
			if (l < x)
				return Point2d(a.x() + (b.x() > a.x() ? l : -l), a.y());
			l -= x;
			return Point2d(b.x(), a.y() + (b.y() > a.y() ? l : -l));
		}
	};

	/// Connections of the other kinds.
	class WorldPath : public PathR2Base {
	public:
		const World* w;
		WorldPath(const World* w, const Point2d& a, const Point2d& b) :
			PathR2Base(a, w->length(a, b)), w(w) { m_final = b; }
		virtual Point2d Interpolate(double ratio) const override { return w->at(m_init, m_final, ratio); }
		virtual void Truncate(double ratio) override
		{
			m_final = Interpolate(ratio);
			m_length *= ratio;
		}
	};
	class WorldConnection : public PathConnection<Point2d> {
	public:
		const World* w;
		WorldConnection(const World* w) :
			w(w) { }
		virtual Ref<PathR2Base> Connect(const Point2d& a, const Point2d& b) override { return makeRef<WorldPath>(w, a, b); }
	};

	/// Validates straight segments against discs.
	class Validator : public StateValidator<Point2d, 2, double> {
	public:
		const World* w;
		uint64_t calls = 0;
		Validator(const Ref<StateSpace<Point2d, 2, double>>& sp, const World* w) :
			StateValidator(sp), w(w) { }
		virtual bool IsStateValid(const Point2d& p) override { return w->valid(p, p); }
		virtual bool IsPathValid(const Path<Point2d>& path, float* last = nullptr) override
		{
			calls++;
			if (last)
				*last = 1;
			return w->valid(path.GetInitialState(), path.GetFinalState());
		}
	};

	/// State space whose samples are given in advance.
	class Scripted : public StateSpace<Point2d, 2, double> {
	public:
		std::vector<Point2d> samples;
		size_t used = 0;
		Scripted(const Point2d& lb, const Point2d& ub) :
			StateSpace(std::array<Point2d, 2> { lb, ub }) { }
		virtual void EnforceBounds(Point2d& p) override { p = p.cwiseMax(bounds[0]).cwiseMin(bounds[1]); }
		virtual bool ValidateBounds(const Point2d& p) override { return (p.array() >= bounds[0].array()).all() && (p.array() <= bounds[1].array()).all(); }
		virtual Point2d SampleUniform() override
		{
			if (used >= samples.size())
				throw pbt::Failure { "the search draws more samples than its iteration budget (" + std::to_string(samples.size()) + ")" };
			return samples[used++];
		}
		virtual Point2d SampleGaussian(const Point2d& m, const Point2d&) override { return m; }
	};

	/// Jitter that keeps generated points in general position (no exact ties).
	inline double jitter(int i, int axis) { return 1e-3 * std::fmod((i + 1) * (axis ? 0.75487766624669276 : 0.61803398874989485), 1.0); }

	inline World makeWorld(Src& s, double size)
	{
		World w;
		w.lb = Point2d(0, 0);
		w.ub = Point2d(size, size);
		auto pt = [&](int i) { return Point2d(s.uniform(0, size) + jitter(i, 0), s.uniform(0, size) + jitter(i, 1)); };
		w.init = pt(1000);
		w.goal = s.chance(1, 12) ? w.init : pt(1001);
		int n = s.chance(1, 3) ? 0 : s.range(1, 6);
		for (int i = 0; i < n; i++) {
			Disc d { pt(2000 + i), size * s.uniform(0.01, 0.2) };
			if ((d.c - w.init).norm() > d.r + 1e-3)
				w.discs.push_back(d);
		}
		return w;
	}

	inline void describe(Case& c, const World& w)
	{
		c << "init (" << w.init.x() << "," << w.init.y() << ") goal (" << w.goal.x() << "," << w.goal.y() << ") discs:";
		for (auto& d : w.discs)
			c << " (" << d.c.x() << "," << d.c.y() << ";" << d.r << ")";
	}

	struct RefNode {
		Point2d p;
		int parent;
		double cost;
		int from; // how it was reached first
		Point2d sample;
		double ratio;
	};
	struct RefResult {
		bool success = false;
		double cost = 0;
		int depth = 0;
		std::vector<Point2d> path;
		bool ambiguous = false;
		size_t iterations = 0;
	};

	/// Straightforward reference: brute-force neighbours.
	inline RefResult reference(const World& w, const std::vector<Point2d>& samples, unsigned maxIter, unsigned maxNodes, double step, bool star)
	{
		RefResult r;
		std::vector<RefNode> nodes { { w.init, -1, 0.0, -1, w.init, 1.0 } };
		for (unsigned it = 0; it < maxIter && nodes.size() < maxNodes; it++) {
			r.iterations = it + 1;
			const Point2d& q = samples[it];
			std::vector<std::pair<double, int>> ds;
			for (size_t i = 0; i < nodes.size(); i++)
				ds.push_back({ (nodes[i].p - q).norm(), (int)i });
			std::sort(ds.begin(), ds.end());
			if (ds.size() > 1 && ds[1].first - ds[0].first < 1e-9)
				r.ambiguous = true;
			int near = ds[0].second;
			double len = w.length(nodes[near].p, q);
			double ratio = len > 0 ? std::min(1.0, step / len) : 1.0;
			Point2d n = w.at(nodes[near].p, q, ratio);
			if (w.unclear(nodes[near].p, n))
				r.ambiguous = true;
			if (!w.valid(nodes[near].p, n))
				continue;
			int id = -1;
			for (size_t i = 0; i < nodes.size(); i++) {
				if (nodes[i].p == n) {
					id = i;
					// the same state for any rounding: an end that was given, or the same motion again
					bool given = ratio == 1 && nodes[i].ratio == 1, repeated = nodes[i].from == near && nodes[i].sample == q && nodes[i].ratio == ratio;
					if (!given && !repeated)
						r.ambiguous = true;
					// without an exact goal test the last digit of a state is free, and with it the number of nodes
					if (!star && !repeated && maxNodes <= maxIter)
						r.ambiguous = true;
				} else if ((nodes[i].p - n).norm() < 1e-9)
					r.ambiguous = true; // rounding decides whether this is a new state
			}
			if (id < 0) {
				int par = near;
				double cost = nodes[near].cost + w.length(nodes[near].p, n);
				if (star) {
					std::vector<std::pair<double, int>> dn;
					for (size_t i = 0; i < nodes.size(); i++)
						dn.push_back({ (nodes[i].p - n).norm(), (int)i });
					std::sort(dn.begin(), dn.end());
					size_t k = std::max<unsigned>(1, (unsigned)std::log(nodes.size()));
					if (k < dn.size() && dn[k].first - dn[k - 1].first < 1e-9)
						r.ambiguous = true;
					double best = std::numeric_limits<double>::infinity();
					for (size_t j = 0; j < std::min(k, dn.size()); j++) {
						auto& cand = nodes[dn[j].second];
						if (w.unclear(cand.p, n))
							r.ambiguous = true;
						double cc = cand.cost + w.length(cand.p, n);
						if (cc < best && w.valid(cand.p, n)) {
							best = cc;
							par = dn[j].second;
						}
					}
					if (best < 1e300)
						cost = best;
				}
				nodes.push_back({ n, par, cost, near, q, ratio });
				id = (int)nodes.size() - 1;
			}
			bool sol = star ? n == w.goal : (n - w.goal).norm() < 1;
			if (!star && std::abs((n - w.goal).norm() - 1) < 1e-9)
				r.ambiguous = true;
			if (star && !sol && (n - w.goal).norm() < 1e-9)
				r.ambiguous = true;
			if (sol) {
				r.success = true;
				r.cost = nodes[id].cost;
				for (int i = id; i >= 0; i = nodes[i].parent)
					r.path.insert(r.path.begin(), nodes[i].p);
				return r;
			}
		}
		return r;
	}

	template <typename Algo>
	void checkPath(Case& c, const World& w, const std::vector<Point2d>& path, Status st, double step, unsigned maxNodes, bool star)
	{
		if (st != Status::Success) {
			c.check(path.empty(), "a failed search left a path of ", path.size(), " states");
			return;
		}
		c.check(!path.empty(), "a successful search has no path");
		c.check(path.front() == w.init, "the path does not start at the initial state");
		if (star)
			c.check(path.back() == w.goal, "the path does not end at the goal");
		else
			c.check((path.back() - w.goal).norm() < 1, "the path ends ", (path.back() - w.goal).norm(), " away from the goal");
		c.check(path.size() <= maxNodes, "the path has ", path.size(), " states, more than the ", maxNodes, " nodes allowed in the tree");
		for (size_t i = 1; i < path.size(); i++) {
			if (!star)
				c.check(w.length(path[i - 1], path[i]) <= step * (1 + 1e-9) + 1e-9, "edge ", i, " is ", w.length(path[i - 1], path[i]), " long, more than ", step);
			c.check(w.valid(path[i - 1], path[i], 1e-9), "edge ", i, " from (", path[i - 1].x(), ",", path[i - 1].y(), ") to (", path[i].x(), ",", path[i].y(), ") is in collision");
			c.check(path[i] != path[i - 1], "state ", i, " is repeated");
		}
		for (size_t i = 0; i < path.size(); i++)
			for (size_t j = 0; j < i; j++)
				c.check(path[i] != path[j], "the path visits state ", j, " twice");
	}

	template <typename Algo, typename Params, bool Star>
	void scriptedOf(Src& s, Case& c, bool big)
	{
		double size = s.oneOf<double>({ 5.0, 10.0, 30.0 });
		World w = makeWorld(s, size);
		auto space = makeRef<Scripted>(w.lb, w.ub);
		auto val = makeRef<Validator>(space, &w);
		w.kind = s.chance(1, 3) ? s.range(1, 2) : 0;
		Ref<PathConnection<Point2d>> connection = makeRef<PathConnectionR2>();
		if (w.kind)
			connection = makeRef<WorldConnection>(&w);
		Algo algo(space, val, connection);
		int searches = s.range(1, 3);
		describe(c, w);
		c.label("angular connections", w.kind == 1);
		c.label("connections uphill", w.kind == 2);
		for (int q = 0; q < searches; q++) {
			Params p;
			p.maxIteration = big ? s.range(400, 1500) : s.size(1, 150);
			p.maxNumberTreeNode = s.chance(1, 5) ? s.range(1, big ? 1000 : 30) : 10000;
			p.maxConnectionDistance = size * s.uniform(0.02, big ? 0.06 : 0.6);
			p.goalBias = !big && s.chance(1, 4) ? 2.0 : 0.0;
			std::vector<Point2d> samples;
			int goalRate = big ? 1000 : s.oneOf<int>({ 2, 4, 8, 30, 100 });
			int repeatRate = s.oneOf<int>({ 8, 8, 2 });
			for (unsigned i = 0; i < p.maxIteration; i++) {
				if (p.goalBias > 1 || s.chance(1, goalRate))
					samples.push_back(w.goal);
				else if (i > 0 && s.chance(1, repeatRate))
					samples.push_back(samples[s.range(0, i - 1)]); // reach the same state again
				else
					samples.push_back(Point2d(s.uniform(0, size) + jitter(i, 0), s.uniform(0, size) + jitter(i, 1)));
			}
			space->samples = samples;
			if (p.goalBias > 1) // every iteration goes towards the goal, whatever the space would give
				for (auto& q : space->samples)
					q = Point2d(s.uniform(0, size), s.uniform(0, size));
			space->used = 0;
			val->calls = 0;
			algo.SetParameters(p);
			algo.SetInitState(w.init);
			algo.SetGoalState(w.goal);
			Status st = algo.SearchPath();
			auto path = algo.GetPath();
			RefResult ref = reference(w, samples, p.maxIteration, p.maxNumberTreeNode, p.maxConnectionDistance, Star);
			c << " | iters " << p.maxIteration << " nodes " << p.maxNumberTreeNode << " step " << p.maxConnectionDistance << (st == Status::Success ? " found " : " not found ") << path.size();
			checkPath<Algo>(c, w, path, st, p.maxConnectionDistance, p.maxNumberTreeNode, Star);
			c.check(space->used <= p.maxIteration, "the search ran ", space->used, " iterations, the budget is ", p.maxIteration);
			if (!Star)
				c.check(val->calls <= p.maxIteration, "the search tried ", val->calls, " extensions, the iteration budget is ", p.maxIteration);
			if (ref.ambiguous) {
				c.label("near tie, reference not compared");
				continue;
			}
			c.check((st == Status::Success) == ref.success, "search ", st == Status::Success ? "succeeded" : "failed", " but the reference search with the same samples ", ref.success ? "succeeds" : "fails", " after ", ref.iterations, " iterations");
			if (ref.success) {
				// a state reached again may differ in its last digits
				path.erase(std::unique(path.begin(), path.end(), [](const Point2d& a, const Point2d& b) { return (a - b).norm() < 1e-12; }), path.end());
				double len = 0;
				for (size_t i = 1; i < path.size(); i++)
					len += w.length(path[i - 1], path[i]);
				c.check(std::abs(len - ref.cost) <= 1e-7 * (1 + ref.cost), "the path is ", len, " long, the reference search with the same samples finds ", ref.cost);
				if (!Star) {
					c.check(path.size() == ref.path.size(), "the path has ", path.size(), " states, the reference ", ref.path.size());
					for (size_t i = 0; i < path.size(); i++)
						c.check((path[i] - ref.path[i]).norm() < 1e-7, "state ", i, " differs from the reference search with the same samples");
				}
				c.label("found");
				c.nontrivial(path.size() > 3);
			}
			if (w.discs.empty() && p.goalBias > 1) {
				// nothing in the way and always steering to the goal
				unsigned need = (unsigned)std::ceil(w.length(w.init, w.goal) / p.maxConnectionDistance) + 2;
				if (need <= p.maxIteration && need < p.maxNumberTreeNode)
					c.check(st == Status::Success, "no obstacle and always steering to the goal, yet no path within ", p.maxIteration, " iterations");
			}
			if (s.boolean()) {
				// change the query for the next search
				std::swap(w.init, w.goal);
				if (!w.valid(w.init, w.init))
					std::swap(w.init, w.goal);
			}
			if (s.chance(1, 3)) {
				// other obstacles
				World other = makeWorld(s, size);
				w.discs.clear();
				for (auto& d : other.discs)
					if ((d.c - w.init).norm() > d.r + 1e-3)
						w.discs.push_back(d);
				c << " | other discs";
			}
		}
	}

	template <typename Algo, typename Params, bool Star>
	void scripted(Src& s, Case& c)
	{
		scriptedOf<Algo, Params, Star>(s, c, false);
	}
	template <typename Algo, typename Params, bool Star>
	void large(Src& s, Case& c)
	{
		scriptedOf<Algo, Params, Star>(s, c, true);
	}

	/// Nothing is ever valid: the search goes on to its budget, and aims at the goal with the given probability.
	class Refuse : public StateValidator<Point2d, 2, double> {
	public:
		Point2d goal;
		unsigned calls = 0, toGoal = 0;
		Refuse(const Ref<StateSpace<Point2d, 2, double>>& sp, const Point2d& goal) :
			StateValidator(sp), goal(goal) { }
		virtual bool IsStateValid(const Point2d&) override { return false; }
		virtual bool IsPathValid(const Path<Point2d>& path, float* last = nullptr) override
		{
			if (last)
				*last = 0;
			calls++;
			toGoal += (path.GetFinalState() - goal).norm() < 1e-9;
			return false;
		}
	};
	template <typename Algo, typename Params, bool Star>
	void bias(Src& s, Case& c)
	{
		Point2d init(1, 1), goal(s.uniform(2, 9), s.uniform(2, 9));
		auto space = makeRef<StateSpaceR2>(Point2d(0, 0), Point2d(10, 10));
		auto val = makeRef<Refuse>(space, goal);
		Algo algo(space, val, makeRef<PathConnectionR2>());
		Params p;
		p.maxIteration = s.chance(1, 8) ? s.range(3000, 30000) : s.range(200, 3000);
		p.maxConnectionDistance = 100;
		p.goalBias = s.oneOf<double>({ 0.0, 0.02, 0.05, 0.3, 0.5, 0.9, 1.0 });
		algo.SetParameters(p);
		c.check(algo.GetParameters().goalBias == p.goalBias && algo.GetParameters().maxIteration == p.maxIteration && algo.GetParameters().maxConnectionDistance == p.maxConnectionDistance && algo.GetParameters().maxNumberTreeNode == p.maxNumberTreeNode, "the parameters read differ from those set");
		algo.SetInitState(init);
		algo.SetGoalState(goal);
		Status st = algo.SearchPath();
		c << p.maxIteration << " iterations, bias " << p.goalBias << ": " << val->toGoal << " towards the goal";
		c.check(st == Status::Failure && algo.GetPath().empty(), "a search without any valid motion succeeds");
		c.check(val->calls == p.maxIteration, "the search made ", val->calls, " attempts in ", p.maxIteration, " iterations");
		double n = p.maxIteration, mean = n * p.goalBias, dev = std::sqrt(n * p.goalBias * (1 - p.goalBias));
		c.check(std::abs(val->toGoal - mean) <= 7 * dev + 2, "the goal was aimed at ", val->toGoal, " times in ", n, " iterations with a bias of ", p.goalBias);
		c.nontrivial(p.goalBias > 0 && p.goalBias < 1);
	}

	/// The library's own sampler (one process per case, seeded).
	template <typename Algo, typename Params, bool Star>
	void sampled(Src& s, Case& c)
	{
		double size = s.oneOf<double>({ 5.0, 10.0, 30.0 });
		World w = makeWorld(s, size);
		w.ub = w.ub + Point2d(0.01, 0.01);
		auto space = makeRef<StateSpaceR2>(w.lb, w.ub);
		auto val = makeRef<Validator>(space, &w);
		Algo algo(space, val, makeRef<PathConnectionR2>());
		Params p;
		p.maxIteration = s.size(1, 800);
		p.maxNumberTreeNode = s.chance(1, 5) ? s.range(1, 100) : 10000;
		p.maxConnectionDistance = size * s.uniform(0.02, 0.6);
		p.goalBias = s.oneOf<double>({ 0.0, 0.05, 0.5 });
		algo.SetParameters(p);
		describe(c, w);
		int searches = s.range(1, 3);
		for (int q = 0; q < searches; q++) {
			algo.SetInitState(w.init);
			algo.SetGoalState(w.goal);
			val->calls = 0;
			Status st = algo.SearchPath();
			auto path = algo.GetPath();
			c << " | iters " << p.maxIteration << " step " << p.maxConnectionDistance << (st == Status::Success ? " found " : " not found ") << path.size();
			checkPath<Algo>(c, w, path, st, p.maxConnectionDistance, p.maxNumberTreeNode, Star);
			if (!Star)
				c.check(val->calls <= p.maxIteration, "the search tried ", val->calls, " extensions, the iteration budget is ", p.maxIteration);
			c.label("found", st == Status::Success);
			c.nontrivial(path.size() > 3);
			for (auto& pt : path)
				c.check(space->ValidateBounds(pt), "a state of the path is outside the state space");
			if (s.boolean() && w.valid(w.goal, w.goal))
				std::swap(w.init, w.goal);
		}
	}
}
