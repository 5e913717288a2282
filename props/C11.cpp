// C11: Reeds-Shepp solutions are the shortest / cheapest.
#include "rs_gen.h"
using namespace Planner;
using namespace pbt;
using namespace rsgen;

namespace {
	double costOf(const rsref::Cand& cand, double radius, double rev, double fwd, double sw)
	{
		double cost = 0;
		for (size_t i = 0; i < cand.size(); i++) {
			cost += std::abs(cand[i].len) * radius * (cand[i].len < 0 ? rev : fwd);
			if (i && (cand[i].len < 0) != (cand[i - 1].len < 0))
				cost += sw;
		}
		return cost;
	}
	std::string show(const rsref::Cand& cand)
	{
		std::ostringstream o;
		for (auto& x : cand)
			o << x.type << x.len << " ";
		return o.str();
	}

	void shortest(Src& s, Case& c)
	{
		Query q = query(s);
		describe(c, q);
		double d = ReedsShepp::Solver::GetShortestDistance(q.start, q.goal, q.radius);
		rsref::P g = local(q);
		auto cands = rsref::candidates(g.x, g.y, g.th);
		c.assume(!cands.empty());
		double best = 1e300;
		const rsref::Cand* bc = nullptr;
		for (auto& k : cands)
			if (rsref::length(k) < best) {
				best = rsref::length(k);
				bc = &k;
			}
		best *= q.radius;
		double tol = 2e-3 * q.radius + 1e-7 * best;
		c.check(d <= best + tol, "the shortest distance is reported as ", d, " but ", show(*bc), "(in turning radii) is only ", best, " long");
		double lower = std::hypot(g.x, g.y) * q.radius;
		c.check(d >= lower - tol, "the reported distance ", d, " is below the straight-line distance ", lower);
		c.check(d >= std::abs(g.th) * q.radius - tol, "the reported distance ", d, " is too short to turn by ", g.th);
		// (a lateral offset e costs about 4 sqrt(e): rounding of the end pose shows up amplified)
		c.check(d >= best - tol - 3e-3 * q.radius, "the reported distance ", d, " is below the optimum ", best);
		auto seg = ReedsShepp::Solver::GetShortestPath(q.start, q.goal, q.radius);
		c.check(std::abs(seg.GetLength(q.radius) - best) <= tol + 3e-3 * q.radius, "the shortest path is ", seg.GetLength(q.radius), " long, the optimum is ", best);
		c.nontrivial(best > 0.1 * q.radius);
		c.label("tight manoeuvre", lower < 2 * q.radius);
	}

	struct Weights {
		float rev, fwd, sw;
	};
	Weights weights(Src& s)
	{
		Weights w;
		w.rev = s.oneOf<float>({ 1.f, 1.5f, 3.f, 0.5f });
		w.fwd = s.oneOf<float>({ 1.f, 2.f, 0.7f });
		w.sw = s.oneOf<float>({ 0.f, 0.5f, 5.f, 100.f });
		return w;
	}

	bool judgeOptimal(Case& c, const Query& q, const Weights& w)
	{
		auto [rev, fwd, sw] = w;
		describe(c, q);
		c << " rev=" << rev << " fwd=" << fwd << " switch=" << sw << "; ";
		auto seg = ReedsShepp::Solver::GetOptimalPath(q.start, q.goal, q.radius, rev, fwd, sw);
		// cost of the returned motions, from the definition
		rsref::Cand mine;
		for (int i = 0; i < seg.GetNumMotions(); i++) {
			auto& m = seg.GetMotion(i);
			mine.push_back({ 'S', m.direction == Direction::Backward ? -std::max(m.length, 1e-300) : m.length });
		}
		c.check(!mine.empty(), "no path");
		double cost = costOf(mine, q.radius, rev, fwd, sw);
		double rep = seg.ComputeCost(q.radius, rev, fwd, sw);
		c.check(std::abs(rep - cost) <= 1e-5 * (1 + cost), "reported cost ", rep, " but the motions cost ", cost);
		PathReedsShepp path(q.start, seg, q.radius);
		double prep = path.ComputeCost(sw, rev, fwd);
		c.check(std::abs(prep - cost) <= 1e-5 * (1 + cost), "the path reports cost ", prep, " but the motions cost ", cost);
		// With a switching cost the minimum is discontinuous at goals that only just admit a
		// path with fewer cusps; rounding may fall on either side there.  The reference is the
		// worst minimum over an infinitesimal neighbourhood of the goal.
		rsref::P g = local(q);
		c.assume(std::abs(g.x) + std::abs(g.y) + std::abs(g.th) > 1e-3); // below, rounding decides the number of cusps
		double ref = 0;
		rsref::Cand refCand;
		for (int k = 0; k < 25; k++) {
			static const double mag[] = { 1e-9, 1e-13, 1e-15, 0 };
			double eps = mag[k / 8] * (1 + std::abs(g.x) + std::abs(g.y));
			double px = g.x + (k & 1 ? eps : -eps), py = g.y + (k & 2 ? eps : -eps), pt = g.th + (k & 4 ? eps : -eps);
			double best = 1e300;
			rsref::Cand bc;
			for (auto& cand : rsref::candidates(px, py, pt)) {
				double kc = costOf(cand, q.radius, rev, fwd, sw);
				if (kc < best) {
					best = kc;
					bc = cand;
				}
			}
			if (best > ref) {
				ref = best;
				refCand = bc;
			}
		}
		double tol = 1e-5 * (1 + cost) + 4e-3 * q.radius;
		c.check(cost <= ref + tol, "the returned path costs ", cost, " but ", show(refCand), "(in turning radii) costs ", ref);
		auto sh = ReedsShepp::Solver::GetShortestPath(q.start, q.goal, q.radius);
		c.check(cost <= sh.ComputeCost(q.radius, rev, fwd, sw) + tol, "the shortest path is cheaper than the returned one");
		return cost > 0.1 * q.radius && (rev != 1 || fwd != 1 || sw != 0);
	}

	void optimal(Src& s, Case& c)
	{
		Query q = query(s);
		c.nontrivial(judgeOptimal(c, q, weights(s)));
	}

	/// Queries that differ from the one before in one respect only.
	void sequence(Src& s, Case& c)
	{
		Query q = query(s);
		Weights w = weights(s);
		int n = s.range(2, 4), good = 0;
		for (int i = 0; i < n; i++) {
			good += judgeOptimal(c, q, w);
			auto shortest = ReedsShepp::Solver::GetShortestPath(q.start, q.goal, q.radius);
			double d = ReedsShepp::Solver::GetShortestDistance(q.start, q.goal, q.radius);
			c.check(std::abs(shortest.GetLength(q.radius) - d) <= 1e-9 * (1 + d), "the shortest path is ", shortest.GetLength(q.radius), " long, the shortest distance is ", d);
			rsref::P g = local(q);
			double ref = 1e300;
			for (auto& cand : rsref::candidates(g.x, g.y, g.th))
				ref = std::min(ref, costOf(cand, q.radius, 1, 1, 0));
			c.check(std::abs(d - ref) <= 6e-3 * q.radius + 1e-7 * ref, "the shortest distance is ", d, " instead of ", ref);
			Weights other = weights(s);
			switch (s.range(0, 8)) {
			case 0: w.rev = other.rev; break;
			case 1: w.fwd = other.fwd; break;
			case 2: w.sw = other.sw; break;
			case 3: q.radius *= s.oneOf<double>({ 1.5, 0.75 }); break;
			case 4: q.goal.theta = Pose2d(0, 0, q.goal.theta + s.uniform(-3, 3)).theta; break;
			case 5: q.goal.x() += q.radius * s.uniform(-2, 2); break;
			case 6: q.goal.y() += q.radius * s.uniform(-2, 2); break;
			case 7: q.start.theta = Pose2d(0, 0, q.start.theta + s.uniform(-3, 3)).theta; break;
			case 8: std::swap(q.start, q.goal); break;
			}
		}
		c.nontrivial(good > 0);
	}

	double dist(const Pose2d& a, const Pose2d& b, double r) { return ReedsShepp::Solver::GetShortestDistance(a, b, r); }

	void metric(Src& s, Case& c)
	{
		Query q = query(s);
		describe(c, q);
		double d = dist(q.start, q.goal, q.radius), tol = 3e-3 * q.radius + 1e-7 * d;
		double back = dist(q.goal, q.start, q.radius);
		c.check(std::abs(d - back) <= tol, "distance there ", d, ", distance back ", back);
		// triangle inequality
		Pose2d m(s.signedMag(q.scale), s.signedMag(q.scale), s.angle());
		double d1 = dist(q.start, m, q.radius), d2 = dist(m, q.goal, q.radius);
		c.check(d <= d1 + d2 + tol + 1e-7 * (d1 + d2), "direct distance ", d, " exceeds ", d1, " + ", d2, " through (", m.x(), ",", m.y(), ",", m.theta, ")");
		// invariance under a common displacement
		Pose2d t(s.signedMag(50), s.signedMag(50), s.angle());
		double dm = dist(t + q.start, t + q.goal, q.radius);
		c.check(std::abs(dm - d) <= tol, "distance ", d, " becomes ", dm, " after moving both poses");
		// scaling
		double k = s.oneOf<double>({ 2.0, 0.25, 8.0 });
		Pose2d a = q.start, b = q.goal;
		a.position *= k;
		b.position *= k;
		double ds = dist(a, b, q.radius * k);
		c.check(std::abs(ds - k * d) <= k * tol, "distance ", d, " becomes ", ds, " after scaling by ", k);
		// mirror images
		Pose2d ma(q.start.x(), -q.start.y(), -q.start.theta), mb(q.goal.x(), -q.goal.y(), -q.goal.theta);
		double dr = dist(ma, mb, q.radius);
		c.check(std::abs(dr - d) <= tol, "distance ", d, " becomes ", dr, " after reflection");
		// a wider turning circle never shortens the way
		double dw = dist(q.start, q.goal, q.radius * 1.5);
		c.check(dw >= d - tol, "distance ", d, " drops to ", dw, " with a wider turning circle");
		c.nontrivial(d > 0.1 * q.radius);
	}

	void rewrite(Src& s, Case& c)
	{
		// motions appended by hand: cost definition and symmetries of a segment
		ReedsShepp::PathSegment seg;
		rsref::Cand cand;
		int n = s.range(0, 5);
		double radius = s.oneOf<double>({ 1.0, 0.5, 4.0 });
		for (int i = 0; i < n; i++) {
			Steer st = s.oneOf<Steer>({ Steer::Left, Steer::Straight, Steer::Right });
			bool b = s.boolean();
			double len = s.uniform(0, 4);
			seg.AddMotion(st, b ? Direction::Backward : Direction::Forward, len);
			cand.push_back({ st == Steer::Left ? 'L' : st == Steer::Right ? 'R'
																		  : 'S',
				b ? -len - 1e-300 : len });
		}
		c << show(cand);
		c.check(seg.GetNumMotions() == n, n, " motions were added, ", seg.GetNumMotions(), " reported");
		float rev = s.oneOf<float>({ 1.f, 1.5f, 3.f }), fwd = s.oneOf<float>({ 1.f, 2.f }), sw = s.oneOf<float>({ 0.f, 0.5f, 5.f });
		double rep = seg.ComputeCost(radius, rev, fwd, sw);
		if (n == 0) {
			c.check(std::isinf(rep), "a segment without motion costs ", rep);
			return;
		}
		double cost = costOf(cand, radius, rev, fwd, sw);
		c.check(std::abs(rep - cost) <= 1e-5 * (1 + cost), "reported cost ", rep, " but the motions cost ", cost);
		c.check(std::abs(seg.GetLength(radius) - rsref::length(cand) * radius) < 1e-9 * (1 + rsref::length(cand) * radius), "wrong length");
		auto flipped = seg;
		flipped.TimeflipTransform();
		double fc = costOf(cand, radius, fwd, rev, sw);
		c.check(std::abs(flipped.ComputeCost(radius, rev, fwd, sw) - fc) <= 1e-5 * (1 + fc), "time flip does not exchange forward and backward costs");
		auto ref = seg;
		ref.ReflectTransform();
		c.check(ref.ComputeCost(radius, rev, fwd, sw) == (float)rep, "reflection changes the cost");
		Pose2d start(s.signedMag(5), s.signedMag(5), s.angle());
		PathReedsShepp a(Pose2d(0, 0, 0), seg, radius), f(Pose2d(0, 0, 0), flipped, radius), r(Pose2d(0, 0, 0), ref, radius);
		auto pa = a.GetFinalState(), pf = f.GetFinalState(), pr = r.GetFinalState();
		rsref::P p = rsref::simulate(cand);
		c.check(std::abs(pa.x() - p.x * radius) < 1e-9 * (1 + radius * 20) && std::abs(pa.y() - p.y * radius) < 1e-9 * (1 + radius * 20) && std::abs(rsref::m2(pa.theta - p.th)) < 1e-9, "the motions end elsewhere");
		c.check(std::abs(pf.x() + pa.x()) < 1e-7 && std::abs(pf.y() - pa.y()) < 1e-7 && std::abs(rsref::m2(pf.theta + pa.theta)) < 1e-7, "time flip does not mirror the end pose front to back");
		c.check(std::abs(pr.x() - pa.x()) < 1e-7 && std::abs(pr.y() + pa.y()) < 1e-7 && std::abs(rsref::m2(pr.theta + pa.theta)) < 1e-7, "reflection does not mirror the end pose left to right");
		c.nontrivial(n > 2);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C11";
	p.rule = "the queries of C10, compared with an independent Reeds-Shepp enumeration (each candidate verified by simulation): shortest length, minimum weighted cost; metric laws (symmetry, triangle inequality, invariance under displacement, reflection, scaling, monotonicity in the radius); sequences of queries that differ in one respect; cost definition on hand-built motion sequences. Non-trivial: a path longer than a tenth of the turning radius (and weights that are not all neutral, for the weighted cost), more than two motions for hand-built sequences.";
	p.assumptions = { "coordinates up to 300 turning radii", "weighted costs: goals at least 1e-3 turning radii or radians away", "costs are computed in single precision by the library: compared to 1e-5 relative" };
	p.laws = {
		{ "shortest_length", 200000, shortest },
		{ "cheapest", 80000, optimal },
		{ "sequence", 8000, sequence },
		{ "metric", 100000, metric },
		{ "segment_cost", 60000, rewrite },
	};
	return p;
}
