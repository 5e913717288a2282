// C10: every Reeds-Shepp connection is a drivable path that ends at the goal pose.
#include "rs_gen.h"
using namespace Planner;
using namespace pbt;
using namespace rsgen;

namespace {
	const char* wordNames[] = {
		"LfSfLf", "LbSbLb", "RfSfRf", "RbSbRb",
		"LfSfRf", "LbSbRb", "RfSfLf", "RbSbLb",
		"LfRbLf", "LbRfLb", "RfLbRf", "RbLfRb",
		"LfRbLb", "LbRfLf", "RfLbRb", "RbLfRf",
		"LfRfLb", "LbRbLf", "RfLfRb", "RbLbRf",
		"LfRufLubRb", "LbRubLufRf", "RfLufRubLb", "RbLubRufLf",
		"LfRubLubRf", "LbRufLufRb", "RfLubRubLf", "RbLufRufLb",
		"LfRbpi2SbLb", "LbRfpi2SfLf", "RfLbpi2SbRb", "RbLfpi2SfRf",
		"LfRbpi2SbRb", "LbRfpi2SfRf", "RfLbpi2SbLb", "RbLfpi2SfLf",
		"LfSfRfpi2Lb", "LbSbRbpi2Lf", "RfSfLfpi2Rb", "RbSbLbpi2Rf",
		"LfSfLfpi2Rb", "LbSbLbpi2Rf", "RfSfRfpi2Lb", "RbSbRbpi2Lf",
		"LfRbpi2SbLbpi2Rf", "LbRfpi2SfLfpi2Rb", "RfLbpi2SbRbpi2Lf", "RbLfpi2SfRfpi2Lb"
	};

	/// The motions of a word, read from its name.
	struct WM {
		Steer steer;
		Direction dir;
		bool quarter = false, same = false;
	};
	std::vector<WM> decode(const std::string& n)
	{
		std::vector<WM> r;
		for (size_t i = 0; i < n.size();) {
			WM m;
			m.steer = n[i] == 'L' ? Steer::Left : n[i] == 'R' ? Steer::Right
															  : Steer::Straight;
			i++;
			if (n[i] == 'u') {
				m.same = true;
				i++;
			}
			m.dir = n[i] == 'f' ? Direction::Forward : Direction::Backward;
			i++;
			if (n.compare(i, 3, "pi2") == 0) {
				m.quarter = true;
				i += 3;
			}
			r.push_back(m);
		}
		return r;
	}

	void checkSegment(Case& c, const Query& q, const ReedsShepp::PathSegment& seg, ReedsShepp::PathWords word)
	{
		c.check(ReedsShepp::IsPathWordValid(word), "no path was found");
		int w = (int)word;
		auto dec = decode(wordNames[w]);
		c.label(wordNames[w]);
		c.check(seg.GetNumMotions() == (int)dec.size(), "word ", wordNames[w], " but ", seg.GetNumMotions(), " motions");
		double sum = 0;
		rsref::P p { 0, 0, 0 };
		double same = -1;
		for (size_t i = 0; i < dec.size(); i++) {
			auto& m = seg.GetMotion(i);
			c.check(m.IsValid() && std::isfinite(m.length), "motion ", i, " is not valid");
			c.check(m.length >= 0, "motion ", i, " of ", wordNames[w], " has negative length ", m.length);
			c.check(m.steer == dec[i].steer && m.direction == dec[i].dir, "motion ", i, " does not match the word ", wordNames[w]);
			if (dec[i].quarter)
				c.check(std::abs(m.length - M_PI_2) < 1e-12, "motion ", i, " of ", wordNames[w], " is not a quarter turn");
			if (dec[i].same) {
				c.check(same < 0 || std::abs(same - m.length) < 1e-12, "the two middle arcs of ", wordNames[w], " differ");
				same = m.length;
			}
			c.check(m.steer == Steer::Straight || m.length <= 2 * M_PI + 1e-9, "motion ", i, " turns by more than a full circle");
			sum += m.length;
			p = rsref::step(p, m.steer == Steer::Left ? 'L' : m.steer == Steer::Right ? 'R'
																					   : 'S',
				m.direction == Direction::Forward ? m.length : -m.length);
		}
		for (int i = dec.size(); i < (int)ReedsShepp::PathSegment::numMotion; i++)
			c.check(!seg.GetMotion(i).IsValid(), "motion ", i, " past the end of the word is valid");
		c.check(std::abs(seg.GetLength(q.radius) - sum * q.radius) <= 1e-9 * (1 + sum * q.radius), "length ", seg.GetLength(q.radius), " is not the sum of the motions ", sum * q.radius);
		rsref::P g = local(q);
		double tol = 2e-7 * (1 + std::abs(g.x) + std::abs(g.y)) + 1e-13 * q.scale / q.radius;
		c.check(std::abs(p.x - g.x) <= tol && std::abs(p.y - g.y) <= tol && std::abs(rsref::m2(p.th - g.th)) <= 2e-7, "the motions of ", wordNames[w], " lead to (", p.x, ",", p.y, ",", p.th, ") instead of (", g.x, ",", g.y, ",", g.th, ") in units of the turning radius");
		PathReedsShepp path(q.start, seg, q.radius);
		auto f = path.GetFinalState();
		double atol = tol * q.radius + 1e-9;
		c.check(std::abs(f.x() - q.goal.x()) <= atol && std::abs(f.y() - q.goal.y()) <= atol && std::abs(wrapDiff(f.theta, q.goal.theta)) <= 3e-7, "the path ends at (", f.x(), ",", f.y(), ",", f.theta, ")");
		c.check(path.GetInitialState() == q.start, "the path does not start at the start pose");
		c.check(path.GetMinTurningRadius() == q.radius, "wrong turning radius");
		c.check(std::abs(path.GetLength() - sum * q.radius) <= 1e-9 * (1 + sum * q.radius), "path length ", path.GetLength(), " is not the travelled distance ", sum * q.radius);
		c.nontrivial(sum > 1e-3 && dec.size() >= 3);
	}

	void shortest(Src& s, Case& c)
	{
		Query q = query(s);
		describe(c, q);
		ReedsShepp::PathWords word = ReedsShepp::PathWords::NoPath;
		auto seg = ReedsShepp::Solver::GetShortestPath(q.start, q.goal, q.radius, &word);
		checkSegment(c, q, seg, word);
		double d = ReedsShepp::Solver::GetShortestDistance(q.start, q.goal, q.radius);
		c.check(std::abs(d - seg.GetLength(q.radius)) <= 1e-9 * (1 + d), "shortest distance ", d, " but the shortest path is ", seg.GetLength(q.radius), " long");
	}

	void optimal(Src& s, Case& c)
	{
		Query q = query(s);
		float rev = s.oneOf<float>({ 1.f, 1.5f, 3.f, 0.5f }), fwd = s.oneOf<float>({ 1.f, 2.f, 0.7f }), sw = s.oneOf<float>({ 0.f, 0.5f, 5.f, 100.f });
		describe(c, q);
		c << " rev=" << rev << " fwd=" << fwd << " switch=" << sw;
		ReedsShepp::PathWords word = ReedsShepp::PathWords::NoPath;
		auto seg = ReedsShepp::Solver::GetOptimalPath(q.start, q.goal, q.radius, rev, fwd, sw, &word);
		checkSegment(c, q, seg, word);
	}

	void connect(Src& s, Case& c)
	{
		Query q = query(s);
		describe(c, q);
		PathConnectionReedsShepp conn(q.radius, s.oneOf<double>({ 0.0, 1.0 }), s.oneOf<double>({ 1.0, 3.0 }), s.oneOf<double>({ 1.0, 2.0 }));
		auto path = conn.Connect(q.start, q.goal);
		auto rs = std::dynamic_pointer_cast<PathReedsShepp>(path);
		c.check((bool)rs, "the connection is not a Reeds-Shepp path");
		double tol = 3e-7 * (q.radius + std::abs(q.goal.x() - q.start.x()) + std::abs(q.goal.y() - q.start.y())) + 1e-12 * q.scale;
		auto f = rs->GetFinalState();
		c.check(rs->GetInitialState() == q.start, "the connection does not start at the start pose");
		c.check(std::abs(f.x() - q.goal.x()) <= tol && std::abs(f.y() - q.goal.y()) <= tol && std::abs(wrapDiff(f.theta, q.goal.theta)) <= 3e-7, "the connection ends at (", f.x(), ",", f.y(), ",", f.theta, ")");
		// sampled poses: constant-curvature pieces no tighter than the turning radius, and moving along the heading
		double L = rs->GetLength();
		int n = 40;
		Pose2d prev = rs->Interpolate(0.0);
		auto cusps = rs->GetCuspPointRatios();
		for (int i = 1; i <= n; i++) {
			double r0 = (i - 1) / (double)n, r1 = i / (double)n;
			Pose2d p = rs->Interpolate(r1);
			double dl = L / n, d = (p.position - prev.position).norm(), dth = std::abs(wrapDiff(p.theta, prev.theta));
			c.check(d <= dl * (1 + 1e-9) + 1e-9 * q.scale, "the path jumps by ", d, " over an arc of ", dl);
			if (dl / q.radius < 3)
				c.check(dth <= dl / q.radius + 1e-7, "the heading changes by ", dth, " over an arc of ", dl, ", the turning radius is ", q.radius);
			auto it = cusps.lower_bound(r0 - 1e-12);
			bool cusp = it != cusps.end() && *it <= r1 + 1e-12;
			if (!cusp && dl > 1e-5 * q.scale && dl < 0.3 * q.radius) {
				// no cusp inside: displacement is along the mean heading, on the side of the direction of travel
				double mh = prev.theta + wrapDiff(p.theta, prev.theta) / 2;
				double along = (p.position - prev.position).dot(Point2d(std::cos(mh), std::sin(mh)));
				Direction dir = rs->GetDirection((r0 + r1) / 2);
				c.check(dir == Direction::Forward || dir == Direction::Backward, "no direction of motion at ratio ", (r0 + r1) / 2);
				c.check((along > 0) == (dir == Direction::Forward), "moves ", along > 0 ? "forward" : "backward", " between ", r0, " and ", r1, " but the reported direction differs");
			}
			prev = p;
		}
		c.nontrivial(L > 1e-3);
		c.label("has cusps", !cusps.empty());
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C10";
	p.rule = "random start and goal poses (general position, on the axes, goals reached by driving up to four arcs so that degenerate cases occur), turning radii, cost weights; the returned motions are re-driven by an independent integrator. Non-trivial: a path longer than 1e-3 with at least three motions (solvers) / longer than 1e-3 (connection).";
	p.assumptions = { "coordinates up to 300 turning radii" };
	p.laws = {
		{ "shortest", 300000, shortest },
		{ "optimal", 150000, optimal },
		{ "connection", 50000, connect },
	};
	return p;
}
