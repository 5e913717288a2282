// Generators of Reeds-Shepp queries.
#pragma once
#include "core/base.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include "pbt.h"
#include "rs_ref.h"

namespace rsgen {
	using namespace Planner;
	using pbt::Case;
	using pbt::Src;

	inline double wrapDiff(double a, double b) { return rsref::m2(a - b); }

	struct Query {
		Pose2d start, goal;
		double radius;
		double scale; // magnitude of the coordinates
	};

	inline Query query(Src& s)
	{
		Query q;
		q.radius = s.oneOf<double>({ 1.0, 1.0, 0.3, 2.5, 10.0, 0.02, 120.0 });
		double far = s.oneOf<double>({ 0.0, 1.0, 100.0 });
		q.start = Pose2d(s.signedMag(far), s.signedMag(far), s.angle());
		double reach = q.radius * s.oneOf<double>({ 0.01, 0.5, 2.0, 4.0, 6.0, 20.0, 200.0 });
		double lx, ly, lt;
		switch (s.draw(4)) {
		case 0: { // build the goal by driving, so that the answer is degenerate in some way
			rsref::Cand c;
			int n = s.range(1, 4);
			for (int i = 0; i < n; i++)
				c.push_back({ "LSR"[s.range(0, 2)], s.boolean() ? s.signedMag(3.0) : s.range(-4, 4) * rsref::PI / 4 });
			rsref::P p = rsref::simulate(c);
			lx = p.x * q.radius, ly = p.y * q.radius, lt = p.th;
			break;
		}
		case 1: // on the axes
			lx = s.boolean() ? s.signedMag(reach) : 0.0;
			ly = lx == 0.0 ? s.signedMag(reach) : 0.0;
			lt = s.angle();
			break;
		default:
			lx = s.signedMag(reach), ly = s.signedMag(reach), lt = s.angle();
		}
		double th = q.start.theta;
		q.goal = Pose2d(q.start.x() + lx * std::cos(th) - ly * std::sin(th), q.start.y() + lx * std::sin(th) + ly * std::cos(th), th + lt);
		q.scale = far + reach + 3 * q.radius;
		return q;
	}

	inline void describe(Case& c, const Query& q)
	{
		c << "(" << q.start.x() << "," << q.start.y() << "," << q.start.theta << ")->(" << q.goal.x() << "," << q.goal.y() << "," << q.goal.theta << ") r=" << q.radius;
	}

	/// The goal in the start's frame, in units of the turning radius, computed independently.
	inline rsref::P local(const Query& q)
	{
		double dx = q.goal.x() - q.start.x(), dy = q.goal.y() - q.start.y();
		double c = std::cos(q.start.theta), s = std::sin(q.start.theta);
		return { (c * dx + s * dy) / q.radius, (-s * dx + c * dy) / q.radius, rsref::m2(q.goal.theta - q.start.theta) };
	}
}
