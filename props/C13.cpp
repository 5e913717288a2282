// C13: truncating a path keeps exactly its beginning.
#include "path_gen.h"
using namespace Planner;
using namespace pbt;
using namespace pathgen;

namespace {
	void truncateLaw(Src& s, Case& c)
	{
		Pose2d start = pose(s, 20);
		int kind = s.range(0, 2);
		Made m = kind == 0 ? reedsShepp(s, start) : kind == 1 ? constantSteer(s, start)
																: composite(s, start);
		c << m.kind << " length " << m.model.length();
		double L0 = m.model.length();
		int times = s.range(1, 3);
		bool inner = false;
		for (int i = 0; i < times; i++) {
			double L = m.path->GetLength();
			double r;
			if (s.chance(1, 4) && L > 0) { // exactly at a piece boundary
				double acc = 0;
				int k = s.range(0, (int)m.model.pieces.size() - 1);
				for (int j = 0; j <= k; j++)
					acc += m.model.pieces[j].len;
				r = std::min(1.0, acc / m.model.length());
				if (!(r >= 0))
					r = 1;
			} else
				r = s.real(0, 1);
			c << " cut " << r;
			inner = inner || (r > 0.01 && r < 0.99);
			// the pose at a ratio just before and just after the cut
			double q = s.real(0, 1);
			m.path->Interpolate(q);
			m.path->Truncate(r);
			Pose2d again = m.path->Interpolate(q);
			m.model.cut(r * m.model.length());
			auto want = m.model.at(q * m.model.length());
			c.check(gap(again, want) <= 1e-8 * (1 + m.scale + std::abs(start.x()) + std::abs(start.y())), "after truncation: at ratio ", q, " the pose is (", again.x(), ",", again.y(), ",", again.theta, ") instead of (", want.x, ",", want.y, ",", m2(want.th), "), asked just before and just after the cut");
			agree(c, s, *m.path, m.model, m.scale, "after truncation");
			auto rs = std::dynamic_pointer_cast<PathReedsShepp>(m.path);
			if (rs && m.model.length() > 1e-6) {
				double rev = s.oneOf<double>({ 1.0, 2.0 }), fwd = s.oneOf<double>({ 1.0, 3.0 }), sw = s.oneOf<double>({ 0.0, 0.5 });
				double cost = 0, lo = 0, hi = 0;
				int moving = 0, lastDir = 0;
				bool empty = false;
				for (auto& k : m.model.pieces) {
					cost += k.len * (k.dir > 0 ? fwd : rev);
					empty = empty || k.len <= 1e-9 * m.scale;
					if (k.len > 1e-9 * m.scale) {
						if (lastDir && k.dir != lastDir)
							moving++;
						lastDir = k.dir;
					}
				}
				lo = cost + sw * moving;
				hi = empty ? cost + sw * 4 : lo; // empty motions may or may not count, here or at the cut
				double rep = rs->ComputeCost(sw, rev, fwd);
				c.check(rep >= lo - 1e-5 * (1 + lo) && rep <= hi + 1e-5 * (1 + hi), "after truncation: cost ", rep, " is not in [", lo, ",", hi, "]");
				if (sw == 0)
					c.check(std::abs(rep - cost) <= 1e-5 * (1 + cost), "after truncation: cost ", rep, " instead of ", cost);
			}
		}
		c.label(m.kind);
		c.nontrivial(L0 > 0.1 && inner);
	}

	void straight(Src& s, Case& c)
	{
		double mag = s.oneOf<double>({ 1.0, 100.0 });
		Pose2d a = pose(s, mag), b = pose(s, mag);
		double r = s.real(0, 1), L = (a.position - b.position).norm();
		PathR2 p2(a.position, b.position), o2 = p2;
		PathSE2 p3(a, b), o3 = p3;
		p2.Truncate(r);
		p3.Truncate(r);
		c << "straight cut " << r << " of " << L;
		double tol = 1e-9 * (1 + mag);
		c.check(p2.GetInitialState() == a.position && p3.GetInitialState() == a, "truncation moves the initial state");
		c.check(std::abs(p2.GetLength() - r * L) <= tol && std::abs(p3.GetLength() - r * L) <= tol, "length ", p2.GetLength(), " after cutting at ", r, " of ", L);
		c.check((p2.GetFinalState() - o2.Interpolate(r)).norm() <= tol, "the final state is not where the path was cut");
		c.check(gap(p3.GetFinalState(), o3.Interpolate(r)) <= tol, "the final pose is not where the path was cut");
		for (int i = 0; i < 5; i++) {
			double q = s.real(0, 1);
			c.check((p2.Interpolate(q) - o2.Interpolate(q * r)).norm() <= tol, "the truncated path differs from the beginning of the original");
			c.check(gap(p3.Interpolate(q), o3.Interpolate(q * r)) <= tol, "the truncated pose path differs from the beginning of the original");
		}
		c.nontrivial(L > 0.01 && r > 0.01 && r < 0.99);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C13";
	p.rule = "Reeds-Shepp, constant-steering, composite and straight paths cut one to three times at random ratios, at the ends and exactly at piece boundaries, with a pose asked for at the same ratio just before and just after each cut; all observers (and the Reeds-Shepp cost) compared with the arc-length model cut at the same place. Non-trivial: a path longer than 0.1 cut strictly inside.";
	p.assumptions = { "ratios in [0, 1]" };
	p.laws = {
		{ "truncate", 150000, truncateLaw },
		{ "straight", 100000, straight },
	};
	return p;
}
