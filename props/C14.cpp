// C14: a composite path is the concatenation of its parts.
#include "path_gen.h"
using namespace Planner;
using namespace pbt;
using namespace pathgen;

namespace {
	void buildOf(Src& s, Case& c, int ops)
	{
		PathSE2CompositeNonHolonomic comp;
		if (s.boolean())
			comp.Reserve(s.range(0, 10));
		bool thrown = false;
		try {
			comp.Interpolate(0.5);
		} catch (const std::out_of_range&) {
			thrown = true;
		}
		c.check(thrown, "interpolating an empty composite does not raise out_of_range");
		c.check(comp.GetCuspPointRatios().empty() && comp.Size() == 0 && comp.GetLength() == 0, "an empty composite is not empty");
		comp.Truncate(0.5);

		Pose2d at = pose(s, 20);
		Model m;
		m.start = { at.x(), at.y(), at.theta };
		double scale = 1;
		int cuts = 0;
		size_t parts = 0;
		c << "composite:";
		for (int i = 0; i < ops; i++) {
			if (m.pieces.size() > 0 && s.chance(1, ops > 8 ? 12 : 4)) {
				double r = ops > 8 ? 1 - s.uniform(0, 1) * s.uniform(0, 1) : s.real(0, 1);
				comp.Truncate(r);
				m.cut(r * m.length());
				at = comp.GetFinalState();
				c << " cut " << r;
				c.check(comp.Size() <= parts, "truncation adds parts");
				parts = comp.Size();
				cuts++;
			} else {
				Made k = s.boolean() ? reedsShepp(s, at) : constantSteer(s, at);
				comp.PushBack(k.path);
				at = k.path->GetFinalState();
				for (auto& p : k.model.pieces)
					m.pieces.push_back(p);
				scale += k.scale;
				parts++;
				c << " " << k.kind << " " << k.model.length();
				c.check(comp.Size() == parts, "the composite has ", comp.Size(), " parts instead of ", parts);
			}
			if (ops <= 8 || i == ops - 1 || s.chance(1, 8))
				agree(c, s, comp, m, scale, cuts ? "composite after truncation" : "composite");
		}
		c.label("truncated then extended", cuts > 0);
		c.nontrivial(parts > 1 && m.length() > 0.1);
	}

	void build(Src& s, Case& c)
	{
		int ops = s.range(1, 8);
		buildOf(s, c, ops);
	}
	void longBuild(Src& s, Case& c)
	{
		int ops = s.range(30, 150);
		buildOf(s, c, ops);
	}

	void generic(Src& s, Case& c)
	{
		// the composite of plain planar paths
		PathComposite<Point2d> comp;
		Point2d at(s.signedMag(10), s.signedMag(10)), first = at;
		int n = s.range(1, 6);
		std::vector<Point2d> pts { at };
		for (int i = 0; i < n; i++) {
			Point2d next = s.chance(1, 6) ? at : Point2d(s.signedMag(10), s.signedMag(10));
			comp.PushBack(makeRef<PathR2>(at, next));
			at = next;
			pts.push_back(at);
		}
		double L = 0;
		for (size_t i = 1; i < pts.size(); i++)
			L += (pts[i] - pts[i - 1]).norm();
		c << "polyline of " << n << " segments, length " << L;
		auto ref = [&](double d) {
			for (size_t i = 1; i < pts.size(); i++) {
				double l = (pts[i] - pts[i - 1]).norm();
				if (d <= l && l > 0)
					return Point2d(pts[i - 1] + (pts[i] - pts[i - 1]) * (d / l));
				d -= l;
			}
			return pts.back();
		};
		c.check(comp.GetInitialState() == first, "the composite does not start where its first part starts");
		c.check(comp.GetFinalState() == pts.back(), "the composite does not end where its last part ends");
		c.check(std::abs(comp.GetLength() - L) <= 1e-9 * (1 + L), "length ", comp.GetLength(), " instead of ", L);
		for (int i = 0; i < 8; i++) {
			double r = s.real(0, 1);
			c.check((comp.Interpolate(r) - ref(r * L)).norm() <= 1e-9 * (1 + L), "at ratio ", r, " the composite is not at that fraction of its arc length");
		}
		double cut = s.real(0, 1);
		Point2d end = ref(cut * L);
		comp.Truncate(cut);
		c.check((comp.GetFinalState() - end).norm() <= 1e-9 * (1 + L) && std::abs(comp.GetLength() - cut * L) <= 1e-9 * (1 + L), "truncation at ", cut, " ends elsewhere");
		for (int i = 0; i < 4; i++) {
			double r = s.real(0, 1);
			c.check((comp.Interpolate(r) - ref(r * cut * L)).norm() <= 1e-9 * (1 + L), "after truncation, ratio ", r, " is not at that fraction of the arc length");
		}
		c.nontrivial(n > 1 && L > 0.1);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C14";
	p.rule = "histories of appending connected Reeds-Shepp and constant-steering parts (including empty ones) and truncating, all observers compared with the concatenated arc-length model after every step; polylines of planar parts; histories of up to 150 steps. Non-trivial: more than one part and length > 0.1.";
	p.assumptions = { "each part starts where the previous one ends", "ratios in [0, 1]" };
	p.laws = {
		{ "history", 30000, build },
		{ "polyline", 100000, generic },
		{ "long_history", 400, longBuild },
	};
	return p;
}
