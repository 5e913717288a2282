// C12: every path exposes one consistent curve: endpoints, arc length, poses, directions, cusps.
#include "path_gen.h"
using namespace Planner;
using namespace pbt;
using namespace pathgen;

namespace {
	void nonholonomic(Src& s, Case& c)
	{
		Pose2d start = pose(s, 20);
		Made m = s.boolean() ? reedsShepp(s, start) : constantSteer(s, start);
		c << m.kind << " length " << m.model.length() << " pieces " << m.model.pieces.size();
		agree(c, s, *m.path, m.model, m.scale, "path");
		c.label(m.kind);
		c.nontrivial(m.model.length() > 0.01);
	}

	/// Paths built one after the other in the same place.
	void reused(Src& s, Case& c)
	{
		alignas(PathReedsShepp) unsigned char room[sizeof(PathReedsShepp)];
		alignas(PathConstantSteer) unsigned char room2[sizeof(PathConstantSteer)];
		double q = s.real(0, 1);
		double longest = 0;
		for (int i = 0; i < 3; i++) {
			Pose2d start = pose(s, 20);
			bool rs = s.boolean();
			Made m = rs ? reedsShepp(s, start) : constantSteer(s, start);
			PathNonHolonomicSE2Base* p = nullptr;
			if (rs)
				p = new (room) PathReedsShepp(*std::static_pointer_cast<PathReedsShepp>(m.path));
			else
				p = new (room2) PathConstantSteer(*std::static_pointer_cast<PathConstantSteer>(m.path));
			c << m.kind << " ";
			Pose2d got = p->Interpolate(q);
			PoseR want = m.model.at(q * m.model.length());
			bool same = gap(got, want) <= 1e-8 * (1 + m.scale + std::abs(start.x()) + std::abs(start.y()));
			double L = p->GetLength();
			p->~PathNonHolonomicSE2Base();
			c.check(same, "at ratio ", q, " the pose is (", got.x(), ",", got.y(), ",", got.theta, ") instead of (", want.x, ",", want.y, ",", m2(want.th), ")");
			c.check(std::abs(L - m.model.length()) <= 1e-9 * (1 + L), "length ", L, " instead of ", m.model.length());
			longest = std::max(longest, L);
		}
		c.nontrivial(longest > 0.01);
	}

	template <typename State>
	double diff(const State& a, const State& b);
	template <>
	double diff(const Point2d& a, const Point2d& b) { return (a - b).norm(); }
	template <>
	double diff(const Pose2d& a, const Pose2d& b) { return (a.position - b.position).norm() + std::abs(a.theta - b.theta); }

	void straight(Src& s, Case& c)
	{
		double mag = s.oneOf<double>({ 1.0, 100.0 });
		Pose2d a = pose(s, mag), b = s.chance(1, 10) ? a : pose(s, mag);
		double len = (a.position - b.position).norm();
		c << "straight (" << a.x() << "," << a.y() << "," << a.theta << ")-(" << b.x() << "," << b.y() << "," << b.theta << ")";
		PathConnectionR2 c2;
		PathConnectionSE2 c3;
		auto p2 = c2.Connect(a.position, b.position);
		auto p3 = c3.Connect(a, b);
		c.check(p2->GetInitialState() == a.position && p2->GetFinalState() == b.position, "a straight path does not join its end points");
		c.check(p3->GetInitialState() == a && p3->GetFinalState() == b, "a straight path does not join its end poses");
		c.check(std::abs(p2->GetLength() - len) <= 1e-12 * (1 + len) && std::abs(p3->GetLength() - len) <= 1e-12 * (1 + len), "the length is not the distance");
		c.check((p2->Interpolate(0.0) - a.position).norm() <= 1e-12 * (1 + mag) && (p2->Interpolate(1.0) - b.position).norm() <= 1e-12 * (1 + mag), "interpolation does not hit the end points");
		for (int i = 0; i < 6; i++) {
			double r = s.real(0, 1), r2 = s.real(0, 1);
			Point2d q = p2->Interpolate(r);
			Pose2d h = p3->Interpolate(r);
			c.check(std::abs((q - a.position).norm() - r * len) <= 1e-9 * (1 + mag) && std::abs((q - b.position).norm() - (1 - r) * len) <= 1e-9 * (1 + mag), "at ratio ", r, " the point is not on the segment at that distance");
			c.check((h.position - q).norm() <= 1e-12 * (1 + mag), "the pose path leaves the segment");
			// heading goes linearly from one end to the other
			c.check(std::abs(h.theta - (a.theta + r * (b.theta - a.theta))) <= 1e-9, "the heading at ratio ", r, " is ", h.theta);
			c.check(std::abs((p2->Interpolate(r2) - q).norm() - std::abs(r - r2) * len) <= 1e-9 * (1 + mag), "ratios are not proportional to arc length");
		}
		c.nontrivial(len > 0);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C12";
	p.rule = "Reeds-Shepp paths (hand-built from up to five motions including empty ones, or solved), constant-steering paths with and without reference point offset, straight paths in the plane and in pose space; every observer compared with an independent arc-length model at random ratios, the ends and all piece boundaries; paths built one after the other in the same place. Non-trivial: length > 0.01 (0 for straight paths).";
	p.assumptions = { "ratios in [0, 1]", "directions are not compared within 1e-9 of a piece boundary" };
	p.laws = {
		{ "nonholonomic", 150000, nonholonomic },
		{ "straight", 150000, straight },
		{ "reused", 30000, reused },
	};
	return p;
}
