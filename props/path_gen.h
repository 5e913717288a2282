// Paths of every kind together with an independent arc-length model of each.
#pragma once
#include "core/base.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_composite.h"
#include "paths/path_constant_steer.h"
#include "paths/path_r2.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_se2.h"
#include "pbt.h"
#include "rs_ref.h"

namespace pathgen {
	using namespace Planner;
	using pbt::Case;
	using pbt::Src;
	using rsref::m2;

	struct PoseR {
		double x, y, th;
	};
	inline double gap(const Pose2d& a, const PoseR& b) { return std::hypot(a.x() - b.x, a.y() - b.y) + std::abs(m2(a.theta - b.th)); }
	inline double gap(const Pose2d& a, const Pose2d& b) { return std::hypot(a.x() - b.x(), a.y() - b.y()) + std::abs(m2(a.theta - b.theta)); }

	/// One piece of constant curvature: rear-axle style motion with an optional offset of the reference point.
	struct Piece {
		double len; // >= 0
		double curv; // signed, left positive, seen driving forward
		int dir; // +1, -1
		double offset = 0; // reference point ahead of the axle
	};
	struct Model {
		PoseR start;
		std::vector<Piece> pieces;
		double length() const
		{
			double l = 0;
			for (auto& p : pieces)
				l += p.len;
			return l;
		}
		static PoseR drive(PoseR p, const Piece& k, double s)
		{
			// move the axle point
			double ax = p.x - k.offset * std::cos(p.th), ay = p.y - k.offset * std::sin(p.th);
			double d = k.dir * s, th = p.th + k.curv * d;
			double nx, ny;
			if (std::abs(k.curv) < 1e-14) {
				nx = ax + d * std::cos(p.th);
				ny = ay + d * std::sin(p.th);
			} else {
				// chord form: stable for small curvature
				double half = k.curv * d / 2, sinc = std::abs(half) < 1e-8 ? 1.0 - half * half / 6 : std::sin(half) / half;
				nx = ax + d * sinc * std::cos(p.th + half);
				ny = ay + d * sinc * std::sin(p.th + half);
			}
			return { nx + k.offset * std::cos(th), ny + k.offset * std::sin(th), th };
		}
		PoseR at(double s) const
		{
			PoseR p = start;
			for (auto& k : pieces) {
				double l = std::min(s, k.len);
				if (l > 0)
					p = drive(p, k, l);
				s -= l;
				if (s <= 0)
					break;
			}
			return p;
		}
		/// Cut to the first @s of arc length
		void cut(double s)
		{
			std::vector<Piece> out;
			double total = length(), at = 0;
			bool boundary = false; // a cut between two pieces may keep an empty part of the next one
			for (auto& k : pieces) {
				at += k.len;
				boundary = boundary || std::abs(at - s) <= 1e-9 * (1 + total);
			}
			for (auto k : pieces) {
				if (s <= 0 && !out.empty())
					break;
				k.len = std::min(k.len, std::max(s, 0.0));
				s -= k.len;
				out.push_back(k);
			}
			if (boundary)
				out.push_back({ 0.0, 0.0, 0 });
			pieces = out;
		}
	};

	struct Made {
		Ref<PathNonHolonomicSE2Base> path;
		Model model;
		std::string kind;
		double scale = 1;
	};

	inline Pose2d pose(Src& s, double mag) { return Pose2d(s.signedMag(mag), s.signedMag(mag), s.angle()); }

	inline Made reedsShepp(Src& s, const Pose2d& start)
	{
		Made m;
		double radius = s.oneOf<double>({ 1.0, 0.4, 3.0, 12.0, 0.05, 80.0, 700.0 });
		ReedsShepp::PathSegment seg;
		if (s.boolean()) {
			int n = s.range(1, 5);
			for (int i = 0; i < n; i++) {
				double len = s.chance(1, 6) ? 0.0 : s.uniform(0.01, 3);
				seg.AddMotion(s.oneOf<Steer>({ Steer::Left, Steer::Straight, Steer::Right }), s.boolean() ? Direction::Backward : Direction::Forward, len);
			}
			m.kind = "reeds-shepp(built)";
		} else {
			Pose2d goal = start + pose(s, radius * s.oneOf<double>({ 1.0, 5.0, 30.0 }));
			seg = ReedsShepp::Solver::GetOptimalPath(start, goal, radius, s.oneOf<float>({ 1.f, 2.f }), 1.f, s.oneOf<float>({ 0.f, 1.f }));
			m.kind = "reeds-shepp(solved)";
		}
		m.model.start = { start.x(), start.y(), start.theta };
		for (int i = 0; i < seg.GetNumMotions(); i++) {
			auto& mo = seg.GetMotion(i);
			m.model.pieces.push_back({ mo.length * radius, mo.steer == Steer::Left ? 1 / radius : mo.steer == Steer::Right ? -1 / radius
																															: 0.0,
				mo.direction == Direction::Forward ? 1 : -1 });
		}
		if (m.model.pieces.empty())
			m.model.pieces.push_back({ 0.0, 0.0, 0 });
		m.path = makeRef<PathReedsShepp>(start, seg, radius);
		m.scale = radius * 10;
		return m;
	}

	inline Made constantSteer(Src& s, const Pose2d& start)
	{
		Made m;
		double wb = s.oneOf<double>({ 2.6, 1.0, 5.0 }), rtc = s.boolean() ? 0.0 : s.uniform(0, wb);
		double steer = s.chance(1, 4) ? 0.0 : s.uniform(-1.2, 1.2), len = s.chance(1, 10) ? 0.0 : s.uniform(0.01, 20);
		bool back = s.boolean();
		m.model.start = { start.x(), start.y(), start.theta };
		m.model.pieces.push_back({ len, std::tan(steer) / wb, back ? -1 : 1, rtc });
		m.path = makeRef<PathConstantSteer>(makeRef<KinematicBicycleModel>(wb, rtc), start, steer, len, back ? Direction::Backward : Direction::Forward);
		m.kind = "constant-steer";
		m.scale = 40;
		return m;
	}

	inline Made composite(Src& s, const Pose2d& start)
	{
		Made m;
		m.kind = "composite";
		auto comp = makeRef<PathSE2CompositeNonHolonomic>();
		int n = s.range(1, 6);
		Pose2d at = start;
		m.model.start = { start.x(), start.y(), start.theta };
		m.scale = 1;
		for (int i = 0; i < n; i++) {
			Made k = s.boolean() ? reedsShepp(s, at) : constantSteer(s, at);
			comp->PushBack(k.path);
			at = k.path->GetFinalState();
			for (auto& p : k.model.pieces)
				m.model.pieces.push_back(p);
			m.scale += k.scale;
		}
		m.path = comp;
		return m;
	}

	/// Positions (arc length) of true direction changes and of nominal piece boundaries with a direction change.
	inline void cuspsOf(const Model& m, std::vector<double>& required, std::vector<double>& allowed)
	{
		double s = 0;
		int lastDir = 0;
		double eps = 1e-9 * (1 + m.length());
		for (size_t i = 0; i < m.pieces.size(); i++) {
			if (i && (m.pieces[i].dir != m.pieces[i - 1].dir || m.pieces[i].len <= eps))
				allowed.push_back(s);
			if (m.pieces[i].len > eps) {
				if (lastDir && m.pieces[i].dir != lastDir)
					required.push_back(s);
				lastDir = m.pieces[i].dir;
			}
			s += m.pieces[i].len;
		}
	}

	/// Every observer of the path agrees with the model.
	inline void agree(Case& c, Src& s, const PathNonHolonomicSE2Base& p, const Model& m, double scale, const char* when)
	{
		double L = m.length(), tol = 1e-8 * (1 + scale + std::abs(m.start.x) + std::abs(m.start.y));
		c.check(std::abs(p.GetLength() - L) <= 1e-9 * (1 + L), when, ": length ", p.GetLength(), " instead of ", L);
		c.check(gap(p.GetInitialState(), m.start) <= tol, when, ": wrong initial state");
		PoseR e = m.at(L);
		c.check(gap(p.GetFinalState(), e) <= tol, when, ": final state (", p.GetFinalState().x(), ",", p.GetFinalState().y(), ",", p.GetFinalState().theta, ") instead of (", e.x, ",", e.y, ",", m2(e.th), ")");
		std::vector<double> ratios { 0.0, 1.0 };
		for (int i = 0; i < 8; i++)
			ratios.push_back(s.real(0, 1));
		double acc = 0;
		for (auto& k : m.pieces) { // piece boundaries
			acc += k.len;
			if (L > 0)
				ratios.push_back(std::min(1.0, acc / L));
		}
		auto many = p.Interpolate(ratios);
		c.check(many.size() == ratios.size(), when, ": interpolating ", ratios.size(), " ratios gives ", many.size(), " states");
		for (size_t i = 0; i < ratios.size(); i++) {
			Pose2d q = p.Interpolate(ratios[i]);
			PoseR r = m.at(ratios[i] * L);
			c.check(gap(q, r) <= tol, when, ": at ratio ", ratios[i], " the pose is (", q.x(), ",", q.y(), ",", q.theta, ") instead of (", r.x, ",", r.y, ",", m2(r.th), ")");
			c.check(gap(many[i], q) == 0, when, ": interpolating a list differs from interpolating one ratio");
		}
		c.check(gap(p.Interpolate(0.0), p.GetInitialState()) <= tol, when, ": ratio 0 is not the initial state");
		c.check(gap(p.Interpolate(1.0), p.GetFinalState()) <= tol, when, ": ratio 1 is not the final state");
		if (L <= 1e-9)
			return;
		// directions
		double eps = 1e-9 * (1 + L);
		for (double r : ratios) {
			double sArc = r * L, lo = 0;
			Direction d = p.GetDirection(r);
			bool near = false, empty = false; // next to a boundary, at an empty piece
			int dir = 0;
			for (auto& k : m.pieces) {
				double hi = lo + k.len;
				if ((lo > eps && std::abs(sArc - lo) < eps) || (hi < L - eps && std::abs(sArc - hi) < eps))
					near = true;
				if (k.len <= eps && (std::abs(sArc - lo) < eps))
					near = empty = true;
				if (k.len > eps && sArc >= lo - eps && sArc <= hi + eps)
					dir = k.dir;
				lo = hi;
			}
			if (!near)
				c.check(d == (dir > 0 ? Direction::Forward : Direction::Backward), when, ": direction at ratio ", r, " is ", d == Direction::Forward ? "forward" : d == Direction::Backward ? "backward"
																																															: "none",
					" instead of ", dir > 0 ? "forward" : "backward");
			else if (!empty)
				c.check(d != Direction::NoMotion, when, ": no direction of motion at ratio ", r);
		}
		// cusps
		std::vector<double> req, all;
		cuspsOf(m, req, all);
		auto cusps = p.GetCuspPointRatios();
		for (double a : req) {
			bool found = false;
			for (double k : cusps)
				found = found || std::abs(k * L - a) <= 10 * eps;
			c.check(found, when, ": the change of direction at ratio ", a / L, " is not reported as a cusp (", cusps.size(), " reported)");
		}
		for (double k : cusps) {
			c.check(k >= 0 && k <= 1 + 1e-12, when, ": cusp at ratio ", k);
			bool found = false;
			for (double a : all)
				found = found || std::abs(k * L - a) <= 10 * eps;
			c.check(found, when, ": a cusp is reported at ratio ", k, " where the direction does not change");
		}
		c.label("cusps", !req.empty());
	}
}
