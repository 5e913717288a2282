// C09: poses form the group SE(2); angles wrap; equality and hashing agree.
#include "core/base.h"
#include "geometry/2dplane.h"
#include "pbt.h"
#include "utils/maths.h"
#include <unordered_map>
#include <unordered_set>
using namespace Planner;
using namespace pbt;

namespace {
	double m2(double a) { return std::remainder(a, 2 * M_PI); }
	Pose2d pose(Src& s, double mag) { return Pose2d(s.signedMag(mag), s.signedMag(mag), s.angle()); }
	double gap(const Pose2d& a, const Pose2d& b) { return std::hypot(a.x() - b.x(), a.y() - b.y()) + std::abs(m2(a.theta - b.theta)); }
	std::string str(const Pose2d& p)
	{
		std::ostringstream o;
		o.precision(17);
		o << "(" << p.x() << "," << p.y() << "," << p.theta << ")";
		return o.str();
	}
	void inRange(Case& c, const Pose2d& p, const char* what)
	{
		c.check(std::abs(p.theta) <= M_PI * (1 + 1e-15), what, ": heading ", p.theta, " is outside [-pi, pi]");
	}

	void group(Src& s, Case& c)
	{
		double mag = s.oneOf<double>({ 1.0, 10.0, 1000.0 });
		Pose2d a = pose(s, mag), b = pose(s, mag), d = pose(s, mag), zero(0.0, 0.0, 0.0);
		double tol = 1e-13 * (1 + 10 * mag);
		c << str(a) << " " << str(b) << " " << str(d);
		// composition is what the rotation matrix says
		Pose2d ab = a + b;
		Pose2d ref(a.x() + std::cos(a.theta) * b.x() - std::sin(a.theta) * b.y(), a.y() + std::sin(a.theta) * b.x() + std::cos(a.theta) * b.y(), a.theta + b.theta);
		c.check(gap(ab, ref) <= tol, "a + b is ", str(ab), " instead of ", str(ref));
		inRange(c, ab, "sum");
		Pose2d r = b - a;
		inRange(c, r, "difference");
		c.check(gap(a + r, b) <= tol, "a + (b - a) is ", str(a + r), " instead of b");
		c.check(gap(ab - a, b) <= tol, "(a + b) - a is not b");
		c.check(gap((a + b) + d, a + (b + d)) <= tol, "composition is not associative");
		c.check(gap(a + zero, a) <= tol && gap(zero + a, a) <= tol, "the zero pose is not neutral");
		c.check(gap(a - a, zero) <= tol, "a - a is ", str(a - a));
		c.check(gap(a + (zero - a), zero) <= tol && gap((zero - a) + a, zero) <= tol, "the inverse pose does not cancel");
		// rigid motion: relative poses do not depend on the frame
		c.check(gap((d + a) - (d + b), a - b) <= 10 * tol, "relative poses depend on the frame");
		c.check(std::abs(((d + a).position - (d + b).position).norm() - (a.position - b.position).norm()) <= tol, "moving the frame changes distances");
		c.nontrivial(a.theta != 0 && (b.x() != 0 || b.y() != 0));
	}

	void wrap(Src& s, Case& c)
	{
		int turns = s.range(-50, 50);
		double base = s.angle(), t = base + turns * 2 * M_PI;
		if (s.chance(1, 5))
			t = s.signedMag(1000);
		double x = s.signedMag(5), y = s.signedMag(5);
		c << "angle " << t;
		Pose2d p(x, y, t), q(Point2d(x, y), t);
		inRange(c, p, "three-number constructor");
		inRange(c, q, "point constructor");
		double tol = 1e-12 * (1 + std::abs(t));
		c.check(std::abs(m2(p.theta - t)) <= tol, "heading ", p.theta, " is not ", t, " modulo a turn");
		c.check(std::abs(m2(q.theta - t)) <= tol, "heading ", q.theta, " is not ", t, " modulo a turn");
		c.check(p.x() == x && p.y() == y && q.x() == x && q.y() == y, "the constructor changes the position");
		Pose2d u = p;
		u.theta = t; // unwrapped
		double w = u.WrapTheta();
		c.check(std::abs(w) <= M_PI * (1 + 1e-15) && std::abs(m2(w - t)) <= tol && u.theta == t, "wrapping ", t, " gives ", w);
		Pose2d v = u;
		v.theta = w;
		c.check(v.WrapTheta() == w, "wrapping twice changes the angle");
		if (std::abs(t) <= M_PI)
			c.check(std::abs(p.theta - t) <= 1e-12 || (std::abs(t) >= M_PI - 1e-12 && std::abs(m2(p.theta - t)) <= tol), "an angle within a half turn is changed");
		// a pose given with a wound-up heading is the same key as its wrapped form
		c.check(std::equal_to<Pose2d>()(u, p), "a wound-up heading is a different key");
		c.check(std::hash<Pose2d>()(u) == std::hash<Pose2d>()(p), "equal keys have different hashes");
		// modulo
		double mod = s.oneOf<double>({ 2 * M_PI, 1.0, 0.1, 7.5 }), in = s.signedMag(500);
		double out = Maths::Modulo(in, mod);
		double k = (in - out) / mod;
		c.check(out >= 0 && (out < mod || (in < 0 && out == mod && std::fmod(in, mod) > -1e-9 * mod && std::fmod(in, mod) < 0)), "Modulo(", in, ",", mod, ") = ", out, " is outside [0, mod)");
		c.check(std::abs(k - std::round(k)) <= 1e-9 * (1 + std::abs(k)), "Modulo(", in, ",", mod, ") = ", out, " is not congruent");
		float fo = Maths::Modulo((float)in, (float)mod);
		float fm = std::fmod((float)in, (float)mod);
		c.check(fo >= 0 && (fo < (float)mod || (fo == (float)mod && fm < 0 && fm > -1e-4f * (float)mod)), "Modulo on float is outside [0, mod)");
		double whole = mod * s.range(-5, 5);
		c.check(std::fmod(whole, mod) != 0 || Maths::Modulo(whole, mod) == 0, "Modulo(", whole, ",", mod, ") = ", Maths::Modulo(whole, mod));
		c.nontrivial(std::abs(t) > M_PI);
	}

	void keys(Src& s, Case& c)
	{
		// few distinct values so that equal keys are common, with signed zeros
		auto num = [&]() { return s.oneOf<double>({ 0.0, -0.0, 1.0, -1.0, 0.5 }); };
		auto ang = [&]() { return s.oneOf<double>({ 0.0, -0.0, 1.0, -1.0, M_PI, 0.5 }); };
		std::unordered_map<Pose2d, int, std::hash<Pose2d>, std::equal_to<Pose2d>> m;
		std::vector<std::pair<Pose2d, int>> ref;
		std::unordered_set<Point2i, std::hash<Point2i>, std::equal_to<Point2i>> si;
		std::vector<Point2i> refi;
		std::unordered_set<Point2d, std::hash<Point2d>, std::equal_to<Point2d>> sd;
		std::vector<Point2d> refd;
		int n = s.range(1, 30);
		bool hit = false;
		for (int i = 0; i < n; i++) {
			Pose2d p(num(), num(), ang());
			// keys may differ by as little as the last digit of a coordinate
			if (s.chance(1, 5)) {
				double k = s.oneOf<double>({ 0.1, 1e3, 1e6 });
				int step = s.range(-2, 2);
				double x = k;
				for (int j = 0; j < std::abs(step); j++)
					x = std::nextafter(x, step > 0 ? 1e9 : -1e9);
				(s.boolean() ? p.x() : p.y()) = x;
			}
			auto same = [&](const Pose2d& q) { return p.x() == q.x() && p.y() == q.y() && p.theta == q.theta; };
			m[p] = i;
			bool found = false;
			for (auto& [q, v] : ref)
				if (same(q)) {
					v = i;
					found = true;
				}
			hit = hit || found;
			if (!found)
				ref.push_back({ p, i });
			for (auto& [q, v] : ref)
				c.check((p == q) == same(q) && (p != q) == !same(q) && (q == p) == same(q) && std::equal_to<Pose2d>()(p, q) == same(q), "pose comparison of ", str(p), " and ", str(q));
			Point2i pi(s.range(-2, 2), s.range(-2, 2));
			si.insert(pi);
			bool fi = false;
			for (auto& q : refi) {
				bool eq = q.x() == pi.x() && q.y() == pi.y();
				c.check(std::equal_to<Point2i>()(q, pi) == eq && (q == pi) == eq, "comparison of two integer points");
				fi = fi || eq;
			}
			if (!fi)
				refi.push_back(pi);
			Point2d pd(p.x(), p.y());
			sd.insert(pd);
			fi = false;
			for (auto& q : refd) {
				bool eq = q.x() == pd.x() && q.y() == pd.y();
				c.check(std::equal_to<Point2d>()(q, pd) == eq && (q == pd) == eq, "comparison of two points");
				fi = fi || eq;
			}
			if (!fi)
				refd.push_back(pd);
		}
		c << n << " keys, " << ref.size() << " distinct";
		c.check(m.size() == ref.size(), "a hash map over poses holds ", m.size(), " keys instead of ", ref.size());
		for (auto& [q, v] : ref) {
			auto it = m.find(q);
			c.check(it != m.end() && it->second == v, "a hash map over poses loses ", str(q));
		}
		c.check(si.size() == refi.size() && sd.size() == refd.size(), "a hash set over points merges or duplicates keys");
		for (auto& q : refi)
			c.check(si.count(q) == 1, "a hash set over points loses a key");
		// integer poses carry a heading index that never wraps
		Pose2i a(s.range(-100, 100), s.range(-100, 100), s.range(-1000, 1000)), b(a.x(), a.y(), a.theta);
		c.check(a == b && std::hash<Pose2i>()(a) == std::hash<Pose2i>()(b) && std::equal_to<Pose2i>()(a, b), "equal integer poses differ");
		int th = a.theta;
		Pose2i d(a.x(), a.y(), th + s.oneOf<int>({ 1, -1, 7 }));
		c.check(d.theta != th && !(d == a) && !std::equal_to<Pose2i>()(d, a), "integer headings are merged");
		c.nontrivial(hit);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C09";
	p.rule = "random and special poses (positions over several decades, headings at and near multiples of pi/4); angles wound up to 50 turns; key sets with many equal members and signed zeros. Non-trivial: rotated frame and non-zero translation; angle beyond a half turn; at least one repeated key.";
	p.assumptions = { "finite numbers", "|angle| up to about 1000 (the wrap subtracts one turn at a time)" };
	p.laws = {
		{ "group", 200000, group },
		{ "wrap", 200000, wrap },
		{ "keys", 40000, keys },
	};
	return p;
}
