// C22: state spaces sample, clamp and validate against their bounds.
#include "core/base.h"
#include "pbt.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
using namespace Planner;
using namespace pbt;

namespace {
	struct Box {
		double lo[3], hi[3];
	};
	Box box(Src& s, Case& c)
	{
		Box b;
		for (int i = 0; i < 2; i++) {
			b.lo[i] = s.signedMag(50);
			b.hi[i] = b.lo[i] + (s.chance(1, 10) ? 0.0 : s.oneOf<double>({ 1.0, 0.01, 30.0 }) * s.uniform(0.1, 1));
		}
		if (s.chance(1, 6)) // a square box
			b.lo[1] = b.lo[0], b.hi[1] = b.hi[0];
		b.lo[2] = s.boolean() ? -M_PI : s.uniform(-3, 3);
		b.hi[2] = s.boolean() ? M_PI : s.uniform(b.lo[2], M_PI);
		if (s.chance(1, 8)) // the same interval for all coordinates
			for (int i = 0; i < 2; i++)
				b.lo[i] = b.lo[2], b.hi[i] = b.hi[2];
		c << "box [" << b.lo[0] << "," << b.hi[0] << "]x[" << b.lo[1] << "," << b.hi[1] << "]x[" << b.lo[2] << "," << b.hi[2] << "]";
		return b;
	}
	void get(const Point2d& p, double* v)
	{
		v[0] = p.x();
		v[1] = p.y();
	}
	void get(const Pose2d& p, double* v)
	{
		v[0] = p.x();
		v[1] = p.y();
		v[2] = p.theta;
	}
	Point2d makeR2(const double* v) { return Point2d(v[0], v[1]); }
	Pose2d makeSE2(const double* v)
	{
		Pose2d p(v[0], v[1], 0.0);
		p.theta = v[2];
		return p;
	}

	template <typename Space, typename State, int N>
	void bounds(Src& s, Case& c, State (*make)(const double*))
	{
		Box b = box(s, c);
		std::unique_ptr<Space> sp;
		if (s.boolean())
			sp = std::make_unique<Space>(make(b.lo), make(b.hi));
		else
			sp = std::make_unique<Space>(std::array<State, 2> { make(b.lo), make(b.hi) });
		bool outside = false, inside = false;
		for (int k = 0; k < 10; k++) {
			double v[3] = { 0, 0, 0 }, e[3] = { 0, 0, 0 };
			bool in = true;
			for (int i = 0; i < N; i++) {
				double w = b.hi[i] - b.lo[i];
				switch (s.draw(5)) {
				case 0:
					v[i] = b.lo[i];
					break;
				case 1:
					v[i] = b.hi[i];
					break;
				case 2:
					v[i] = s.boolean() ? std::nextafter(b.lo[i], -1e9) : std::nextafter(b.hi[i], 1e9);
					break;
				case 3:
					v[i] = b.lo[i] + s.uniform(-1, 2) * (w + 0.1);
					break;
				default:
					v[i] = std::min(b.hi[i], b.lo[i] + s.uniform(0, 1) * w);
				}
				in = in && v[i] >= b.lo[i] && v[i] <= b.hi[i];
				e[i] = v[i] < b.lo[i] ? b.lo[i] : v[i] > b.hi[i] ? b.hi[i]
																	: v[i];
			}
			State st = make(v);
			c.check(sp->ValidateBounds(st) == in, "a state ", in ? "inside" : "outside", " the bounds is judged otherwise: (", v[0], ",", v[1], ",", v[2], ")");
			State q = st;
			sp->EnforceBounds(q);
			double g[3] = { 0, 0, 0 };
			get(q, g);
			for (int i = 0; i < N; i++)
				c.check(g[i] == e[i], "enforcing the bounds on coordinate ", i, " turns ", v[i], " into ", g[i], " instead of ", e[i]);
			c.check(sp->ValidateBounds(q), "enforcing the bounds leaves the state outside");
			outside = outside || !in;
			inside = inside || in;
		}
		double l[3], h[3];
		get(sp->bounds[0], l);
		get(sp->bounds[1], h);
		for (int i = 0; i < N; i++)
			c.check(l[i] == b.lo[i] && h[i] == b.hi[i], "the bounds are not those given");
		c.nontrivial(outside && inside);
	}
	void boundsR2(Src& s, Case& c) { bounds<StateSpaceR2, Point2d, 2>(s, c, makeR2); }
	void boundsSE2(Src& s, Case& c) { bounds<StateSpaceSE2, Pose2d, 3>(s, c, makeSE2); }

	template <typename Space, typename Base, typename State, int N>
	void sampling(Src& s, Case& c, State (*make)(const double*))
	{
		Box b = box(s, c);
		Space sp(make(b.lo), make(b.hi));
		Base& base = sp;
		const int n = 1500;
		auto within = [&](const State& st, const char* what) {
			double v[3];
			get(st, v);
			for (int i = 0; i < N; i++) {
				double eps = 1e-14 * (1 + std::abs(b.lo[i]) + std::abs(b.hi[i]));
				c.check(v[i] >= b.lo[i] - eps && v[i] <= b.hi[i] + eps, what, ": coordinate ", i, " is ", v[i], " outside [", b.lo[i], ",", b.hi[i], "]");
			}
		};
		// uniform: in the box, every part of it, independent coordinates
		std::vector<State> u;
		if (s.boolean())
			u = base.SampleUniform((unsigned)n);
		else
			for (int i = 0; i < n; i++)
				u.push_back(sp.SampleUniform());
		c.check((int)u.size() == n, "asked for ", n, " samples, got ", u.size());
		double mean[3] = {}, corr[3] = {}, serial[3] = {}, last[3] = { 0.5, 0.5, 0.5 }, least[3] = { 1, 1, 1 }, most[3] = {};
		std::vector<double> values[3];
		int octant[3][8] = {};
		for (auto& st : u) {
			within(st, "uniform sample");
			double v[3], z[3];
			get(st, v);
			for (int i = 0; i < N; i++) {
				double w = b.hi[i] - b.lo[i];
				z[i] = w > 1e-9 ? (v[i] - b.lo[i]) / w : 0.5;
				mean[i] += z[i] / n;
				octant[i][std::min(7, (int)(z[i] * 8))]++;
			}
			for (int i = 0; i < N; i++)
				corr[i] += (z[i] - 0.5) * (z[(i + 1) % N] - 0.5) * 12 / n;
			for (int i = 0; i < N; i++) {
				serial[i] += (z[i] - 0.5) * (last[i] - 0.5) * 12 / n;
				last[i] = z[i];
				least[i] = std::min(least[i], z[i]);
				most[i] = std::max(most[i], z[i]);
				values[i].push_back(v[i]);
			}
		}
		bool wide = true;
		for (int i = 0; i < N; i++) {
			if (b.hi[i] - b.lo[i] <= 1e-9) {
				wide = false;
				continue;
			}
			// eight standard deviations
			c.check(std::abs(mean[i] - 0.5) < 8 * std::sqrt(1.0 / 12 / n), "uniform samples of coordinate ", i, " have mean ", mean[i], " of the range");
			c.check(std::abs(serial[i]) < 8 / std::sqrt((double)n), "consecutive uniform samples of coordinate ", i, " are correlated: ", serial[i]);
			// a gap this large has a probability below 1e-15
			c.check(least[i] < 36.0 / n && most[i] > 1 - 36.0 / n, "uniform samples of coordinate ", i, " cover only ", least[i], " to ", most[i], " of the range");
			if (b.hi[i] - b.lo[i] > 0.1 * std::max(std::abs(b.lo[i]), std::abs(b.hi[i]))) {
				// numbers of full precision do not repeat
				std::sort(values[i].begin(), values[i].end());
				c.check(std::adjacent_find(values[i].begin(), values[i].end()) == values[i].end(), "two of ", n, " uniform samples of coordinate ", i, " are equal");
			}
			for (int k = 0; k < 8; k++)
				c.check(std::abs(octant[i][k] - n / 8.0) < 8 * std::sqrt(n * 7 / 64.0), "an eighth of the range of coordinate ", i, " holds ", octant[i][k], " of ", n, " uniform samples");
		}
		if (wide)
			for (int i = 0; i < N; i++)
				c.check(std::abs(corr[i]) < 8 / std::sqrt((double)n), "coordinates ", i, " and ", (i + 1) % N, " are correlated: ", corr[i]);
		// Gaussian around a mean, clamped to the box
		double mv[3] = { 0, 0, 0 }, sv[3] = { 0, 0, 0 }, mid = s.uniform(0.3, 0.7);
		bool narrow = s.boolean();
		for (int i = 0; i < N; i++) {
			double w = b.hi[i] - b.lo[i];
			mv[i] = narrow ? b.lo[i] + mid * w : b.lo[i] + s.uniform(-1, 2) * w;
			sv[i] = narrow ? w / 40 : s.oneOf<double>({ 0.0, 0.5, 3.0 }) * w;
		}
		std::vector<State> g;
		if (s.boolean())
			g = base.SampleGaussian(make(mv), make(sv), (unsigned)n);
		else
			for (int i = 0; i < n; i++)
				g.push_back(sp.SampleGaussian(make(mv), make(sv)));
		c.check((int)g.size() == n, "asked for ", n, " Gaussian samples, got ", g.size());
		double gm[3] = {}, gv[3] = {}, gc[3] = {}, extreme = 0;
		for (auto& st : g) {
			within(st, "Gaussian sample");
			double v[3], z[3];
			get(st, v);
			for (int i = 0; i < N; i++) {
				if (sv[i] == 0)
					c.check(v[i] == std::min(b.hi[i], std::max(b.lo[i], mv[i])), "zero deviation does not sample the mean");
				z[i] = sv[i] > 0 ? (v[i] - mv[i]) / sv[i] : 0;
				gm[i] += z[i] / n;
				gv[i] += z[i] * z[i] / n;
				extreme = std::max(extreme, std::abs(z[i]));
			}
			for (int i = 0; i < N; i++)
				gc[i] += z[i] * z[(i + 1) % N] / n;
		}
		// a probability below 1e-13
		if (narrow && wide)
			c.check(extreme > 2.55, "of ", N * n, " Gaussian numbers none is more than ", extreme, " deviations from its mean");
		if (narrow && wide)
			for (int i = 0; i < N; i++) {
				c.check(std::abs(gm[i]) < 8 / std::sqrt((double)n), "Gaussian samples of coordinate ", i, " are off their mean by ", gm[i], " deviations");
				c.check(std::abs(gv[i] - 1) < 8 * std::sqrt(2.0 / n), "Gaussian samples of coordinate ", i, " have variance ", gv[i], " times the requested one");
				c.check(std::abs(gc[i]) < 8 / std::sqrt((double)n), "Gaussian coordinates are correlated");
			}
		// inside the box the distribution is the Gaussian, whatever lies beyond a bound is at it
		for (int i = 0; i < N; i++) {
			double w = b.hi[i] - b.lo[i];
			if (w <= 1e-9 || sv[i] <= 0)
				continue;
			for (double f : { 0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 0.999999 }) {
				double t = b.lo[i] + f * w, p = 0.5 * std::erfc(-(t - mv[i]) / sv[i] / std::sqrt(2.0)), slack = 1e-3;
				int below = 0;
				for (auto& st : g) {
					double v[3];
					get(st, v);
					below += v[i] <= t;
				}
				c.check(std::abs(below - n * p) < 9 * std::sqrt(n * p * (1 - p)) + n * slack + 8, below, " of ", n, " Gaussian samples of coordinate ", i, " are at most ", t, ", ", n * p, " are expected (mean ", mv[i], ", deviation ", sv[i], ", box [", b.lo[i], ",", b.hi[i], "])");
			}
		}
		c.nontrivial(wide);
	}
	void sampleR2(Src& s, Case& c) { sampling<StateSpaceR2, StateSpace<Point2d, 2, double>, Point2d, 2>(s, c, makeR2); }
	void sampleSE2(Src& s, Case& c) { sampling<StateSpaceSE2, StateSpace<Pose2d, 3, double>, Pose2d, 3>(s, c, makeSE2); }
}

Property pbt::property()
{
	Property p;
	p.id = "C22";
	p.rule = "random boxes (also degenerate, square and one-sided ones); states at, next to, inside and outside the bounds; 1500 uniform and 1500 Gaussian samples per case (one at a time or as a list) tested for bounds, per-coordinate mean, spread over eighths of the range, variance, distribution within the box, independence, serial correlation, coverage of the range and repetition with limits of eight standard deviations. Non-trivial: states on both sides; a box that is not flat.";
	p.assumptions = { "lower bound <= upper bound, heading bounds in [-pi, pi]", "uniform samples may exceed a bound by rounding (1e-14 relative)" };
	p.laws = {
		{ "bounds-r2", 60000, boundsR2 },
		{ "bounds-se2", 60000, boundsSE2 },
		{ "sample-r2", 1500, sampleR2, true },
		{ "sample-se2", 1500, sampleSE2, true },
	};
	return p;
}
