// C04: the heuristics of Hybrid A*.
#include "algo/heuristics.h"
#include "geometry/reeds_shepp.h"
#include "grid_gen.h"
#include "pbt.h"
#include "rs_ref.h"
using namespace Planner;
using namespace pbt;
using gridgen::distances;

namespace {
	struct Expose : AStarHeuristic<Pose2d> {
		static auto setGoal() { return &Expose::SetGoal; }
	};
	void setGoal(AStarHeuristic<Pose2d>& h, const Pose2d& goal) { (h.*Expose::setGoal())(goal); }

	/// Occupancy map with free choice of cells.
	class CellMap : public OccupancyMap {
	public:
		CellMap(int rows, int cols, float res) :
			OccupancyMap(res), occ(rows, std::vector<char>(cols, 0))
		{
			InitializeSize((rows - 0.25f) * res, (cols - 0.25f) * res);
		}
		virtual bool IsOccupied(const GridCellPosition& c) override { return occ.at(c.row).at(c.col) != 0; }
		std::vector<std::vector<char>> occ;
	};

	void obstaclesOn(Src& s, Case& c, int R, int C)
	{
		float res = s.oneOf<float>({ 1.0f, 0.5f, 0.1f, 2.0f });
		auto map = makeRef<CellMap>(R, C, res);
		Point2d origin(s.signedMag(20), s.signedMag(20));
		map->SetPosition(origin);
		double rev = s.oneOf<double>({ 1.0, 2.0, 0.5 }), fwd = s.oneOf<double>({ 1.0, 3.0, 0.25 }), mult = std::min(rev, fwd);
		ObstaclesHeuristic h(map, rev, fwd);
		int rounds = s.range(1, 4);
		bool detour = false, outside = false;
		int gr = 0, gk = 0;
		Pose2d goal;
		auto point = [&](int r, int k) {
			return Point2d(origin.x() + (-(R - 0.25) / 2 + r + s.uniform(0.05, 0.95)) * res, origin.y() + (-(C - 0.25) / 2 + k + s.uniform(0.05, 0.95)) * res);
		};
		c << R << "x" << C << " resolution " << res << " rev " << rev << " fwd " << fwd;
		for (int round = 0; round < rounds; round++) {
			// what stays the same since the last round
			bool sameGoal = round && s.chance(1, 3), sameCells = round && !sameGoal && s.chance(1, 4);
			if (round && !sameGoal && s.chance(1, 4)) {
				origin = Point2d(s.signedMag(20), s.signedMag(20));
				map->SetPosition(origin);
			}
			if (sameGoal && s.boolean()) {
				map->occ[s.range(0, R - 1)][s.range(0, C - 1)] ^= 1;
			} else if (!sameCells) {
				for (auto& row : map->occ)
					std::fill(row.begin(), row.end(), 0);
				gridgen::fill(s, map->occ);
			}
			if (!sameGoal) {
				outside = s.chance(1, 12);
				gr = outside ? -1 : s.range(0, R - 1), gk = outside ? -1 : s.range(0, C - 1);
				goal = Pose2d(point(gr, gk), s.angle());
			}
			c.label("same goal", sameGoal);
			c << (round ? ", then " : ": ") << gridgen::show(map->occ) << " goal (" << gr << "," << gk << ")";
			h.Update(goal);
			setGoal(h, goal);
			std::vector<std::vector<double>> d;
			if (!outside)
				d = distances(map->occ, { gr, gk }, [](GridCellPosition a, GridCellPosition b) { return a.row == b.row || a.col == b.col ? 1.0 : std::sqrt(2.0); });
			for (int r = -1; r <= R; r++)
				for (int k = -1; k <= C; k++) {
					Pose2d p(point(r, k), s.angle());
					double line = (p.position - goal.position).norm() * mult, expect = line;
					bool in = r >= 0 && k >= 0 && r < R && k < C;
					if (in && !outside && std::isfinite(d[r][k])) {
						double grid = d[r][k] * mult * res - std::sqrt(2.0) * res;
						detour = detour || grid > line * 1.3;
						expect = std::max(line, grid);
					}
					double v = h.GetHeuristicValue(p);
					c.check(std::abs(v - expect) <= 1e-4 * (1 + expect), "the heuristic in cell (", r, ",", k, ") is ", v, " instead of ", expect, " (straight line ", line, ")");
				}
		}
		c.label("detour", detour);
		c.nontrivial(R > 2 && C > 2);
	}

	void obstacles(Src& s, Case& c)
	{
		int R = s.size(1, 14), C = s.size(1, 14);
		obstaclesOn(s, c, R, C);
	}
	void largeObstacles(Src& s, Case& c)
	{
		int R = s.range(20, 90), C = s.range(20, 90);
		obstaclesOn(s, c, R, C);
	}

	void nonHolonomic(Src& s, Case& c)
	{
		double spatial = s.oneOf<double>({ 1.0, 0.5, 2.0 }), angular = s.oneOf<double>({ 0.5, 0.7853981633974483, 1.0, 0.3 }), radius = s.oneOf<double>({ 1.0, 2.0, 0.5 });
		float rev = s.oneOf<float>({ 1.f, 2.f, 0.5f }), fwd = s.oneOf<float>({ 1.f, 3.f }), sw = s.oneOf<float>({ 0.f, 1.f, 10.f });
		double w = spatial * s.uniform(1, 8), h = spatial * s.uniform(1, 8);
		std::array<Pose2d, 2> bounds { Pose2d(-w / 2, -h / 2, -M_PI), Pose2d(w / 2, h / 2, M_PI) };
		c << "resolution " << spatial << "/" << angular << " radius " << radius << " rev " << rev << " fwd " << fwd << " switch " << sw << " size " << w << "x" << h;
		auto H = NonHolonomicHeuristic::Build(bounds, spatial, angular, radius, rev, fwd, sw);
		const int nAng = (int)std::ceil(2 * M_PI / angular);
		bool turned = false;
		for (int q = 0; q < 60; q++) {
			Pose2d goal(s.signedMag(10), s.signedMag(10), s.angle());
			// goal relative to the state
			double range = s.oneOf<double>({ 0.5, 1.2 });
			int mode = s.range(0, 3);
			Pose2d rel(mode == 0 ? 0.0 : s.uniform(-range, range) * w / 2, mode == 0 ? 0.0 : s.uniform(-range, range) * h / 2, mode == 1 ? 0.0 : s.angle());
			// state such that goal = state + rel
			double st = goal.theta - rel.theta, cs = std::cos(st), sn = std::sin(st);
			Pose2d state(goal.x() - cs * rel.x() + sn * rel.y(), goal.y() - sn * rel.x() - cs * rel.y(), st);
			setGoal(*H, goal);
			double v = H->GetHeuristicValue(state);
			c.check(std::isfinite(v) && v >= 0, "the heuristic is ", v);
			double fx = rel.x() / spatial, fy = rel.y() / spatial, ft = rel.theta;
			if (ft < 0)
				ft += 2 * M_PI;
			double fk = ft / angular;
			auto tie = [](double f) { return std::abs(f - std::floor(f) - 0.5) < 1e-6; };
			if (tie(fx) || tie(fy) || tie(fk) || std::abs(ft) < 1e-9 || std::abs(ft - 2 * M_PI) < 1e-6)
				if (!(rel.theta == 0.0 && !tie(fx) && !tie(fy)))
					continue;
			int i = (int)std::round(fx), j = (int)std::round(fy), k = (int)std::round(fk);
			if (rel.theta == 0.0)
				k = 0;
			if (k >= nAng)
				k = 0;
			// size of the table: the bounds, rounded up to an odd number of cells
			auto odd = [](int n) { return n % 2 ? n : n + 1; };
			int nx = odd((int)std::ceil(w / spatial - 1e-12)), ny = odd((int)std::ceil(h / spatial - 1e-12));
			double line = std::hypot(rel.x(), rel.y()) * std::min(rev, fwd);
			if (std::abs(w / spatial - std::round(w / spatial)) < 1e-9 || std::abs(h / spatial - std::round(h / spatial)) < 1e-9)
				continue;
			if (std::abs(i) > nx / 2 || std::abs(j) > ny / 2) {
				c.check(std::abs(v - line) <= 1e-5 * (1 + line), "beyond the table the heuristic is ", v, " instead of the straight-line cost ", line);
				continue;
			}
			// the cost of driving from the state to the rounded relative goal, over an infinitesimal neighbourhood
			double lo = 1e300, hi = 0;
			for (int n = 0; n < 9; n++) {
				double e = n == 8 ? 0 : 1e-9;
				Pose2d p(i * spatial + (n & 1 ? e : -e), j * spatial + (n & 2 ? e : -e), k * angular + (n & 4 ? e : -e));
				auto seg = ReedsShepp::Solver::GetOptimalPath(Pose2d(0, 0, 0), p, radius, rev, fwd, sw);
				double cost = seg.ComputeCost(radius, rev, fwd, sw);
				lo = std::min(lo, cost);
				hi = std::max(hi, cost);
			}
			double tol = 3e-3 * radius * std::max(rev, fwd) + 1e-4 * hi;
			c.check(v >= lo - tol && v <= hi + tol, "the heuristic for a goal at (", rel.x(), ",", rel.y(), ",", rel.theta, ") relative to the state is ", v, ", driving costs ", lo, " to ", hi);
			turned = turned || (std::abs(rel.theta) > 0.1 && i != 0);
			c.evals(1);
		}
		c.label("asymmetric cost", rev != fwd);
		c.nontrivial(turned);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C04";
	p.rule = "obstacle heuristic: random grids (walls, mazes, diagonal contacts), goals inside and outside, up to three updates of one heuristic (which may keep the goal, keep the cells, move the map or flip a single cell), every cell and its surroundings compared with Dijkstra (grids to 14x14, some to 90x90); non-holonomic heuristic: random tables, 60 relative goals each (inside and beyond the table, all headings) compared with the Reeds-Shepp cost from the state to the rounded relative goal. Non-trivial: a grid larger than 2x2; a turned goal away from the state.";
	p.assumptions = { "the goal given to Update and the goal of the search are the same", "relative goals within 1e-6 of a rounding tie are skipped", "the non-holonomic oracle uses the solver decided by C10/C11" };
	p.laws = {
		{ "obstacles", 8000, obstacles },
		{ "large_obstacles", 40, largeObstacles },
		{ "non-holonomic", 250, nonHolonomic },
	};
	return p;
}
