// C17: obstacle outlines are rasterised faithfully and without holes.
#include "map_gen.h"
#include <deque>
using namespace Planner;
using namespace pbt;
using namespace mapgen;

namespace {
	struct Setup {
		std::unique_ptr<ObstacleListOccupancyMap> map;
		double res, half;
		Point2d origin;
	};
	Setup setup(Src& s, Case& c, double cells, Point2d origin, float res)
	{
		Setup u;
		u.res = res;
		u.half = cells * res / 2;
		u.origin = origin;
		u.map = std::make_unique<ObstacleListOccupancyMap>(res);
		u.map->InitializeSize((float)(2 * u.half), (float)(2 * u.half));
		u.map->SetPosition(origin);
		return u;
	}

	void outline(Src& s, Case& c)
	{
		MadeObstacle o = obstacle(s, 20, s.oneOf<double>({ 1.0, 8.0 }));
		std::vector<Point2d> expect;
		for (auto& r : o.world())
			for (auto& v : r)
				expect.push_back(v);
		auto got = o.obstacle->GetBoundaryWorldPosition();
		c << o.shape.kind << " with " << expect.size() << " vertices";
		c.check(got.size() == expect.size(), "the outline has ", got.size(), " vertices instead of ", expect.size());
		for (size_t i = 0; i < got.size(); i++) {
			// single precision is used for the vertex angles
			c.check((got[i] - expect[i]).norm() <= 1e-4, "vertex ", i, " is (", got[i].x(), ",", got[i].y(), ") instead of (", expect[i].x(), ",", expect[i].y(), ")");
		}
		Pose2d p2 = poseIn(s, 20);
		o.obstacle->SetPose(p2);
		auto moved = o.obstacle->GetBoundaryWorldPosition();
		auto ref = place(o.shape.rings, p2);
		size_t i = 0;
		for (auto& r : ref)
			for (auto& v : r)
				c.check((moved[i++] - v).norm() <= 1e-4, "moving the obstacle does not move its outline");
		// the polygon of a circle contains the circle
		double rad = s.uniform(0.1, 5);
		int n = s.chance(1, 4) ? s.range(3, 200) : s.range(3, 30);
		Obstacle circle;
		circle.SetShape(makeRef<CircleShape>(rad, n));
		circle.SetPose(o.pose);
		auto pts = circle.GetBoundaryWorldPosition();
		c.check((int)pts.size() == n && toRings(o.pose.position, { pts }) >= rad * (1 - 1e-5), "the polygon does not contain the circle");
		Obstacle reg;
		reg.SetShape(makeRef<RegularPolygonShape>(rad, n));
		reg.SetPose(o.pose);
		auto corners = reg.GetBoundaryWorldPosition();
		c.check((int)corners.size() == n, "a regular polygon of ", n, " vertices has ", corners.size());
		for (int k = 0; k < n; k++) {
			double a = o.pose.theta + 2 * M_PI * k / n;
			c.check((corners[k] - o.pose.position - rad * Point2d(std::cos(a), std::sin(a))).norm() <= 1e-5 * (1 + rad), "vertex ", k, " of the regular polygon is misplaced");
		}
		c.nontrivial(expect.size() >= 3);
	}

	std::set<RC> cellsOf(const MadeObstacle& o, const OccupancyMap& map, Case& c)
	{
		std::set<RC> out;
		for (auto& k : o.obstacle->GetBoundaryGridCellPosition(map)) {
			c.check(k.row >= 0 && k.row < map.Rows() && k.col >= 0 && k.col < map.Columns(), "cell (", k.row, ",", k.col, ") is outside the map");
			out.insert({ k.row, k.col });
		}
		return out;
	}

	void rasterOn(Src& s, Case& c, double cells)
	{
		float res = s.oneOf<float>({ 1.0f, 0.5f, 0.1f });
		Setup u = setup(s, c, cells, Point2d(s.signedMag(20), s.signedMag(20)), res);
		MadeObstacle o;
		o.shape = shape(s, cells * res * s.oneOf<double>({ 0.3, 0.8, 1.5 }));
		o.obstacle = makeRef<Obstacle>();
		o.obstacle->SetShape(o.shape.shape);
		o.pose = poseIn(s, u.half * 1.2);
		o.pose.position += u.origin;
		o.obstacle->SetPose(o.pose);
		auto rings = o.world();
		auto got = cellsOf(o, *u.map, c);
		c << o.shape.kind << " covering " << got.size() << " cells of " << u.map->Rows() << "x" << u.map->Columns();
		auto centre = [&](int r, int k) { return Point2d(u.origin.x() - u.half + (r + 0.5) * res, u.origin.y() - u.half + (k + 0.5) * res); };
		// nothing far from the outline, and the outline is covered
		for (auto& [r, k] : got)
			c.check(toRings(centre(r, k), rings) <= 1.25 * res, "cell (", r, ",", k, ") is marked ", toRings(centre(r, k), rings) / res, " cells away from the outline");
		bool all = true;
		int pts = 0;
		for (auto& ring : rings)
			for (size_t i = 0; i < ring.size(); i++) {
				Point2d a = ring[i], b = ring[(i + 1) % ring.size()];
				int n = (int)((b - a).norm() / (0.3 * res)) + 1;
				for (int j = 0; j <= n; j++) {
					Point2d q = a + (b - a) * (double(j) / n);
					double fr = (q.x() - u.origin.x() + u.half) / res, fk = (q.y() - u.origin.y() + u.half) / res;
					int r = (int)std::floor(fr), k = (int)std::floor(fk);
					// a vertex marks its own cell, other points at least the next one
					double edge = std::min({ fr - r, r + 1 - fr, fk - k, k + 1 - fk });
					if (r < 1 || k < 1 || r >= u.map->Rows() - 1 || k >= u.map->Columns() - 1) {
						all = all && r >= 0 && k >= 0 && r < u.map->Rows() && k < u.map->Columns();
						continue;
					}
					pts++;
					bool found = false;
					int reach = (j == 0 || j == n) && edge > 1e-3 ? 0 : 1;
					for (int x = -reach; x <= reach; x++)
						for (int y = -reach; y <= reach; y++)
							found = found || got.count({ r + x, k + y });
					c.check(found, reach ? "point" : "vertex", " (", q.x(), ",", q.y(), ") of the outline in cell (", r, ",", k, ") is not marked");
				}
			}
		// every ring inside the map is a closed barrier: cells deeper inside cannot be reached by legal moves from outside
		if (all && rings.size() == 1 && rings[0].size() >= 3) {
			int R = u.map->Rows() + 2, K = u.map->Columns() + 2;
			std::vector<char> occ(R * K, 0), seen(R * K, 0);
			for (auto& [r, k] : got)
				occ[(r + 1) * K + k + 1] = 1;
			std::deque<RC> q { { 0, 0 } };
			seen[0] = 1;
			while (!q.empty()) {
				auto [r, k] = q.front();
				q.pop_front();
				for (int x = -1; x <= 1; x++)
					for (int y = -1; y <= 1; y++) {
						int a = r + x, b = k + y;
						if (a < 0 || b < 0 || a >= R || b >= K || seen[a * K + b] || occ[a * K + b])
							continue;
						if (x && y && occ[r * K + b] && occ[a * K + k])
							continue;
						seen[a * K + b] = 1;
						q.push_back({ a, b });
					}
			}
			int deep = 0;
			for (int r = 0; r < u.map->Rows(); r++)
				for (int k = 0; k < u.map->Columns(); k++) {
					Point2d p = centre(r, k);
					int cross = 0;
					auto& g = rings[0];
					for (size_t i = 0; i < g.size(); i++) {
						Point2d a = g[i], b = g[(i + 1) % g.size()];
						if ((a.y() > p.y()) != (b.y() > p.y()) && p.x() < a.x() + (p.y() - a.y()) / (b.y() - a.y()) * (b.x() - a.x()))
							cross++;
					}
					if (cross % 2 && toRings(p, rings) > 2 * res) {
						deep++;
						c.check(!seen[(r + 1) * K + k + 1], "cell (", r, ",", k, ") inside the obstacle can be reached from outside");
					}
				}
			c.label("closed barrier", deep > 0);
		}
		c.nontrivial(got.size() > 3 && pts > 3);
	}

	void raster(Src& s, Case& c) { rasterOn(s, c, s.range(10, 40)); }
	void largeRaster(Src& s, Case& c) { rasterOn(s, c, s.range(100, 900)); }

	void clip(Src& s, Case& c)
	{
		// a smaller map aligned with a larger one marks the same cells
		float res = s.oneOf<float>({ 1.0f, 0.5f });
		int big = 2 * s.range(10, 20), small = 2 * s.range(2, 9);
		int dr = s.range(0, big - small), dk = s.range(0, big - small);
		Setup b = setup(s, c, big, Point2d(0, 0), res);
		Point2d off((dr - (big - small) / 2) * res, (dk - (big - small) / 2) * res);
		Setup l = setup(s, c, small, off, res);
		MadeObstacle o = obstacle(s, b.half * 1.2, big * res * s.oneOf<double>({ 0.3, 1.0 }));
		auto inBig = cellsOf(o, *b.map, c), inSmall = cellsOf(o, *l.map, c);
		std::set<RC> expect;
		for (auto& [r, k] : inBig)
			if (r >= dr && k >= dk && r < dr + small && k < dk + small)
				expect.insert({ r - dr, k - dk });
		c << o.shape.kind << ": " << inBig.size() << " cells, " << expect.size() << " in the window";
		c.check(inSmall == expect, "the smaller map marks ", inSmall.size(), " cells, the same window of the larger one ", expect.size());
		c.nontrivial(!expect.empty() && expect.size() < inBig.size());
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C17";
	p.rule = "rectangles, regular polygons, circles, free polygons (mostly one to six vertices, some forty, also self-intersecting; circles and regular polygons to 100) and nested composites at random poses, on and across the border of maps of 10 to 40 cells (some up to 900); window maps cut out of larger aligned maps. Non-trivial: at least three vertices; more than three cells; an obstacle crossing the window border.";
	p.assumptions = { "an obstacle is its outline (the interior is not filled)", "a point of an edge may be marked by a neighbouring cell (line rasterisation between cells)", "window maps use resolutions that are powers of two so that both grids align exactly" };
	p.laws = {
		{ "outline", 40000, outline },
		{ "raster", 15000, raster },
		{ "clip", 20000, clip },
		{ "large_raster", 240, largeRaster },
	};
	return p;
}
