// Obstacles, maps and their geometric reference.
#pragma once
#include "core/base.h"
#include "geometry/2dplane.h"
#include "pbt.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/occupancy_map.h"
#include <set>

namespace mapgen {
	using namespace Planner;
	using pbt::Case;
	using pbt::Src;
	using RC = std::pair<int, int>;
	using Ring = std::vector<Point2d>;

	/// A shape together with the closed rings of vertices it stands for (in its own frame).
	struct MadeShape {
		Ref<Shape> shape;
		std::vector<Ring> rings;
		std::string kind;
	};

	inline MadeShape shape(Src& s, double size, int depth = 0)
	{
		MadeShape m;
		switch (s.range(0, depth < 2 ? 4 : 3)) {
		case 0: {
			double dx = s.uniform(0.05, 1) * size, dy = s.uniform(0.05, 1) * size;
			m.shape = makeRef<RectangleShape>(dx, dy);
			m.rings = { { { dx / 2, dy / 2 }, { -dx / 2, dy / 2 }, { -dx / 2, -dy / 2 }, { dx / 2, -dy / 2 } } };
			m.kind = "rectangle";
			break;
		}
		case 1: {
			double r = s.uniform(0.05, 0.6) * size;
			int n = s.chance(1, 10) ? s.range(3, 100) : s.range(3, 9);
			m.shape = makeRef<RegularPolygonShape>(r, n);
			Ring g;
			for (int i = 0; i < n; i++)
				g.push_back({ r * std::cos(2 * M_PI * i / n), r * std::sin(2 * M_PI * i / n) });
			m.rings = { g };
			m.kind = "regular polygon";
			break;
		}
		case 2: {
			double r = s.uniform(0.05, 0.6) * size;
			int n = s.chance(1, 10) ? s.range(4, 100) : s.range(4, 12);
			m.shape = makeRef<CircleShape>(r, n);
			Ring g;
			double R = r / std::cos(M_PI / n);
			for (int i = 0; i < n; i++)
				g.push_back({ R * std::cos(2 * M_PI * i / n), R * std::sin(2 * M_PI * i / n) });
			m.rings = { g };
			m.kind = "circle";
			break;
		}
		case 3: {
			int n = s.chance(1, 10) ? s.range(1, 40) : s.range(1, 6);
			Ring g;
			for (int i = 0; i < n; i++)
				g.push_back({ s.uniform(-0.6, 0.6) * size, s.uniform(-0.6, 0.6) * size });
			if (s.boolean())
				m.shape = makeRef<PolygonShape>(g);
			else {
				Ring tmp = g;
				m.shape = makeRef<PolygonShape>(std::move(tmp));
			}
			m.rings = { g };
			m.kind = "polygon";
			break;
		}
		default: {
			auto comp = makeRef<CompositeShape>();
			int n = s.chance(1, 10) ? s.range(0, 10) : s.range(0, 3);
			for (int i = 0; i < n; i++) {
				MadeShape k = shape(s, size, depth + 1);
				comp->Add(k.shape);
				for (auto& r : k.rings)
					m.rings.push_back(r);
			}
			m.shape = comp;
			m.kind = "composite";
		}
		}
		return m;
	}

	inline std::vector<Ring> place(const std::vector<Ring>& rings, const Pose2d& p)
	{
		std::vector<Ring> out;
		double c = std::cos(p.theta), sn = std::sin(p.theta);
		for (auto& r : rings) {
			Ring g;
			for (auto& v : r)
				g.push_back({ p.x() + c * v.x() - sn * v.y(), p.y() + sn * v.x() + c * v.y() });
			out.push_back(g);
		}
		return out;
	}

	inline double toSegment(const Point2d& p, const Point2d& a, const Point2d& b)
	{
		Point2d d = b - a;
		double l2 = d.squaredNorm(), t = l2 > 0 ? std::min(1.0, std::max(0.0, (p - a).dot(d) / l2)) : 0;
		return (p - (a + t * d)).norm();
	}
	inline double toRings(const Point2d& p, const std::vector<Ring>& rings)
	{
		double best = std::numeric_limits<double>::infinity();
		for (auto& r : rings)
			for (size_t i = 0; i < r.size(); i++)
				best = std::min(best, toSegment(p, r[i], r[(i + 1) % r.size()]));
		return best;
	}

	struct MadeObstacle {
		Ref<Obstacle> obstacle;
		MadeShape shape;
		Pose2d pose;
		std::vector<Ring> world() const { return place(shape.rings, pose); }
	};

	inline Pose2d poseIn(Src& s, double half) { return Pose2d(s.uniform(-half, half), s.uniform(-half, half), s.angle()); }

	inline MadeObstacle obstacle(Src& s, double half, double size)
	{
		MadeObstacle o;
		o.shape = shape(s, size);
		o.pose = poseIn(s, half);
		o.obstacle = makeRef<Obstacle>();
		o.obstacle->SetShape(o.shape.shape);
		o.obstacle->SetPose(o.pose);
		return o;
	}
}
