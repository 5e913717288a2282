// C16: world, local and grid frames of the occupancy map agree.
#include "map_gen.h"
#include <stdexcept>
using namespace Planner;
using namespace pbt;
using namespace mapgen;

namespace {
	void frames(Src& s, Case& c)
	{
		float res = s.oneOf<float>({ 1.0f, 0.5f, 0.1f, 0.3f, 2.0f });
		const bool far = s.chance(1, 6); // cells counted in hundred thousands around the map, of a size that is a binary fraction
		if (far)
			res = s.oneOf<float>({ 0.5f, 1.0f, 0.0625f });
		ObstacleListOccupancyMap map(res);
		Point2d origin(0, 0);
		float w = 0, h = 0;
		bool sized = false, moved = false, movedAfter = false;
		int ops = s.range(1, 4);
		c << "resolution " << res;
		for (int i = 0; i < ops || !sized; i++) {
			if (s.boolean() && i < ops) {
				origin = Point2d(s.signedMag(30), s.signedMag(30));
				map.SetPosition(origin);
				c << " position (" << origin.x() << "," << origin.y() << ")";
				moved = true;
				movedAfter = movedAfter || sized;
			} else {
				int most = s.chance(1, 10) ? 3000 : 40;
				if (most > 40 && s.boolean())
					w = res * (s.range(1, 3000) + 0.5f), h = res * (s.range(1, 20) + 0.5f);
				else if (most > 40)
					w = res * (s.range(1, 20) + 0.5f), h = res * (s.range(1, 3000) + 0.5f);
				else {
					w = res * (s.range(1, 40) + (s.boolean() ? 0.5f : 0.0f));
					h = res * (s.range(1, 40) + (s.boolean() ? 0.5f : 0.0f));
				}
				map.InitializeSize(w, h);
				sized = true;
				c << " size " << w << "x" << h;
			}
		}
		const double eps = 1e-5 * (w + h + std::abs(origin.x()) + std::abs(origin.y()) + 1);
		c.check(map.GetPosition() == origin, "the map is not where it was put");
		// the grid just covers the map
		c.check(map.Rows() * res >= w - 1e-4 * w && (map.Rows() - 1) * res <= w + 1e-4 * w, map.Rows(), " rows of ", res, " for a width of ", w);
		c.check(map.Columns() * res >= h - 1e-4 * h && (map.Columns() - 1) * res <= h + 1e-4 * h, map.Columns(), " columns of ", res, " for a height of ", h);
		int margin = 4;
		for (int i = 0; i < 12; i++) {
			int r = s.range(-margin, map.Rows() + margin), k = s.range(-margin, map.Columns() + margin);
			if (far && s.boolean())
				r = s.range(-8000000, 8000000), k = s.range(-8000000, 8000000);
			bool inside = r >= 0 && r < map.Rows() && k >= 0 && k < map.Columns();
			double fx = s.uniform(0.02, 0.98), fy = s.uniform(0.02, 0.98);
			Point2d local(-w / 2.0 + (r + fx) * res, -h / 2.0 + (k + fy) * res), world = origin + local;
			GridCellPosition free = map.WorldPositionToGridCell(world, false), bound = map.WorldPositionToGridCell(world), lfree = map.LocalPositionToGridCell(local, false), lbound = map.LocalPositionToGridCell(local);
			c.check(free == GridCellPosition(r, k), "world (", world.x(), ",", world.y(), ") is in cell (", free.row, ",", free.col, ") instead of (", r, ",", k, ")");
			c.check(lfree == GridCellPosition(r, k), "local (", local.x(), ",", local.y(), ") is in cell (", lfree.row, ",", lfree.col, ") instead of (", r, ",", k, ")");
			GridCellPosition expect = inside ? GridCellPosition(r, k) : GridCellPosition(-1, -1);
			c.check(bound == expect && lbound == expect, "bounded lookup of cell (", r, ",", k, ") gives (", bound.row, ",", bound.col, ")");
			c.check(map.WorldPositionToGridCell(world.x(), world.y()) == bound && map.WorldPositionToGridCell(world.x(), world.y(), false) == free && map.LocalPositionToGridCell(local.x(), local.y()) == lbound && map.LocalPositionToGridCell(local.x(), local.y(), false) == lfree, "the coordinate overload differs");
			c.check(map.IsInsideMap(world) == inside && map.IsInsideMap(GridCellPosition(r, k)) == inside, "cell (", r, ",", k, ") of a ", map.Rows(), "x", map.Columns(), " map: inside is ", map.IsInsideMap(world));
			// frames are translations of each other
			c.check((map.WorldPositionToLocalPosition(world) - local).norm() <= eps && (map.LocalPositionToWorldPosition(local) - world).norm() <= eps, "world and local differ by something else than the position");
			c.check((map.WorldPositionToLocalPosition(world.x(), world.y()) - local).norm() <= eps && (map.LocalPositionToWorldPosition(local.x(), local.y()) - world).norm() <= eps, "the coordinate overload differs");
			// a cell is named by its lower corner
			Point2d corner = map.GridCellToWorldPosition({ r, k }), lcorner = map.GridCellToLocalPosition({ r, k });
			c.check((corner - (origin + Point2d(-w / 2.0 + r * res, -h / 2.0 + k * res))).norm() <= eps, "cell (", r, ",", k, ") starts at world (", corner.x(), ",", corner.y(), ")");
			c.check((corner - map.LocalPositionToWorldPosition(lcorner)).norm() <= eps, "the local and world corner of a cell differ");
			c.check(map.GridCellToWorldPosition(r, k) == corner && map.GridCellToLocalPosition(r, k) == lcorner, "the coordinate overload differs");
			Point2d inner = corner + Point2d(fx * res, fy * res);
			c.check(map.WorldPositionToGridCell(inner, false) == GridCellPosition(r, k), "a point of the cell is not found in the cell");
		}
		c.label("moved after sizing", movedAfter);
		c.nontrivial(moved && map.Rows() > 1 && map.Columns() > 1);
	}

	void uninitialised(Src& s, Case& c)
	{
		ObstacleListOccupancyMap map(s.oneOf<float>({ 1.0f, 0.1f }));
		MadeObstacle o = obstacle(s, 3, 2);
		int thrown = 0;
		try {
			map.AddObstacle(o.obstacle);
		} catch (const std::runtime_error&) {
			thrown++;
		}
		try {
			map.RemoveObstacle(o.obstacle);
		} catch (const std::runtime_error&) {
			thrown++;
		}
		try {
			map.IsOccupied({ 0, 0 });
		} catch (const std::runtime_error&) {
			thrown++;
		}
		c.check(thrown == 3, "a map without a size accepts ", 3 - thrown, " of adding, removing and querying");
		c.check(map.GetNumObstacles() == 0, "a map without a size holds obstacles");
		Point2d p(s.signedMag(5), s.signedMag(5));
		c.check(!map.IsInsideMap(p), "a map without a size contains a point");
		c.nontrivial();
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C16";
	p.rule = "maps of random size (1 to 40, some up to 3000 cells) and resolution, positioned and sized in any order and repeatedly; points inside cells of the map and up to four cells around it. Non-trivial: a repositioned map with more than one row and column.";
	p.assumptions = { "points are at least 2 % of a cell away from cell borders (single precision resolution)", "cells are half-open squares from their lower corner" };
	p.laws = {
		{ "frames", 100000, frames },
		{ "uninitialised", 5000, uninitialised },
	};
	return p;
}
