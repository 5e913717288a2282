// C18: the occupancy grid is the union of the obstacles that are present.
#include "map_gen.h"
using namespace Planner;
using namespace pbt;
using namespace mapgen;

namespace {
	struct Item {
		MadeObstacle o;
		bool present = false;
		std::set<RC> cells; // when it was added
	};

	void compare(Case& c, ObstacleListOccupancyMap& map, const std::vector<Item>& items, int rows, int cols)
	{
		int n = 0;
		for (auto& i : items)
			n += i.present;
		c.check(map.GetNumObstacles() == n, "the map reports ", map.GetNumObstacles(), " obstacles, ", n, " are present");
		std::map<RC, std::vector<size_t>> cover;
		for (size_t k = 0; k < items.size(); k++)
			if (items[k].present)
				for (auto& cell : items[k].cells)
					cover[cell].push_back(k);
		// the value of cells with one owner identifies the owner
		std::map<size_t, int> idOf;
		std::map<int, size_t> owner;
		for (auto& [cell, own] : cover) {
			int v = map.GetOccupancyValue(cell.first, cell.second);
			c.check(v >= 0, "cell (", cell.first, ",", cell.second, ") holds an obstacle but its value is ", v);
			if (own.size() != 1)
				continue;
			auto [it, fresh] = idOf.insert({ own[0], v });
			c.check(it->second == v, "cells of one obstacle have the values ", it->second, " and ", v);
			auto [jt, fresh2] = owner.insert({ v, own[0] });
			c.check(jt->second == own[0], "two obstacles share the value ", v);
		}
		for (int r = 0; r < rows; r++)
			for (int k = 0; k < cols; k++) {
				auto it = cover.find({ r, k });
				bool expect = it != cover.end();
				c.check(map.IsOccupied({ r, k }) == expect, "cell (", r, ",", k, ") is ", expect ? "free although an obstacle covers it" : "occupied although no obstacle covers it");
				int v = map.GetOccupancyValue({ r, k });
				c.check((v >= 0) == expect && v == map.GetOccupancyValue(r, k), "the value of cell (", r, ",", k, ") is ", v);
				if (expect && it->second.size() > 1) {
					auto o = owner.find(v);
					if (o != owner.end())
						c.check(std::count(it->second.begin(), it->second.end(), o->second) == 1, "cell (", r, ",", k, ") refers to an obstacle that does not cover it");
				}
			}
	}

	void history(Src& s, Case& c)
	{
		float res = s.oneOf<float>({ 1.0f, 0.5f, 0.1f });
		double w = s.range(3, 16) - 0.25, h = s.range(3, 16) - 0.25;
		auto map = std::make_unique<ObstacleListOccupancyMap>(res);
		Point2d origin(s.signedMag(20), s.signedMag(20));
		map->InitializeSize((float)(w * res), (float)(h * res));
		map->SetPosition(origin);
		const int rows = map->Rows(), cols = map->Columns();
		double half = 0.5 * std::max(w, h) * res;
		std::vector<Item> items;
		auto pose = [&](bool same) {
			if (same && !items.empty())
				return items[s.range(0, items.size() - 1)].o.pose;
			Pose2d p = poseIn(s, half * 1.3);
			p.position += origin;
			return p;
		};
		int ops = s.size(1, 30), overlapRemoved = 0, movedRemoved = 0, readded = 0, refused = 0;
		c << rows << "x" << cols << ": ";
		for (int op = 0; op < ops; op++) {
			int kind = s.range(0, 9);
			if (items.empty() || (kind <= 3 && items.size() < 8)) {
				Item it;
				it.o = obstacle(s, half, std::max(w, h) * res * s.oneOf<double>({ 0.2, 0.6, 1.5 }));
				it.o.pose = pose(s.chance(1, 3));
				it.o.obstacle->SetPose(it.o.pose);
				if (!items.empty() && s.chance(1, 4)) {
					it.o.shape = items[s.range(0, items.size() - 1)].o.shape;
					it.o.obstacle->SetShape(it.o.shape.shape);
				}
				items.push_back(it);
				Item& i = items.back();
				for (auto& k : i.o.obstacle->GetBoundaryGridCellPosition(*map))
					i.cells.insert({ k.row, k.col });
				c << "add " << items.size() - 1 << " (" << i.cells.size() << " cells) ";
				c.check(map->AddObstacle(i.o.obstacle), "adding a new obstacle is refused");
				i.present = true;
			} else {
				size_t k = s.range(0, items.size() - 1);
				Item& i = items[k];
				if (kind <= 5) {
					c << (i.present ? "add again " : "add back ") << k << " ";
					std::set<RC> cells;
					for (auto& q : i.o.obstacle->GetBoundaryGridCellPosition(*map))
						cells.insert({ q.row, q.col });
					bool ok = map->AddObstacle(i.o.obstacle);
					c.check(ok == !i.present, "adding an obstacle that is ", i.present ? "" : "not ", "present returned ", ok);
					if (!i.present)
						i.cells = cells, readded++;
					else
						refused++;
					i.present = true;
				} else if (kind <= 8) {
					c << (i.present ? "remove " : "remove absent ") << k << " ";
					bool ok = map->RemoveObstacle(i.o.obstacle);
					c.check(ok == i.present, "removing an obstacle that is ", i.present ? "" : "not ", "present returned ", ok);
					refused += !i.present;
					for (size_t q = 0; q < items.size(); q++)
						if (i.present && q != k && items[q].present)
							for (auto& cell : i.cells)
								overlapRemoved += items[q].cells.count(cell);
					i.present = false;
				} else {
					c << "move " << k << " ";
					i.o.pose = pose(false);
					i.o.obstacle->SetPose(i.o.pose);
					movedRemoved += i.present;
				}
			}
			if (s.chance(1, 6))
				map->Update();
			compare(c, *map, items, rows, cols);
		}
		for (size_t k = 0; k < items.size(); k++)
			if (items[k].present && s.boolean()) {
				c.check(map->RemoveObstacle(items[k].o.obstacle), "removing a present obstacle is refused");
				items[k].present = false;
			}
		compare(c, *map, items, rows, cols);
		c.label("overlapping obstacle removed", overlapRemoved > 0);
		c.label("obstacle moved while present", movedRemoved > 0);
		c.label("added back", readded > 0);
		c.label("refused", refused > 0);
		c.nontrivial(ops >= 5 && items.size() >= 2);
	}

	/// Hundreds of obstacles at once.
	void crowd(Src& s, Case& c)
	{
		float res = 1.0f;
		int size = s.range(40, 120);
		ObstacleListOccupancyMap map(res);
		map.InitializeSize(size - 0.25f, size - 0.25f);
		const int rows = map.Rows(), cols = map.Columns();
		int n = s.range(100, 600), removed = 0, most = 0, present = 0;
		std::vector<Item> items(n);
		auto put = [&](Item& i) {
			i.cells.clear();
			for (auto& k : i.o.obstacle->GetBoundaryGridCellPosition(map))
				i.cells.insert({ k.row, k.col });
			c.check(map.AddObstacle(i.o.obstacle), "adding an obstacle to ", present, " others is refused");
			i.present = true;
			present++;
			most = std::max(most, present);
		};
		for (int k = 0; k < n; k++) {
			Item& i = items[k];
			i.o = obstacle(s, size / 2.0, s.oneOf<double>({ 0.5, 2.0, 5.0 }));
			put(i);
			if (s.chance(1, 5)) {
				Item& r = items[s.range(0, k)];
				c.check(map.RemoveObstacle(r.o.obstacle) == r.present, "removing an obstacle is wrong");
				present -= r.present;
				removed += r.present;
				r.present = false;
			}
		}
		compare(c, map, items, rows, cols);
		for (auto& i : items)
			if (s.boolean()) {
				if (i.present) {
					c.check(map.RemoveObstacle(i.o.obstacle), "removing a present obstacle is refused");
					i.present = false;
					present--;
				} else
					put(i);
			}
		compare(c, map, items, rows, cols);
		c << rows << "x" << cols << ", up to " << most << " obstacles at once, " << removed << " removed on the way";
		c.label("more than 256 at once", most > 256);
		c.nontrivial(most > 64);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C18";
	p.rule = "histories of up to 30 operations on one map (adding new, present and removed obstacles, removing present and absent ones, moving obstacles, updates), up to eight overlapping obstacles of every shape; up to 600 obstacles at once on maps up to 120x120; after every operation every cell is compared with the union of the outlines of the obstacles that are present. Non-trivial: at least five operations on two obstacles.";
	p.assumptions = { "the size and position of the map are set before obstacles are added", "an obstacle occupies the cells it covered when it was added: moving it takes effect when it is added again", "the cells of one obstacle on an otherwise empty map are decided by C17" };
	p.laws = { { "history", 12000, history }, { "crowd", 150, crowd } };
	return p;
}
