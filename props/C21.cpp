// C21: states and paths accepted by the occupancy-map validator are safe.
#include "map_gen.h"
#include "path_gen.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_free.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace Planner;
using namespace pbt;
using namespace mapgen;

namespace {
	struct World {
		Ref<StateSpaceSE2> space;
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> validator;
		double w, h, res, safe, step;
		Point2d origin;
		std::vector<RC> occupied;
		std::array<double, 2> heading;
	};

	World world(Src& s, Case& c, bool anyHeading)
	{
		World u;
		u.res = s.oneOf<double>({ 0.1, 0.25, 0.5 });
		const bool large = s.chance(1, 6);
		const double most = u.res < 0.25 ? 28 : 60;
		u.w = large ? s.uniform(16, most) : s.uniform(3, 16);
		u.h = large ? s.uniform(16, most) : s.uniform(3, 16);
		u.heading = { -M_PI, M_PI };
		if (!anyHeading && s.boolean())
			u.heading = { s.uniform(-3, 0), s.uniform(0, 3) };
		std::array<Pose2d, 2> bounds { Pose2d(-u.w / 2, -u.h / 2, u.heading[0]), Pose2d(u.w / 2, u.h / 2, u.heading[1]) };
		u.space = makeRef<StateSpaceSE2>(bounds);
		u.map = makeRef<ObstacleListOccupancyMap>((float)u.res);
		u.origin = Point2d(s.signedMag(20), s.signedMag(20));
		bool before = s.boolean();
		if (before)
			u.map->SetPosition(u.origin);
		u.validator = makeRef<StateValidatorOccupancyMap>(u.space, u.map);
		if (!before)
			u.map->SetPosition(u.origin);
		u.safe = large ? s.oneOf<double>({ 1.0, 0.3, 5.0, 0.0 }) : s.oneOf<double>({ 1.0, 0.3, 2.0, 0.0 });
		u.step = s.oneOf<double>({ 0.1, 0.02, 0.5 });
		u.validator->minSafeRadius = (float)u.safe;
		u.validator->minPathInterpolationDistance = (float)u.step;
		int n = large ? s.range(0, 12) : s.range(0, 4);
		std::vector<MadeObstacle> all;
		for (int i = 0; i < n; i++) {
			MadeObstacle o = obstacle(s, 0.5 * std::max(u.w, u.h), s.oneOf<double>({ 0.3, 1.5, 4.0 }));
			o.pose.position += u.origin;
			o.obstacle->SetPose(o.pose);
			u.map->AddObstacle(o.obstacle);
			all.push_back(o);
		}
		u.map->Update();
		if (n > 1 && s.chance(1, 4)) {
			u.map->RemoveObstacle(all[0].obstacle);
			u.map->Update();
		}
		for (int r = 0; r < u.map->Rows(); r++)
			for (int k = 0; k < u.map->Columns(); k++)
				if (u.map->IsOccupied({ r, k }))
					u.occupied.push_back({ r, k });
		c << u.w << "x" << u.h << " resolution " << u.res << " safe radius " << u.safe << " step " << u.step << ", " << u.occupied.size() << " occupied cells, ";
		return u;
	}

	/// Distance from the centre of the cell of a position to the centres of the occupied cells
	double clearance(const World& u, const Point2d& p)
	{
		double r = std::floor((p.x() - u.origin.x() + u.w / 2) / u.res), k = std::floor((p.y() - u.origin.y() + u.h / 2) / u.res), best = 1e300;
		for (auto& [a, b] : u.occupied)
			best = std::min(best, (a - r) * (a - r) + (b - k) * (b - k));
		return best < 1e300 ? std::sqrt(best) * u.res : 1e300;
	}
	/// Distance to the border of the map, negative outside
	double inside(const World& u, const Point2d& p)
	{
		double x = p.x() - u.origin.x(), y = p.y() - u.origin.y();
		return std::min({ x + u.w / 2, u.w / 2 - x, y + u.h / 2, u.h / 2 - y });
	}

	/// Compare the answer for a state with a brute-force search. Return 1 when it is accepted, 0 when not, -1 when it is not judged.
	int judge(const World& u, Case& c, const Pose2d& p, const char* when)
	{
		bool got = u.validator->IsStateValid(p);
		double in = inside(u, p.position), cl = clearance(u, p.position);
		double fr = (p.x() - u.origin.x() + u.w / 2) / u.res, fk = (p.y() - u.origin.y() + u.h / 2) / u.res;
		auto edge = [](double f) { return std::abs(f - std::round(f)) < 1e-3; };
		if (std::abs(in) < 1e-6 || edge(fr) || edge(fk) || std::abs(p.theta - u.heading[0]) < 1e-9 || std::abs(p.theta - u.heading[1]) < 1e-9)
			return -1;
		bool head = p.theta >= u.heading[0] && p.theta <= u.heading[1];
		// the distance map may overestimate by a quarter cell
		// exactly the safe radius is enough (where the arithmetic is exact)
		const bool exact = cl == u.safe && (u.safe == 0 || u.res != 0.1);
		if (in > 0 && head && (cl >= u.safe + 1e-4 || exact))
			c.check(got, "the state (", p.x() - u.origin.x(), ",", p.y() - u.origin.y(), ",", p.theta, ") relative to the map, ", in, " inside the bounds and ", cl, " away from obstacles, is refused", when);
		else if (in < 0 || !head || cl < u.safe - 0.25 * u.res - 1e-4)
			c.check(!got, "the state (", p.x() - u.origin.x(), ",", p.y() - u.origin.y(), ",", p.theta, ") relative to the map, ", in, " inside the bounds, heading ", head ? "allowed" : "not allowed", " and ", cl, " away from obstacles, is accepted", when);
		return got;
	}

	void state(Src& s, Case& c)
	{
		World u = world(s, c, false);
		int valid = 0, tested = 0;
		for (int q = 0; q < 80; q++) {
			Pose2d p(s.uniform(-0.65, 0.65) * u.w + u.origin.x(), s.uniform(-0.65, 0.65) * u.h + u.origin.y(), s.angle());
			if (s.chance(1, 4) && !u.occupied.empty()) {
				auto [r, k] = u.occupied[s.range(0, u.occupied.size() - 1)];
				double d = u.safe + s.uniform(-3, 3) * u.res, a = s.uniform(-3.2, 3.2);
				p.position = Point2d(u.origin.x() - u.w / 2 + (r + 0.5) * u.res + d * std::cos(a), u.origin.y() - u.h / 2 + (k + 0.5) * u.res + d * std::sin(a));
			}
			int got = judge(u, c, p, "");
			if (got < 0)
				continue;
			tested++;
			valid += got;
		}
		c << valid << " of " << tested << " valid";
		c.nontrivial(valid > 0 && valid < tested);
	}

	/// The answers are those for the obstacles, the position and the radius of now, whatever was asked before.
	void history(Src& s, Case& c)
	{
		World u = world(s, c, true);
		std::vector<Pose2d> asked;
		for (int q = 0; q < 12; q++)
			asked.push_back(Pose2d(s.uniform(-0.5, 0.5) * u.w + u.origin.x(), s.uniform(-0.5, 0.5) * u.h + u.origin.y(), s.angle()));
		// paths ask for states far from where they start
		std::vector<PathSE2> paths;
		for (int q = 0; q < 4; q++)
			paths.emplace_back(asked[2 * q], asked[2 * q + 1]);
		std::vector<Ref<Obstacle>> present;
		std::vector<int> before(asked.size(), -1);
		std::vector<int> pathBefore(paths.size(), -1);
		int steps = s.size(1, 6), flips = 0, pathFlips = 0;
		for (int i = 0; i <= steps; i++) {
			int what = i ? s.range(0, 4) : -1;
			if (what == 0 || what == 1) {
				MadeObstacle o = obstacle(s, 0.5 * std::max(u.w, u.h), s.oneOf<double>({ 0.3, 1.5, 4.0 }));
				o.pose.position += u.origin;
				if (s.boolean())
					o.pose.position = asked[s.range(0, asked.size() - 1)].position;
				o.obstacle->SetPose(o.pose);
				u.map->AddObstacle(o.obstacle);
				present.push_back(o.obstacle);
				u.map->Update();
				c << "; add " << o.shape.kind;
			} else if (what == 2 && !present.empty()) {
				int k = s.range(0, present.size() - 1);
				u.map->RemoveObstacle(present[k]);
				present.erase(present.begin() + k);
				u.map->Update();
				c << "; remove";
			} else if (what == 3) {
				u.safe = s.oneOf<double>({ 1.0, 0.3, 2.0, 0.0, 0.7 });
				u.validator->minSafeRadius = (float)u.safe;
				c << "; radius " << u.safe;
			} else if (what == 4) {
				// the cells move with the map
				u.origin = u.origin + Point2d(s.uniform(-1, 1), s.uniform(-1, 1)) * s.oneOf<double>({ 1.0, 3.0 });
				u.map->SetPosition(u.origin);
				c << "; move";
			}
			u.occupied.clear();
			for (int r = 0; r < u.map->Rows(); r++)
				for (int k = 0; k < u.map->Columns(); k++)
					if (u.map->IsOccupied({ r, k }))
						u.occupied.push_back({ r, k });
			// the last state first: nothing else was asked since
			for (int q = (int)asked.size() - 1; q >= 0; q--) {
				int now = judge(u, c, asked[q], i ? " after a change" : "");
				flips += now >= 0 && before[q] >= 0 && now != before[q];
				before[q] = now;
			}
			for (size_t q = 0; q < paths.size(); q++) {
				bool ok = u.validator->IsPathValid(paths[q]);
				double minClear = 1e300, minIn = 1e300, L = paths[q].GetLength();
				int N = std::max(1, std::min(400, (int)std::ceil(L / 0.05)));
				for (int k = 0; k <= N; k++) {
					Pose2d at = paths[q].Interpolate((double)k / N);
					minClear = std::min(minClear, clearance(u, at.position));
					minIn = std::min(minIn, inside(u, at.position));
				}
				if (minClear >= u.safe + 2 * u.res && minIn >= u.res)
					c.check(ok, "a path that stays ", minClear, " clear of obstacles and ", minIn, " inside the map is refused", i ? " after a change" : "");
				if (minClear < u.safe - (1.75 * u.res + 0.5 * u.step + 1e-3) || minIn < -(0.5 * u.step + 1e-3))
					c.check(!ok, "a path that comes within ", minClear, " of obstacles and ", minIn, " of the border is accepted", i ? " after a change" : "");
				pathFlips += pathBefore[q] >= 0 && ok != (bool)pathBefore[q];
				pathBefore[q] = ok;
			}
			// the first state of the next round was the last to be asked
			std::reverse(asked.begin(), asked.end());
			std::reverse(before.begin(), before.end());
			judge(u, c, asked.back(), "");
		}
		c << ", " << flips << " answers changed";
		c.label("a path changed", pathFlips > 0);
		c.nontrivial(flips > 0);
	}

	void path(Src& s, Case& c)
	{
		World u = world(s, c, true);
		// start at a valid state when there is one
		Pose2d start;
		for (int i = 0; i < 6; i++) {
			start = Pose2d(s.uniform(-0.5, 0.5) * u.w + u.origin.x(), s.uniform(-0.5, 0.5) * u.h + u.origin.y(), s.angle());
			if (u.validator->IsStateValid(start))
				break;
		}
		// a path that goes nowhere is its only state
		for (int i = 0; i < 2; i++) {
			Pose2d at(s.uniform(-0.55, 0.55) * u.w + u.origin.x(), s.uniform(-0.55, 0.55) * u.h + u.origin.y(), s.angle());
			PathSE2 none(at, at);
			bool valid = u.validator->IsStateValid(at);
			float lastOfNone = -7;
			c.check(u.validator->IsPathValid(none, &lastOfNone) == valid && u.validator->IsPathValid(none) == valid, "a path of length 0 at a state that is ", valid ? "" : "in", "valid is judged otherwise");
			c.check(lastOfNone >= 0 && lastOfNone <= 1, "the last valid ratio of a path of length 0 is ", lastOfNone);
		}
		Ref<PathSE2Base> p;
		std::string kind;
		int which = s.range(0, 6);
		if (which == 6 && u.occupied.empty())
			which = 0;
		if (which == 5) {
			// a short path across the limit of what is valid
			Pose2d in = start, out(s.uniform(-0.6, 0.6) * u.w + u.origin.x(), s.uniform(-0.6, 0.6) * u.h + u.origin.y(), start.theta);
			if (u.validator->IsStateValid(out))
				throw Discard();
			double len = std::pow(10, -s.uniform(0.5, 7));
			while ((out.position - in.position).norm() > len) {
				Pose2d mid(0.5 * (in.position + out.position), in.theta);
				(u.validator->IsStateValid(mid) ? in : out) = mid;
			}
			if (s.boolean())
				std::swap(in, out);
			start = in;
			p = makeRef<PathSE2>(in, out);
			kind = "short";
		} else if (which == 6) {
			// past an occupied cell, a little closer than allowed or not
			auto [r, k] = u.occupied[s.range(0, u.occupied.size() - 1)];
			double a = s.angle(), d = (u.safe + 0.5 * u.res) * s.uniform(0.3, 1.1);
			Point2d along(std::cos(a), std::sin(a)), cell(u.origin.x() - u.w / 2 + (r + 0.5) * u.res, u.origin.y() - u.h / 2 + (k + 0.5) * u.res);
			Point2d mid = cell + d * Point2d(-along.y(), along.x());
			double room[2];
			for (int i : { 0, 1 }) {
				double t = 0;
				while (t < 60 && inside(u, mid + (i ? 1 : -1) * (t + 0.1) * along) > 0)
					t += 0.1;
				room[i] = t * s.uniform(0.5, 1);
			}
			start = Pose2d(mid - room[0] * along, a);
			p = makeRef<PathSE2>(start, Pose2d(mid + room[1] * along, a));
			kind = "passing";
		} else if (which == 4) {
			// along the upper border and out at the side: the states that are looked at can meet the end exactly
			u.validator->minPathInterpolationDistance = s.oneOf<float>({ 0.5f, 0.25f, 0.125f });
			u.step = u.validator->minPathInterpolationDistance;
			int n = s.range(1, 8);
			double out = s.uniform(-1, 1) * u.step, at = u.w / 2 + out - n * u.step;
			bool across = s.boolean();
			Point2d from(at, u.h / 2 - s.uniform(0.05, 0.5) * u.step);
			if (across)
				from = Point2d(u.w / 2 - s.uniform(0.05, 0.5) * u.step, u.h / 2 + out - n * u.step);
			start = Pose2d(u.origin + from, 0.0);
			p = makeRef<PathSE2>(start, Pose2d(start.position + (across ? Point2d(0, n * u.step) : Point2d(n * u.step, 0)), 0.0));
			kind = "border";
		} else if (which == 0) {
			Pose2d to(s.uniform(-0.55, 0.55) * u.w + u.origin.x(), s.uniform(-0.55, 0.55) * u.h + u.origin.y(), s.angle());
			p = makeRef<PathSE2>(start, to);
			kind = "straight";
		} else if (which == 1) {
			double steer = s.uniform(-1, 1), len = s.uniform(0.2, 15);
			if (s.chance(1, 4)) {
				len = s.uniform(15, 70);
				steer = s.boolean() ? s.uniform(0.6, 1.2) : s.uniform(-1.2, -0.6);
			}
			p = makeRef<PathConstantSteer>(makeRef<KinematicBicycleModel>(s.oneOf<double>({ 2.6, 1.0 }), 0.0), start, steer, len, s.boolean() ? Direction::Backward : Direction::Forward);
			kind = "constant-steer";
		} else if (which == 2) {
			double radius = s.oneOf<double>({ 0.5, 1.0, 3.0 });
			Pose2d to(s.uniform(-0.5, 0.5) * u.w + u.origin.x(), s.uniform(-0.5, 0.5) * u.h + u.origin.y(), s.angle());
			p = makeRef<PathReedsShepp>(start, ReedsShepp::Solver::GetShortestPath(start, to, radius), radius);
			kind = "reeds-shepp";
		} else {
			auto comp = makeRef<PathSE2CompositeNonHolonomic>();
			Pose2d at = start;
			int n = s.chance(1, 6) ? s.range(4, 30) : s.range(1, 4);
			auto model = makeRef<KinematicBicycleModel>(2.0, 0.0);
			for (int i = 0; i < n; i++) {
				auto k = makeRef<PathConstantSteer>(model, at, s.uniform(-1, 1), s.uniform(0.2, 4), s.boolean() ? Direction::Backward : Direction::Forward);
				comp->PushBack(k);
				at = k->GetFinalState();
			}
			p = comp;
			kind = "composite";
		}
		const double L = p->GetLength();
		c << kind << " of length " << L << " from (" << start.x() - u.origin.x() << "," << start.y() - u.origin.y() << "," << start.theta << ")";
		if (L < 1e-9)
			throw Discard();
		float last = -7;
		bool ok = u.validator->IsPathValid(*p, &last);
		c.check(ok == u.validator->IsPathValid(*p), "the answer depends on asking for the last valid state");
		StateValidatorSE2Base& base = *u.validator;
		Pose2d lastPose;
		c.check(ok == base.IsPathValid(*p, &lastPose), "asking for the last valid pose changes the answer");
		c.check(last >= 0 && last <= 1, "the last valid ratio is ", last);
		c.check(pathgen::gap(lastPose, p->Interpolate(last)) <= 1e-4 * (1 + L), "the last valid pose is not the pose at the last valid ratio");
		// dense samples
		const int N = std::max(1, std::min(8000, (int)std::ceil(L / 0.01)));
		// every point is within half a step, or the known clearance, of a state that was looked at;
		// distances are those of cells, and may be a quarter of a cell too long
		const double tolD = 1.75 * u.res + 0.5 * u.step + 1e-3, marginD = 2 * u.res;
		bool allFine = true, nearInvalid = false;
		double firstNear = -1, minClear = 1e300;
		for (int i = 0; i <= N; i++) {
			double r = (double)i / N;
			Pose2d q = p->Interpolate(r);
			double cl = clearance(u, q.position), in = inside(u, q.position);
			if (r <= last) {
				minClear = std::min(minClear, cl);
				if (last > 0 || ok) {
					c.check(cl >= u.safe - tolD, ok ? "the accepted path" : "the part before the last valid state", " comes within ", cl, " of an obstacle at ratio ", r, " (last valid ratio ", last, ")");
					c.check(in >= -(0.5 * u.step + 1e-3), ok ? "the accepted path" : "the part before the last valid state", " leaves the map by ", -in, " at ratio ", r);
				}
			}
			bool fine = cl >= u.safe + marginD && in >= u.res;
			allFine = allFine && fine;
			if (!fine && r >= last - 1e-6) {
				nearInvalid = true;
				if (firstNear < 0)
					firstNear = r;
			}
		}
		if (allFine)
			c.check(ok && last == 1.0f, "a path that stays ", u.safe + marginD, " clear of obstacles and inside the map is refused (last valid ratio ", last, ")");
		if (ok) {
			c.check(u.validator->IsStateValid(p->Interpolate(0)) && u.validator->IsStateValid(p->GetFinalState()), "an accepted path starts or ends in an invalid state");
			c.check(last == 1.0f, "the last valid ratio of an accepted path is ", last);
		} else {
			c.check(nearInvalid, "the path is refused but is clear after the last valid ratio ", last);
			// single precision of the ratio
			bool lastValid = u.validator->IsStateValid(p->Interpolate(last));
			for (double e : { -1e-6, 1e-6 })
				lastValid = lastValid || u.validator->IsStateValid(p->Interpolate(std::min(1.0, std::max(0.0, last + e))));
			c.check(lastValid || last == 0, "the last valid state, at ratio ", last, ", is not valid");
			// the next state to become invalid is not farther than the validator could know to be free
			double here = std::min(clearance(u, p->Interpolate(last).position), 1e3);
			c.check((firstNear - last) * L <= std::max(here - u.safe, u.step) + 3 * u.res + 0.03, "the last valid ratio is ", last, " but the path stays clear until ratio ", firstNear, " (clearance ", here, ")");
		}
		c.label(ok ? "accepted" : "refused");
		c.label("refused after a valid part", !ok && last > 0);
		c.label("accepted close to an obstacle", ok && minClear < u.safe + 2 * u.res);
		c.nontrivial(!ok || minClear < 1e300);
	}

	void freeWorld(Src& s, Case& c)
	{
		std::array<Pose2d, 2> bounds { Pose2d(-2, -3, -1), Pose2d(4, 5, 2) };
		auto space = makeRef<StateSpaceSE2>(bounds);
		StateValidatorSE2Free v(space);
		Pose2d a(s.uniform(-6, 6), s.uniform(-6, 6), s.angle()), b(s.uniform(-6, 6), s.uniform(-6, 6), s.angle());
		bool in = a.x() >= -2 && a.x() <= 4 && a.y() >= -3 && a.y() <= 5 && a.theta >= -1 && a.theta <= 2;
		c.check(v.IsStateValid(a) == in, "the free validator ", in ? "refuses" : "accepts", " a state ", in ? "inside" : "outside", " the bounds");
		float last = 0;
		PathSE2 p(a, b);
		c.check(v.IsPathValid(p, &last) && last == 1.0f, "the free validator refuses a path");
		StateValidatorSE2Base& base = v;
		Pose2d pose;
		c.check(base.IsPathValid(p, &pose) && pathgen::gap(pose, b) < 1e-9, "the last valid pose of a free path is not its end");
		c.check(v.GetStateSpace() == space, "the validator has another state space");
		c.nontrivial(in);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C21";
	p.rule = "maps of 3 to 16 m (some to 60 m) with up to four (twelve) obstacles of every shape, safe radii 0 to 2 m, interpolation steps 0.02 to 0.5 m, any map position; 80 states per map inside, outside and close to the limit of safety compared with a brute-force distance; the same states and paths asked again after obstacles, the radius or the map position changed; straight, constant-steering, Reeds-Shepp and composite paths sampled every centimetre, and short paths (down to 1e-7 m) across the limit of safety. Non-trivial: a map with valid and invalid states; a history in which an answer changes; a path that was refused or passes an obstacle.";
	p.assumptions = { "the bounds of the state space are centred on the map position", "paths are validated with the full range of headings", "accepted paths may come closer than the safe radius by half the interpolation step and 1.75 cells, and leave the map by half the step (cell distances at the sampled states)", "states within 1e-3 cells of a cell border are not judged" };
	p.laws = {
		{ "state", 2500, state },
		{ "path", 12000, path },
		{ "history", 2000, history },
		{ "free", 4000, freeWorld },
	};
	return p;
}
