// C25: the path smoother keeps what must be kept, reports safety truthfully and follows its gradients.
#include "algo/smoother.h"
#include "map_gen.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace Planner;
using namespace pbt;
using namespace mapgen;

namespace {
	struct World {
		Ref<ObstacleListOccupancyMap> map;
		Ref<StateValidatorOccupancyMap> validator;
		Ref<GVD> gvd;
		double w, h;
		Point2d origin;
	};
	World world(Src& s, Case& c, int maxObstacles)
	{
		World u;
		u.w = s.uniform(8, 16);
		u.h = s.uniform(8, 16);
		std::array<Pose2d, 2> bounds { Pose2d(-u.w / 2, -u.h / 2, -M_PI), Pose2d(u.w / 2, u.h / 2, M_PI) };
		u.map = makeRef<ObstacleListOccupancyMap>(s.oneOf<float>({ 0.5f, 0.25f, 0.5f, 1.0f }));
		u.validator = makeRef<StateValidatorOccupancyMap>(makeRef<StateSpaceSE2>(bounds), u.map);
		u.origin = Point2d(s.signedMag(10), s.signedMag(10));
		u.map->SetPosition(u.origin);
		u.validator->minSafeRadius = s.oneOf<float>({ 1.0f, 0.3f, 0.0f, 4.0f });
		u.gvd = makeRef<GVD>(u.map);
		int n = s.range(0, maxObstacles);
		for (int i = 0; i < n; i++) {
			MadeObstacle o = obstacle(s, 0.35 * std::max(u.w, u.h), s.oneOf<double>({ 0.3, 1.5, 4.0 }));
			o.pose.position += u.origin;
			o.obstacle->SetPose(o.pose);
			u.map->AddObstacle(o.obstacle);
		}
		u.gvd->Update();
		c << n << " obstacles, ";
		return u;
	}

	std::vector<Pose2d> wavy(Src& s, const World& u, int n, double spacing, double wobble)
	{
		std::vector<Pose2d> p;
		Pose2d at(u.origin.x() + s.uniform(-0.3, 0.3) * u.w, u.origin.y() + s.uniform(-0.3, 0.3) * u.h, s.angle());
		double k = s.uniform(-0.6, 0.6), even = spacing;
		const bool uneven = s.boolean();
		for (int i = 0; i < n; i++) {
			p.push_back(at);
			spacing = uneven ? even * s.uniform(0.4, 1.6) : even;
			double th = at.theta + k * spacing + s.uniform(-wobble, wobble);
			at = Pose2d(at.x() + spacing * std::cos(th), at.y() + spacing * std::sin(th), th);
			if (s.chance(1, 12))
				k = s.uniform(-0.6, 0.6);
		}
		return p;
	}

	Smoother::Parameters params(Src& s, double maxCurvature)
	{
		Smoother::Parameters p((float)maxCurvature);
		p.maxIterations = s.oneOf<int>({ 40, 0, 1, 3, 150 });
		p.learningRate = s.oneOf<float>({ 0.01f, 0.03f });
		p.stepTolerance = s.oneOf<float>({ 1e-3f, 1e-6f, 0.05f });
		if (s.boolean()) {
			p.pathWeight = s.oneOf<float>({ 0.f, 0.5f, 2.f });
			p.smoothWeight = s.oneOf<float>({ 0.f, 0.4f, 1.f });
			p.voronoiWeight = s.oneOf<float>({ 0.f, 0.02f, 0.5f });
			p.collisionWeight = s.oneOf<float>({ 0.f, 0.2f, 1.f });
			p.curvatureWeight = s.oneOf<float>({ 0.f, 0.4f });
			p.collisionRatio = s.oneOf<float>({ 0.f, 0.2f, 1.f });
		}
		return p;
	}

	std::unordered_set<int> cusps(Src& s, int n)
	{
		std::unordered_set<int> c;
		if (s.boolean())
			c = { 0, n - 1 };
		int k = s.range(0, 3);
		for (int i = 0; i < k; i++)
			c.insert(s.range(0, n - 1));
		return c;
	}

	void keeps(Src& s, Case& c)
	{
		World u = world(s, c, 3);
		Smoother sm;
		c.check(!sm.Initialize(nullptr, u.gvd, 1.0f) && sm.Smooth({ Pose2d(u.origin, 0.0) }) < 0, "a smoother without a validator works");
		double kMax = s.oneOf<double>({ 0.5, 1.0, 0.1 });
		int before = s.range(0, 2);
		for (int i = 0; i < before; i++) {
			// an earlier use of the smoother, elsewhere and with other settings
			World o = world(s, c, 1);
			c.check(sm.Initialize(o.validator, o.gvd, (float)s.oneOf<double>({ 0.25, 2.0 })), "the smoother cannot be initialized");
			Smoother::Parameters other = params(s, 3.0);
			sm.SetParameters(other);
			sm.Smooth(wavy(s, o, s.range(0, 20), 0.3, 0.5));
		}
		c.check(sm.Initialize(u.validator, u.gvd, (float)kMax), "the smoother cannot be initialized");
		c.check(sm.GetParameters().maxCurvature == (float)kMax, "the maximum curvature is not the requested one");
		Smoother::Parameters par = params(s, kMax);
		sm.SetParameters(par);
		int rounds = s.range(1, 2), moved = 0, safe = 0;
		for (int round = 0; round < rounds; round++) {
			int n = s.chance(1, 6) ? s.range(0, 5) : s.chance(1, 30) ? s.range(100, 400) : s.range(5, 40);
			auto path = wavy(s, u, n, s.oneOf<double>({ 0.1, 0.3, 0.7 }), s.oneOf<double>({ 0.0, 0.2, 1.0 }));
			std::unordered_set<int> cs = n > 0 ? cusps(s, n) : std::unordered_set<int>();
			c << n << " poses, cusps {";
			for (int k : std::set<int>(cs.begin(), cs.end()))
				c << k << " ";
			c << "}, " << par.maxIterations << " iterations; ";
			bool allValid = true;
			for (auto& p : path)
				allValid = allValid && u.validator->IsStateValid(p);
			auto status = sm.Smooth(path, cs);
			std::vector<Pose2d> out = sm.GetPath();
			c.check(out.size() == path.size(), "the smoothed path has ", out.size(), " poses instead of ", path.size());
			if (n > 0) {
				c.check(out.front().position == path.front().position && out.back().position == path.back().position, "smoothing moves an end of the path");
				for (int k : cs)
					c.check(out[k].position == path[k].position, "smoothing moves the cusp at index ", k);
			}
			if (n < 5 || par.maxIterations == 0) {
				for (int i = 0; i < n; i++)
					c.check(out[i].position == path[i].position, "pose ", i, " moved although there is nothing to smooth");
				c.check((status >= 0) == allValid, "a path that is ", allValid ? "" : "not ", "valid and is left as it is has the status ", (int)status);
			}
			if (status >= 0)
				for (size_t i = 0; i < out.size(); i++)
					c.check(std::isfinite(out[i].x()) && std::isfinite(out[i].y()) && u.validator->IsStateValid(out[i]), "status ", (int)status, " but pose ", i, " at (", out[i].x(), ",", out[i].y(), ") is not valid");
			else {
				bool bad = false;
				for (auto& p : out)
					bad = bad || !u.validator->IsStateValid(p);
				c.check(bad, "status ", (int)status, " although all poses are valid");
			}
			if (n < 5)
				c.check(status < 0 || status == Smoother::PathSize, "a path of ", n, " poses has the status ", (int)status);
			else
				c.check(status < 0 || status == Smoother::MaxIteration || status == Smoother::StepTolerance, "a path of ", n, " poses has the status ", (int)status);
			for (int i = 0; i < n; i++)
				moved += out[i].position != path[i].position;
			safe += status >= 0;
			// the result does not depend on earlier calls
			Smoother other;
			other.Initialize(u.validator, u.gvd, (float)kMax);
			other.SetParameters(par);
			auto st2 = other.Smooth(path, cs);
			c.check(st2 == status, "another smoother returns status ", (int)st2, " instead of ", (int)status);
			for (int i = 0; i < n; i++)
				c.check((other.GetPath()[i].position - out[i].position).norm() <= 1e-9 || !std::isfinite(out[i].x()), "another smoother gives a different path");
		}
		c.label("moved", moved > 0);
		c.label("safe", safe > 0);
		c.nontrivial(moved > 3);
	}

	std::vector<char> optimised(int n, const std::unordered_set<int>& cs)
	{
		std::vector<char> o(n, 0);
		for (int i = 2; i < n - 2; i++) {
			o[i] = 1;
			for (int k : cs)
				if (std::abs(k - i) <= 2)
					o[i] = 0;
		}
		return o;
	}

	/// No obstacles, distance to the original and smoothness only: linear.
	void linear(Src& s, Case& c)
	{
		World u = world(s, c, 0);
		Smoother sm;
		sm.Initialize(u.validator, u.gvd, 100.0f);
		Smoother::Parameters par(100.0f);
		par.pathWeight = s.oneOf<float>({ 0.f, 0.5f, 2.f });
		par.smoothWeight = s.oneOf<float>({ 0.4f, 1.f, 0.f });
		par.learningRate = s.oneOf<float>({ 0.01f, 0.05f });
		par.maxIterations = s.range(1, 80);
		par.stepTolerance = s.oneOf<float>({ 1e-3f, 1e-2f });
		sm.SetParameters(par);
		int n = s.chance(1, 20) ? s.range(30, 300) : s.range(5, 30);
		auto path = wavy(s, u, n, s.oneOf<double>({ 0.1, 0.5 }), s.oneOf<double>({ 0.2, 0.0, 0.6 }));
		auto cs = cusps(s, n);
		c << n << " poses, " << par.maxIterations << " iterations, path weight " << par.pathWeight << " smooth weight " << par.smoothWeight;
		sm.Smooth(path, cs);
		auto opt = optimised(n, cs);
		std::vector<Point2d> x, g(n);
		for (auto& p : path)
			x.push_back(p.position);
		double moved = 0;
		int used = 0;
		for (int it = 0; it < par.maxIterations; it++) {
			double step = 0;
			for (int i = 0; i < n; i++) {
				g[i] = Point2d(0, 0);
				if (opt[i])
					g[i] = par.pathWeight * (x[i] - path[i].position) + par.smoothWeight * (x[i - 2] - 4 * x[i - 1] + 6 * x[i] - 4 * x[i + 1] + x[i + 2]);
				step = std::max(step, g[i].norm());
			}
			for (int i = 0; i < n; i++)
				x[i] -= par.learningRate * g[i];
			used++;
			if (step < par.stepTolerance)
				break;
		}
		for (int i = 0; i < n; i++) {
			moved = std::max(moved, (x[i] - path[i].position).norm());
			Point2d got = sm.GetPath()[i].position;
			c.check((got - x[i]).norm() <= 1e-6 + 2 * par.learningRate * par.stepTolerance, "pose ", i, " is (", got.x(), ",", got.y(), "), gradient descent gives (", x[i].x(), ",", x[i].y(), ") from (", path[i].x(), ",", path[i].y(), ")");
		}
		c.label("several iterations", used > 3);
		c.nontrivial(moved > 1e-4);
	}

	double V(double o, double v)
	{
		const double alpha = 20, dMax = 30;
		return o >= dMax ? 0 : alpha / (alpha + o) * (v / (o + v)) * (o - dMax) * (o - dMax) / (dMax * dMax);
	}

	/// One iteration is a step down the gradient of the weighted terms.
	void gradient(Src& s, Case& c)
	{
		World u = world(s, c, 4);
		Smoother sm;
		double kMax = s.oneOf<double>({ 0.5, 1.0, 0.1 });
		if (s.boolean())
			sm.Initialize(u.validator, u.gvd, 7.0f);
		sm.Initialize(u.validator, u.gvd, (float)kMax);
		// the parameters set below start from those of the smoother itself
		Smoother::Parameters par = sm.GetParameters();
		c.check(par.maxCurvature == (float)kMax, "the maximum curvature is not the requested one");
		par.maxIterations = 1;
		par.learningRate = s.oneOf<float>({ 0.01f, 0.1f });
		int mask = s.oneOf<int>({ 1, 2, 4, 8, 15 });
		par.smoothWeight = mask & 1 ? 0.4f : 0.f;
		par.curvatureWeight = mask & 2 ? 0.4f : 0.f;
		par.collisionWeight = mask & 4 ? 0.5f : 0.f;
		par.voronoiWeight = mask & 8 ? 0.3f : 0.f;
		par.pathWeight = s.boolean() ? 0.7f : 0.f; // nothing to pull at the start
		par.collisionRatio = s.oneOf<float>({ 0.2f, 1.f });
		sm.SetParameters(par);
		const double unsafe = u.validator->minSafeRadius * (1.0 + par.collisionRatio);
		int n = s.chance(1, 20) ? s.range(25, 250) : s.range(5, 25);
		auto path = wavy(s, u, n, s.oneOf<double>({ 0.3, 0.6, 1.0 }), s.oneOf<double>({ 0.4, 0.1, 1.2, 2.9 }));
		auto cs = cusps(s, n);
		auto opt = optimised(n, cs);
		sm.Smooth(path, cs);
		std::vector<Point2d> x;
		for (auto& p : path)
			x.push_back(p.position);
		auto kappa = [&](int i) {
			Point2d a = x[i] - x[i - 1], b = x[i + 1] - x[i];
			return std::acos(std::min(1.0, std::max(-1.0, a.normalized().dot(b.normalized())))) / a.norm();
		};
		std::vector<Point2d> ob(n), ve(n);
		std::vector<char> hasO(n, 0), hasV(n, 0);
		for (int i = 0; i < n; i++) {
			auto cell = u.map->WorldPositionToGridCell(x[i]);
			if (!cell.IsValid() || !u.gvd->GetNearestObstacleCell(cell).IsValid())
				continue;
			hasO[i] = 1;
			ob[i] = u.map->GridCellToWorldPosition(u.gvd->GetNearestObstacleCell(cell));
			if (u.gvd->GetNearestVoronoiEdgeCell(cell).IsValid()) {
				hasV[i] = 1;
				ve[i] = u.map->GridCellToWorldPosition(u.gvd->GetNearestVoronoiEdgeCell(cell));
			}
			// not differentiable
			double o = (x[i] - ob[i]).norm();
			if (o < 0.05 || (mask & 4 && std::abs(o - unsafe) < 1e-3))
				throw Discard();
		}
		int bends = 0, pushed = 0;
		for (int i = 1; i < n - 1; i++) {
			double k = kappa(i);
			if (mask & 2 && opt[i] && (std::abs(k - kMax) < 1e-3 || k * (x[i] - x[i - 1]).norm() > 3.0))
				throw Discard();
			bends += opt[i] && k > kMax && mask & 2;
			pushed += opt[i] && hasO[i] && mask & 4 && (x[i] - ob[i]).norm() < unsafe;
		}
		// every term that contains point j, as a function of its position
		auto energy = [&](int j) {
			double e = 0;
			if (opt[j]) {
				for (int i = j - 1; i <= j + 1; i++)
					e += 0.5 * par.smoothWeight * (x[i - 1] - 2 * x[i] + x[i + 1]).squaredNorm();
				if (hasO[j]) {
					double o = (x[j] - ob[j]).norm();
					if (o < unsafe)
						e += 0.5 * par.collisionWeight * (o - unsafe) * (o - unsafe);
					if (hasV[j] && (path[j].position - ve[j]).norm() > 0)
						e += par.voronoiWeight * V(o, (x[j] - ve[j]).norm());
				}
			}
			for (int i = j - 1; i <= j + 1; i++)
				if (i >= 1 && i < n - 1 && opt[i]) {
					double k = kappa(i);
					if (k > par.maxCurvature)
						e += 0.5 * par.curvatureWeight * (k - par.maxCurvature) * (k - par.maxCurvature);
				}
			return e;
		};
		c << n << " poses, terms " << mask << ", bends " << bends;
		const double h = 1e-5;
		for (int j = 0; j < n; j++) {
			Point2d grad;
			for (int d = 0; d < 2; d++) {
				Point2d keep = x[j];
				x[j][d] = keep[d] + h;
				double up = energy(j);
				x[j][d] = keep[d] - h;
				double down = energy(j);
				x[j] = keep;
				grad[d] = (up - down) / (2 * h);
			}
			Point2d got = (path[j].position - sm.GetPath()[j].position) / par.learningRate;
			c.check((got - grad).norm() <= 2e-3 * (1e-1 + grad.norm()), "pose ", j, " moves along (", got.x(), ",", got.y(), "), the gradient is (", grad.x(), ",", grad.y(), ")");
		}
		c.label("bends", bends > 0);
		c.label("close to an obstacle", pushed > 0);
		c.label("Voronoi", std::count(hasV.begin(), hasV.end(), 1) > 0 && mask & 8);
		c.nontrivial(bends > 0 || pushed > 0 || mask & 9);
	}

	void straight(Src& s, Case& c)
	{
		World u = world(s, c, 0);
		Smoother sm;
		sm.Initialize(u.validator, u.gvd, 0.5f);
		Smoother::Parameters par = sm.GetParameters();
		par.maxIterations = s.range(1, 200);
		sm.SetParameters(par);
		int n = s.range(5, 20);
		auto path = wavy(s, u, n, 0.2, 0.0);
		double th = s.uniform(-3, 3);
		for (int i = 0; i < n; i++)
			path[i].position = path[0].position + 0.2 * i * Point2d(std::cos(th), std::sin(th));
		bool valid = true;
		for (auto& p : path)
			valid = valid && u.validator->IsStateValid(p);
		auto st = sm.Smooth(path);
		for (int i = 0; i < n; i++)
			c.check((sm.GetPath()[i].position - path[i].position).norm() <= 1e-6, "pose ", i, " of a straight path on an empty map is moved by ", (sm.GetPath()[i].position - path[i].position).norm());
		c.check((st >= 0) == valid, "a straight path that is ", valid ? "" : "not ", "inside an empty map has the status ", (int)st);
		c << n << " poses";
		c.nontrivial(valid);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C25";
	p.rule = "(keeps) wavy paths of 0 to 40 (some up to 400) poses, evenly spaced or not, with random cusps on maps with up to three obstacles, random weights and 0 to 150 iterations, one smoother used for several paths; (linear) gradient descent on the distance and smoothness terms on empty maps against a reference; (gradient) one iteration of each term and of all terms against the numerical gradient of the documented terms; (straight) straight paths on empty maps. Non-trivial: more than three poses moved; a displacement above 1e-4; an active term; a valid path.";
	p.assumptions = { "headings are not claimed (they are not updated by the smoother)", "cases within 1e-3 of the kinks of the terms (curvature and safety limits) and with reversals of more than 3 rad are not judged against the numerical gradient", "consecutive poses are distinct", "obstacles and edges attract or repel through the positions of their cells as given by the map" };
	p.laws = {
		{ "keeps", 2500, keeps },
		{ "linear", 3000, linear },
		{ "gradient", 6000, gradient },
		{ "straight", 600, straight },
	};
	return p;
}
