// C26: the Python interface gives the results of the library.
// python: interfaces/python/src
#include <set>
#include <pybind11/embed.h>
#include <pybind11/functional.h>
#include <pybind11/stl.h>

#include "algo/a_star_n2.h"
#include "algo/hybrid_a_star.h"
#include "grid_gen.h"
#include "map_gen.h"
#include "path_gen.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_free.h"
#include "state_validator/state_validator_occupancy_map.h"

namespace py = pybind11;
using namespace Planner;
using namespace pbt;
using mapgen::RC;

extern "C" PyObject* PyInit_pyplanning();

namespace {
	const char* classes = R"py(
import pyplanning as nav
class Map(nav.OccupancyMap):
    def __init__(self, resolution, cells):
        nav.OccupancyMap.__init__(self, resolution)
        self.cells = cells
        self.updates = 0
    def IsOccupied(self, cell):
        return (cell.row, cell.col) in self.cells
    def Update(self):
        self.updates += 1
class Heuristic(nav.AStarHeuristicN2):
    def __init__(self, weight):
        nav.AStarHeuristicN2.__init__(self)
        self.weight = weight
        self.goal = None
    def SetGoal(self, goal):
        self.goal = (goal.row, goal.col)
    def GetHeuristicValue(self, state):
        return self.weight * max(abs(state.row - self.goal[0]), abs(state.col - self.goal[1]))
class Propagator(nav.AStarStatePropagatorN2):
    def __init__(self, edges):
        nav.AStarStatePropagatorN2.__init__(self)
        self.edges = edges
    def GetNeighborStates(self, cell):
        return [(nav.GridCellPosition(r, c), nav.NullAction(), w) for r, c, w in self.edges.get((cell.row, cell.col), [])]
class Validator(nav.StateValidatorSE2Base):
    def __init__(self, space, limit):
        nav.StateValidatorSE2Base.__init__(self, space)
        self.limit = limit
    def IsStateValid(self, state):
        return abs(state.x()) <= self.limit
    def IsPathValid(self, path, last):
        return path.get_length() <= self.limit
class Line(nav.PathSE2Base):
    def __init__(self, speed):
        nav.PathSE2Base.__init__(self)
        self.speed = speed
        self.end = 1.0
    def Interpolate(self, ratio):
        return nav.Pose2d(self.speed * ratio * self.end, 0.0, 0.0)
    def Truncate(self, ratio):
        self.end *= ratio
class Connection(nav.PathConnectionSE2Base):
    def __init__(self):
        nav.PathConnectionSE2Base.__init__(self)
        self.calls = []
    def Connect(self, a, b):
        self.calls.append((a.x(), b.x()))
        return nav.PathSE2(b, a)
class Dots(nav.Shape):
    def __init__(self, dots):
        nav.Shape.__init__(self)
        self.dots = dots
    def GetGridCellsPosition(self, map, pose, cells):
        for x, y in self.dots:
            cells.append(map.world_position_to_grid_cell(nav.Point2d(pose.x() + x, pose.y() + y), True))
    def GetVerticesPosition(self, pose, points):
        for x, y in self.dots:
            points.append(nav.Point2d(pose.x() + x, pose.y() + y))
class PlannerN2(nav.PathPlannerN2Base):
    def SearchPath(self):
        return nav.Status.SUCCESS
    def GetPath(self):
        return [nav.GridCellPosition(3, 4)]
class PlannerSE2(nav.PathPlannerSE2Base):
    def SearchPath(self):
        return nav.Status.FAILURE
    def GetPath(self):
        return [nav.Pose2d(1.0, 2.0, 0.5)]
def euclid(k):
    return lambda a, b: k * ((a.row - b.row) ** 2 + (a.col - b.col) ** 2) ** 0.5
)py";

	struct Py {
		py::module_ nav;
		py::dict own;
	};
	Py& python()
	{
		static Py* p = nullptr;
		if (!p) {
			PyImport_AppendInittab("pyplanning", &PyInit_pyplanning);
			PyConfig cfg;
			PyConfig_InitIsolatedConfig(&cfg);
			cfg.site_import = 0;
			cfg.install_signal_handlers = 0;
			Py_InitializeFromConfig(&cfg);
			PyConfig_Clear(&cfg);
			p = new Py;
			p->nav = py::module_::import("pyplanning");
			p->own["__builtins__"] = py::module_::import("builtins");
			py::exec(classes, p->own);
		}
		return *p;
	}
	py::object nav(const char* name) { return python().nav.attr(name); }

	py::object pyPose(const Pose2d& p) { return nav("Pose2d")(p.x(), p.y(), p.theta); }
	py::object pyPoint(const Point2d& p) { return nav("Point2d")(p.x(), p.y()); }
	py::object pyCell(const GridCellPosition& g) { return nav("GridCellPosition")(g.row, g.col); }

	bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
	bool same(const Point2d& a, const Point2d& b) { return same(a.x(), b.x()) && same(a.y(), b.y()); }
	bool same(const Pose2d& a, const Pose2d& b) { return same(a.position, b.position) && same(a.theta, b.theta); }
	Point2d point(const py::handle& o) { return Point2d(o.attr("x")().cast<double>(), o.attr("y")().cast<double>()); }
	Pose2d pose(const py::handle& o)
	{
		Pose2d p;
		p.position = Point2d(o.attr("x")().cast<double>(), o.attr("y")().cast<double>());
		p.theta = o.attr("theta").cast<double>();
		return p;
	}
	GridCellPosition cell(const py::handle& o) { return GridCellPosition(o.attr("row").cast<int>(), o.attr("col").cast<int>()); }
	std::string str(const Pose2d& p) { return "(" + std::to_string(p.x()) + "," + std::to_string(p.y()) + "," + std::to_string(p.theta) + ")"; }
	std::string str(const GridCellPosition& p) { return "(" + std::to_string(p.row) + "," + std::to_string(p.col) + ")"; }

	Pose2d rawPose(Src& s) { return Pose2d(s.signedMag(50), s.signedMag(50), s.boolean() ? s.angle() : s.signedMag(20)); }

	void geometry(Src& s, Case& c)
	{
		python();
		Pose2d a = rawPose(s), b = s.chance(1, 6) ? a : rawPose(s);
		double th = s.signedMag(20);
		c << str(a) << " " << str(b);
		py::object pa = pyPose(a), pb = pyPose(b);
		c.check(same(pose(pa), a) && same(pose(pb), b), "a pose made in Python is ", str(pose(pa)), " instead of ", str(a));
		c.check(same(point(pa.attr("position")), a.position), "position of a pose");
		Pose2d viaPoint(a.position, th);
		c.check(same(pose(nav("Pose2d")(pyPoint(a.position), th)), viaPoint), "a pose made of a point is not the one of the library");
		c.check(same(pose(pa + pb), a + b), "a + b is ", str(pose(pa + pb)), " instead of ", str(a + b));
		c.check(same(pose(pa - pb), a - b), "a - b is ", str(pose(pa - pb)), " instead of ", str(a - b));
		c.check(pa.equal(pb) == (a == b) && pa.not_equal(pb) == (a != b), "comparison of poses");
		py::object qa = pyPoint(a.position), qb = pyPoint(b.position);
		c.check(same(point(qa), a.position), "a point made in Python");
		c.check(same(point(qa + qb), a.position + b.position) && same(point(qa - qb), a.position - b.position), "sum or difference of points");
		c.check(qa.equal(qb) == (a.position == b.position) && qa.not_equal(qb) == (a.position != b.position), "comparison of points");
		// attributes are written through
		pa.attr("theta") = b.theta;
		pa.attr("position") = qb;
		Pose2d& in = pa.cast<Pose2d&>();
		c.check(same(in.position, b.position) && same(in.theta, b.theta), "writing the attributes of a pose gives ", str(in));
		int r = s.range(-5, 50), k = s.range(-5, 50);
		py::object g = nav("GridCellPosition")(r, k), g0 = nav("GridCellPosition")();
		c.check(cell(g) == GridCellPosition(r, k) && cell(g0) == GridCellPosition(), "cells made in Python");
		std::string repr = py::repr(g).cast<std::string>();
		c.check(repr.find(std::to_string(r)) != std::string::npos && repr.find(std::to_string(k)) != std::string::npos, "representation ", repr);
		g.attr("row") = k;
		g.attr("col") = r;
		c.check(g.cast<GridCellPosition&>() == GridCellPosition(k, r), "writing the attributes of a cell");
		c.nontrivial(!(a == b));
	}

	void space(Src& s, Case& c)
	{
		python();
		Pose2d lo(s.signedMag(20), s.signedMag(20), s.uniform(-M_PI, 0)), hi(lo.x() + s.real(0, 10), lo.y() + s.real(0, 10), s.uniform(0, M_PI));
		py::object sp = s.boolean() ? nav("StateSpaceSE2")(pyPose(lo), pyPose(hi)) : nav("StateSpaceSE2")(py::make_tuple(pyPose(lo), pyPose(hi)));
		StateSpaceSE2 ref(lo, hi);
		c << str(lo) << " " << str(hi);
		py::list b(sp.attr("bounds"));
		c.check(b.size() == 2 && same(pose(b[0]), lo) && same(pose(b[1]), hi), "the bounds differ");
		for (int i = 0; i < 6; i++) {
			Pose2d p = s.boolean() ? Pose2d(lo.x() + s.real(-1, 2) * (hi.x() - lo.x()), lo.y() + s.real(-1, 2) * (hi.y() - lo.y()), s.angle()) : rawPose(s);
			bool inside = ref.ValidateBounds(p);
			py::object pp = pyPose(p);
			c.check(sp.attr("validate_bounds")(pp).cast<bool>() == inside, "validate_bounds");
			Pose2d q = p;
			ref.EnforceBounds(q);
			sp.attr("enforce_bounds")(pp);
			c.check(same(pose(pp), q), "enforce_bounds gives ", str(pose(pp)), " instead of ", str(q));
			c.nontrivial(!inside);
		}
		c.check(ref.ValidateBounds(pose(sp.attr("sample_uniform")())), "a sample is out of bounds");
		c.check(ref.ValidateBounds(pose(sp.attr("sample_gaussian")(pyPose(lo), nav("Pose2d")(1.0, 1.0, 0.5)))), "a sample is out of bounds");
	}

	template <typename E>
	std::string enumName(const py::handle& o) { return o.attr("name").cast<std::string>(); }
	std::string dirName(Direction d) { return d == Direction::Forward ? "FORWARD" : d == Direction::Backward ? "BACKWARD" : "NO_MOTION"; }

	void comparePath(Case& c, Src& s, const py::object& p, const PathSE2Base& ref)
	{
		c.check(same(pose(p.attr("get_initial_state")()), ref.GetInitialState()), "initial state");
		c.check(same(pose(p.attr("get_final_state")()), ref.GetFinalState()), "final state ", str(pose(p.attr("get_final_state")())), " instead of ", str(ref.GetFinalState()));
		c.check(same(p.attr("get_length")().cast<double>(), ref.GetLength()), "length");
		std::vector<double> ratios;
		for (int i = 0; i < 4; i++)
			ratios.push_back(s.real(0, 1));
		auto list = p.attr("interpolate")(ratios).cast<py::list>();
		c.check(list.size() == ratios.size(), "interpolating a list of ratios gives ", list.size(), " poses");
		for (size_t i = 0; i < ratios.size(); i++) {
			Pose2d want = ref.Interpolate(ratios[i]);
			c.check(same(pose(list[i]), want), "interpolation (list)");
			c.check(same(pose(p.attr("interpolate")(ratios[i])), want), "interpolation at ", ratios[i]);
		}
		if (auto* nh = dynamic_cast<const PathNonHolonomicSE2Base*>(&ref)) {
			for (double r : ratios)
				c.check(enumName<Direction>(p.attr("get_direction")(r)) == dirName(nh->GetDirection(r)), "direction at ", r);
			c.check(p.attr("get_cusp_point_ratios")().cast<std::set<double>>() == nh->GetCuspPointRatios(), "cusps");
		}
	}

	void paths(Src& s, Case& c)
	{
		python();
		Pose2d a = rawPose(s), b = rawPose(s);
		py::object p;
		Ref<PathSE2Base> ref;
		switch (s.range(0, 3)) {
		case 0:
			p = nav("PathSE2")(pyPose(a), pyPose(b));
			ref = makeRef<PathSE2>(a, b);
			break;
		case 1:
			p = nav("PathConnectionSE2")().attr("connect")(pyPose(a), pyPose(b));
			ref = PathConnectionSE2().Connect(a, b);
			c.check(py::type::of(p).is(nav("PathSE2")), "a straight connection is not a PathSE2");
			break;
		case 2: {
			double r = s.oneOf<double>({ 1.0, 2.5 }), sw = s.oneOf<double>({ 0.0, 3.0 }), rev = s.oneOf<double>({ 1.0, 4.0 }), fwd = s.oneOf<double>({ 1.0, 0.5 });
			p = nav("PathConnectionReedsShepp")(r, sw, rev, fwd).attr("connect")(pyPose(a), pyPose(b));
			ref = PathConnectionReedsShepp(r, sw, rev, fwd).Connect(a, b);
			c.check(py::isinstance(p, nav("PathReedsShepp")), "a Reeds-Shepp connection is not a PathReedsShepp");
			c.check(same(p.attr("min_turning_radius").cast<double>(), r), "turning radius");
			break;
		}
		default: {
			double wb = s.uniform(0.5, 4), off = s.uniform(0, 2), st = s.signedMag(0.7), len = s.uniform(0, 5);
			Direction d = s.boolean() ? Direction::Forward : Direction::Backward;
			py::object model = nav("KinematicBicycleModel")(wb, off);
			p = nav("PathConstantSteer")(model, pyPose(a), st, len, nav("Direction").attr(dirName(d).c_str()));
			ref = makeRef<PathConstantSteer>(makeRef<KinematicBicycleModel>(wb, off), a, st, len, d);
			c.check(same(p.attr("steering").cast<double>(), st), "steering angle");
		}
		}
		c << py::str(py::type::of(p)).cast<std::string>() << " " << str(a) << " " << str(b);
		comparePath(c, s, p, *ref);
		int cuts = s.range(0, 2);
		for (int i = 0; i < cuts; i++) {
			double r = s.real(0, 1);
			p.attr("truncate")(r);
			ref->Truncate(r);
			comparePath(c, s, p, *ref);
		}
		c.label("truncated", cuts > 0);
		// the path survives without its Python creators
		auto kept = p.cast<Ref<PathSE2Base>>();
		p = py::none();
		c.check(same(kept->GetFinalState(), ref->GetFinalState()), "the path is lost with its Python name");
		c.nontrivial(ref->GetLength() > 0);
	}

	py::object pyShape(Src& s, int depth, Ref<Shape>& ref)
	{
		switch (s.range(0, depth < 2 ? 4 : 3)) {
		case 0: {
			double dx = s.uniform(0.1, 4), dy = s.uniform(0.1, 4);
			ref = makeRef<RectangleShape>(dx, dy);
			return nav("RectangleShape")(dx, dy);
		}
		case 1: {
			double r = s.uniform(0.1, 2);
			int n = s.range(3, 9);
			ref = makeRef<RegularPolygonShape>(r, n);
			return nav("RegularPolygonShape")(r, n);
		}
		case 2: {
			double r = s.uniform(0.1, 2);
			int n = s.range(4, 12);
			ref = makeRef<CircleShape>(r, n);
			return nav("CircleShape")(r, n);
		}
		case 3: {
			std::vector<Point2d> g;
			py::list l;
			for (int i = s.range(1, 5); i > 0; i--) {
				g.push_back({ s.uniform(-2, 2), s.uniform(-2, 2) });
				l.append(pyPoint(g.back()));
			}
			ref = makeRef<PolygonShape>(g);
			return nav("PolygonShape")(l);
		}
		default: {
			auto comp = makeRef<CompositeShape>();
			py::object o = nav("CompositeShape")();
			for (int i = s.range(0, 3); i > 0; i--) {
				Ref<Shape> r;
				o.attr("add")(pyShape(s, depth + 1, r));
				comp->Add(r);
			}
			ref = comp;
			return o;
		}
		}
	}

	void compareMap(Case& c, Src& s, const py::object& m, OccupancyMap& ref)
	{
		c.check(m.attr("rows")().cast<int>() == ref.Rows() && m.attr("columns")().cast<int>() == ref.Columns(), "size");
		c.check(same(point(m.attr("get_position")()), ref.GetPosition()), "position");
		for (int i = 0; i < 6; i++) {
			GridCellPosition g(s.range(-2, ref.Rows() + 1), s.range(-2, ref.Columns() + 1));
			py::object pg = pyCell(g);
			c.check(same(point(m.attr("grid_cell_to_local_position")(pg)), ref.GridCellToLocalPosition(g)), "grid_cell_to_local_position");
			c.check(same(point(m.attr("grid_cell_to_world_position")(pg)), ref.GridCellToWorldPosition(g)), "grid_cell_to_world_position");
			bool in = ref.IsInsideMap(g);
			c.check(m.attr("is_inside_map")(pg).cast<bool>() == in, "is_inside_map of a cell");
			if (in) {
				c.check(m.attr("is_occupied")(pg).cast<bool>() == ref.IsOccupied(g), "is_occupied ", str(g));
				int v = ref.GetOccupancyValue(g);
				int v1 = m.attr("get_occupancy_value")(pg).cast<int>(), v2 = m.attr("get_occupancy_value")(g.row, g.col).cast<int>();
				c.check(v1 == v2 && (v1 >= 0) == (v >= 0), "get_occupancy_value is ", v1, " and ", v2, ", it is ", v, " in the library");
			}
			Point2d w = ref.GridCellToWorldPosition(g) + Point2d(s.uniform(-1, 1), s.uniform(-1, 1));
			py::object pw = pyPoint(w);
			bool bounded = s.boolean();
			c.check(cell(m.attr("world_position_to_grid_cell")(pw, bounded)) == ref.WorldPositionToGridCell(w, bounded), "world_position_to_grid_cell");
			c.check(cell(m.attr("local_position_to_grid_cell")(pw, bounded)) == ref.LocalPositionToGridCell(w, bounded), "local_position_to_grid_cell");
			c.check(same(point(m.attr("local_position_to_world_position")(pw)), ref.LocalPositionToWorldPosition(w)), "local_position_to_world_position");
			c.check(same(point(m.attr("world_position_to_local_position")(pw)), ref.WorldPositionToLocalPosition(w)), "world_position_to_local_position");
			c.check(m.attr("is_inside_map")(pw).cast<bool>() == ref.IsInsideMap(w), "is_inside_map of a point");
		}
	}

	void compareGvd(Case& c, Src& s, const py::object& g, const GVD& ref, OccupancyMap& map)
	{
		for (int i = 0; i < 8; i++) {
			int r = s.range(0, map.Rows() - 1), k = s.range(0, map.Columns() - 1);
			GridCellPosition x(r, k);
			py::object px = pyCell(x);
			c.check(same(g.attr("get_distance_to_nearest_obstacle")(r, k).cast<float>(), ref.GetDistanceToNearestObstacle(r, k)), "get_distance_to_nearest_obstacle ", str(x));
			c.check(same(g.attr("get_distance_to_nearest_obstacle")(px).cast<float>(), ref.GetDistanceToNearestObstacle(r, k)), "get_distance_to_nearest_obstacle of a cell ", str(x));
			c.check(same(g.attr("get_distance_to_nearest_voronoi_edge")(r, k).cast<float>(), ref.GetDistanceToNearestVoronoiEdge(r, k)), "get_distance_to_nearest_voronoi_edge ", str(x));
			c.check(same(g.attr("get_distance_to_nearest_voronoi_edge")(px).cast<float>(), ref.GetDistanceToNearestVoronoiEdge(r, k)), "get_distance_to_nearest_voronoi_edge of a cell ", str(x));
			c.check(same(g.attr("get_path_cost")(r, k).cast<float>(), ref.GetPathCost(r, k)), "get_path_cost ", str(x));
			c.check(same(g.attr("get_path_cost")(px).cast<float>(), ref.GetPathCost(r, k)), "get_path_cost of a cell ", str(x));
			Point2d w = map.GridCellToWorldPosition(x) + Point2d(s.uniform(-3, 3), s.uniform(-3, 3));
			auto one = [&](const char* name, bool in, float v) {
				auto t = g.attr(name)(pyPoint(w)).cast<std::tuple<bool, float>>();
				c.check(std::get<0>(t) == in, name, " of a position tells ", std::get<0>(t), " instead of ", in);
				c.check(!in || same(std::get<1>(t), v), name, " of a position is ", std::get<1>(t), " instead of ", v);
			};
			float v = 0;
			bool in = ref.GetDistanceToNearestObstacle(w, v);
			one("get_distance_to_nearest_obstacle", in, v);
			in = ref.GetDistanceToNearestVoronoiEdge(w, v);
			one("get_distance_to_nearest_voronoi_edge", in, v);
			in = ref.GetPathCost(w, v);
			one("get_path_cost", in, v);
			c.label("position outside the map", !in);
		}
	}

	void maps(Src& s, Case& c)
	{
		python();
		float res = s.oneOf<float>({ 0.5f, 1.0f, 0.25f });
		float w = s.uniform(3, 10), h = s.uniform(3, 10);
		py::object m = nav("ObstacleListOccupancyMap")(res);
		auto ref = makeRef<ObstacleListOccupancyMap>(res);
		py::object v, sp;
		Ref<StateValidatorOccupancyMap> rv;
		bool withValidator = s.boolean();
		Point2d origin(s.boolean() ? 0 : s.signedMag(10), s.boolean() ? 0 : s.signedMag(10));
		if (withValidator) {
			Pose2d lo(-w / 2, -h / 2, -M_PI), hi(w / 2, h / 2, M_PI);
			rv = makeRef<StateValidatorOccupancyMap>(makeRef<StateSpaceSE2>(lo, hi), ref);
			v = nav("StateValidatorOccupancyMap")(nav("StateSpaceSE2")(pyPose(lo), pyPose(hi)), m);
			float safe = s.oneOf<float>({ 0.3f, 1.0f }), step = s.oneOf<float>({ 0.1f, 0.5f });
			v.attr("min_safe_radius") = safe;
			v.attr("min_path_interpolation_distance") = step;
			rv->minSafeRadius = safe;
			rv->minPathInterpolationDistance = step;
			c.check(v.attr("get_occupancy_map")().is(m), "the validator has another map");
			c.check(same(pose(py::list(v.attr("state_space").attr("bounds"))[0]), lo), "the validator has another state space");
		} else {
			m.attr("initialize_size")(w, h);
			ref->InitializeSize(w, h);
		}
		m.attr("set_position")(pyPoint(origin));
		ref->SetPosition(origin);
		py::object g = py::none();
		Ref<GVD> rg;
		auto makeGvd = [&] {
			g = nav("GVD")(m);
			rg = makeRef<GVD>(ref);
		};
		if (s.boolean())
			makeGvd();
		struct Ob {
			py::object o;
			Ref<Obstacle> r;
		};
		std::vector<Ob> obs;
		int steps = s.range(1, 6), changes = 0;
		for (int i = 0; i < steps; i++) {
			switch (s.range(0, 3)) {
			case 0:
			case 1: {
				Ob o;
				Ref<Shape> rs;
				o.o = nav("Obstacle")();
				o.r = makeRef<Obstacle>();
				o.o.attr("set_shape")(pyShape(s, 0, rs));
				o.r->SetShape(rs);
				Pose2d p(origin.x() + s.uniform(-0.6, 0.6) * w, origin.y() + s.uniform(-0.6, 0.6) * h, s.angle());
				o.o.attr("set_pose")(pyPose(p));
				o.r->SetPose(p);
				// outlines
				py::list lw = o.o.attr("get_boundary_world_position")(), lc = o.o.attr("get_boundary_grid_cell_position")(m);
				auto rw = o.r->GetBoundaryWorldPosition();
				auto rc = o.r->GetBoundaryGridCellPosition(*ref);
				c.check(lw.size() == rw.size() && lc.size() == rc.size(), "the outline has ", lw.size(), " points and ", lc.size(), " cells instead of ", rw.size(), " and ", rc.size());
				for (size_t k = 0; k < rw.size(); k++)
					c.check(same(point(lw[k]), rw[k]), "point ", k, " of the outline");
				for (size_t k = 0; k < rc.size(); k++)
					c.check(cell(lc[k]) == rc[k], "cell ", k, " of the outline");
				bool r1 = m.attr("add_obstacle")(o.o).cast<bool>(), r2 = ref->AddObstacle(o.r);
				c.check(r1 == r2, "add_obstacle tells ", r1);
				obs.push_back(o);
				changes++;
				break;
			}
			case 2:
				if (!obs.empty()) {
					size_t k = s.draw(obs.size() - 1);
					bool r1 = m.attr("remove_obstacle")(obs[k].o).cast<bool>(), r2 = ref->RemoveObstacle(obs[k].r);
					c.check(r1 == r2, "remove_obstacle tells ", r1);
					changes++;
				}
				break;
			default:
				if (!rg)
					makeGvd();
			}
			c.check(m.attr("get_num_obstacles")().cast<int>() == ref->GetNumObstacles(), "number of obstacles");
			if (s.boolean())
				obs.clear(); // the map keeps its obstacles
		}
		if (rg) {
			g.attr("update")();
			rg->Update();
		} else {
			m.attr("update")();
			ref->Update();
		}
		compareMap(c, s, m, *ref);
		py::object dm = m.attr("get_obstacle_map")();
		for (int i = 0; i < 4; i++) {
			int r = s.range(0, ref->Rows() - 1), k = s.range(0, ref->Columns() - 1);
			c.check(same(dm.attr("get_distance_to_nearest_obstacle")(r, k).cast<float>(), ref->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(r, k)), "distance of the obstacle map");
			c.check(same(dm.attr("get_distance_to_nearest_obstacle")(nav("GridCellPosition")(r, k)).cast<float>(), ref->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(r, k)), "distance of the obstacle map");
		}
		if (rg)
			compareGvd(c, s, g, *rg, *ref);
		if (withValidator) {
			for (int i = 0; i < 5; i++) {
				Pose2d a(origin.x() + s.uniform(-0.6, 0.6) * w, origin.y() + s.uniform(-0.6, 0.6) * h, s.angle()), b(origin.x() + s.uniform(-0.6, 0.6) * w, origin.y() + s.uniform(-0.6, 0.6) * h, s.angle());
				c.check(v.attr("is_state_valid")(pyPose(a)).cast<bool>() == rv->IsStateValid(a), "is_state_valid ", str(a));
				PathSE2 rp(a, b);
				bool ok = rv->IsPathValid(rp);
				py::object pp = nav("PathSE2")(pyPose(a), pyPose(b));
				c.check(v.attr("is_path_valid")(pp).cast<bool>() == ok, "is_path_valid ", str(a), " ", str(b));
				c.label(ok ? "valid path" : "invalid path");
			}
		}
		c << w << "x" << h << " with " << ref->GetNumObstacles() << " obstacles";
		c.nontrivial(changes > 1);
	}

	void grids(Src& s, Case& c)
	{
		python();
		int R = s.size(2, 9), C = s.size(2, 9);
		std::vector<std::vector<char>> occ(R, std::vector<char>(C, 0));
		gridgen::fill(s, occ);
		auto ref = makeRef<gridgen::CellMap>(R, C);
		ref->occ = occ;
		py::set cells;
		for (int r = 0; r < R; r++)
			for (int k = 0; k < C; k++)
				if (occ[r][k])
					cells.add(py::make_tuple(r, k));
		py::object m = python().own["Map"](1.0f, cells);
		m.attr("initialize_size")((float)R, (float)C);
		double k = s.oneOf<double>({ 1.0, 2.0 }), hk = s.oneOf<double>({ 1.0, 0.5, 0.0 }) * k;
		auto fn = [](double k) { return [k](const GridCellPosition& a, const GridCellPosition& b) { return k * std::pow(std::pow(a.row - b.row, 2) + std::pow(a.col - b.col, 2), 0.5); }; };
		py::object cost = python().own["euclid"](k), heur = python().own["euclid"](hk);
		py::object prop = nav("AStarStatePropagatorFcnN2")(m, cost);
		auto rprop = makeRef<AStarStatePropagatorFcnN2>(ref, fn(k));
		GridCellPosition a(s.range(0, R - 1), s.range(0, C - 1)), b(s.range(0, R - 1), s.range(0, C - 1));
		c << R << "x" << C << " " << str(a) << " -> " << str(b);
		auto compare = [&](const py::object& p, PathPlannerN2Base& rp) {
			std::string st = enumName<Status>(p.attr("search_path")());
			Status rs = rp.SearchPath();
			c.check(st == (rs >= 0 ? "SUCCESS" : "FAILURE"), "the search returns ", st, " instead of ", (int)rs);
			py::list l = p.attr("get_path")();
			auto rl = rp.GetPath();
			c.check(l.size() == rl.size(), "the path has ", l.size(), " cells instead of ", rl.size());
			for (size_t i = 0; i < rl.size(); i++)
				c.check(cell(l[i]) == rl[i], "cell ", i, " of the path");
			c.nontrivial(rl.size() > 2);
		};
		auto cellSet = [](const py::handle& o) {
			std::set<RC> out;
			for (auto x : o)
				out.insert({ cell(x).row, cell(x).col });
			return out;
		};
		if (s.boolean()) {
			py::object p = nav("AStarN2")();
			AStarN2 rp;
			c.check(p.attr("initialize")(prop, nav("AStarHeuristicFcnN2")(heur)).cast<bool>(), "initialize fails");
			rp.Initialize(rprop, makeRef<AStarHeuristicFcnN2>(fn(hk)));
			prop = py::none();
			p.attr("set_init_state")(pyCell(a));
			p.attr("set_goal_state")(pyCell(b));
			rp.SetInitState(a);
			rp.SetGoalState(b);
			compare(p, rp);
			c.check(same(p.attr("get_optimal_cost")().cast<double>(), rp.GetOptimalCost()), "optimal cost");
			std::set<RC> want;
			for (auto& x : rp.GetExploredStates())
				want.insert({ x.row, x.col });
			c.check(cellSet(p.attr("get_explored_states")()) == want, "explored states");
			c.label("A*");
		} else {
			py::object p = nav("BidirectionalAStarN2")();
			BidirectionalAStarN2 rp;
			py::object h1 = nav("AStarHeuristicFcnN2")(heur), h2 = nav("AStarHeuristicFcnN2")(heur);
			py::tuple pair = nav("BidirectionalAStarN2").attr("get_average_heuristic_pair")(h1, h2);
			auto [rf, rr] = BidirectionalAStarN2::GetAverageHeuristicPair(makeRef<AStarHeuristicFcnN2>(fn(hk)), makeRef<AStarHeuristicFcnN2>(fn(hk)));
			py::object prop2 = nav("AStarStatePropagatorFcnN2")(m, cost);
			c.check(p.attr("initialize")(prop, prop2, pair[0], pair[1]).cast<bool>(), "initialize fails");
			rp.Initialize(rprop, makeRef<AStarStatePropagatorFcnN2>(ref, fn(k)), rf, rr);
			p.attr("set_init_state")(pyCell(a));
			p.attr("set_goal_state")(pyCell(b));
			rp.SetInitState(a);
			rp.SetGoalState(b);
			compare(p, rp);
			c.check(same(p.attr("get_optimal_cost")().cast<double>(), rp.GetOptimalCost()), "optimal cost");
			py::tuple ex = p.attr("get_explored_states")();
			auto [ef, er] = rp.GetExploredStates();
			std::set<RC> wf, wr;
			for (auto& x : ef)
				wf.insert({ x.first.row, x.first.col });
			for (auto& x : er)
				wr.insert({ x.first.row, x.first.col });
			c.check(cellSet(ex[0]) == wf && cellSet(ex[1]) == wr, "explored states");
			c.label("bidirectional");
		}
	}

	void subclasses(Src& s, Case& c)
	{
		python();
		auto& own = python().own;
		// maps
		{
			py::set cells;
			RC occ { s.range(0, 4), s.range(0, 4) };
			cells.add(py::make_tuple(occ.first, occ.second));
			py::object m = own["Map"](1.0f, cells);
			m.attr("initialize_size")(5.0f, 5.0f);
			auto ref = m.cast<Ref<OccupancyMap>>();
			GridCellPosition g(s.range(0, 4), s.range(0, 4));
			c.check(ref->IsOccupied(g) == (RC { g.row, g.col } == occ), "IsOccupied of a Python map");
			int n = s.range(0, 3);
			for (int i = 0; i < n; i++)
				ref->Update();
			c.check(m.attr("updates").cast<int>() == n, "Update of a Python map is called ", m.attr("updates").cast<int>(), " times");
		}
		// validators
		{
			double limit = s.uniform(0, 5);
			py::object sp = nav("StateSpaceSE2")(nav("Pose2d")(-9.0, -9.0, -3.0), nav("Pose2d")(9.0, 9.0, 3.0));
			py::object v = own["Validator"](sp, limit);
			auto ref = v.cast<Ref<StateValidatorSE2Base>>();
			Pose2d a(s.uniform(-6, 6), 0, 0), b(s.uniform(-6, 6), 0, 0);
			c.check(ref->IsStateValid(a) == (std::abs(a.x()) <= limit), "IsStateValid of a Python validator");
			PathSE2 p(a, b);
			bool want = p.GetLength() <= limit;
			float last = 0;
			c.check(ref->IsPathValid(p) == want && ref->IsPathValid(p, &last) == want, "IsPathValid of a Python validator");
			c.check(v.attr("is_path_valid")(nav("PathSE2")(pyPose(a), pyPose(b))).cast<bool>() == want, "is_path_valid of a Python validator");
			// a free validator only knows the bounds
			py::object f = nav("StateValidatorSE2Free")(sp);
			StateValidatorSE2Free rf(makeRef<StateSpaceSE2>(Pose2d(-9, -9, -3), Pose2d(9, 9, 3)));
			Pose2d q = rawPose(s);
			c.check(f.attr("is_state_valid")(pyPose(q)).cast<bool>() == rf.IsStateValid(q), "is_state_valid of the free validator");
			c.check(f.attr("is_path_valid")(nav("PathSE2")(pyPose(a), pyPose(q))).cast<bool>() == rf.IsPathValid(PathSE2(a, q)), "is_path_valid of the free validator");
		}
		// paths and connections
		{
			double speed = s.uniform(-3, 3), r = s.real(0, 1), cut = s.real(0, 1);
			py::object l = own["Line"](speed);
			auto ref = l.cast<Ref<PathSE2Base>>();
			c.check(same(ref->Interpolate(r).x(), speed * r), "Interpolate of a Python path");
			ref->Truncate(cut);
			c.check(same(ref->Interpolate(r).x(), speed * r * cut), "Truncate of a Python path");
			c.check(same(ref->Interpolate(std::vector<double> { r })[0].x(), speed * r * cut), "Interpolate of a Python path (list)");
			py::object con = own["Connection"]();
			auto rc = con.cast<Ref<PathConnectionSE2Base>>();
			Pose2d a = rawPose(s), b = rawPose(s);
			auto p = rc->Connect(a, b);
			c.check(p && same(p->GetInitialState(), b) && same(p->GetFinalState(), a), "Connect of a Python connection");
		}
		// shapes
		{
			py::list dots;
			std::vector<Point2d> d;
			for (int i = s.range(1, 4); i > 0; i--) {
				d.push_back({ s.uniform(-1, 1), s.uniform(-1, 1) });
				dots.append(py::make_tuple(d.back().x(), d.back().y()));
			}
			py::object shape = own["Dots"](dots), o = nav("Obstacle")(), m = nav("ObstacleListOccupancyMap")(0.5f);
			m.attr("initialize_size")(8.0f, 8.0f);
			o.attr("set_shape")(shape);
			Pose2d at(s.uniform(-2, 2), s.uniform(-2, 2), 0);
			o.attr("set_pose")(pyPose(at));
			auto pts = o.cast<Ref<Obstacle>>()->GetBoundaryWorldPosition();
			c.check(pts.size() == d.size(), "a Python shape of ", d.size(), " vertices has ", pts.size());
			m.attr("add_obstacle")(o);
			auto& map = *m.cast<Ref<ObstacleListOccupancyMap>>();
			for (size_t i = 0; i < d.size(); i++) {
				c.check(same(pts[i], Point2d(at.x() + d[i].x(), at.y() + d[i].y())), "vertex ", i, " of a Python shape");
				c.check(map.IsOccupied(map.WorldPositionToGridCell(pts[i])), "cell of vertex ", i, " of a Python shape is free");
			}
		}
		// heuristics and propagators: a random graph on cells
		{
			int n = s.range(2, 7);
			py::dict edges;
			std::vector<std::vector<double>> w(n, std::vector<double>(n, 1e300));
			for (int i = 0; i < n; i++) {
				py::list l;
				for (int k = 0; k < n; k++)
					if (k != i && s.boolean()) {
						w[i][k] = std::abs(i - k) * (1 + s.draw(4));
						l.append(py::make_tuple(k, 0, w[i][k]));
					}
				edges[py::make_tuple(i, 0)] = l;
			}
			py::object h = own["Heuristic"](s.oneOf<double>({ 1.0, 0.0 })), p = own["Propagator"](edges), algo = nav("AStarN2")();
			c.check(algo.attr("initialize")(p, h).cast<bool>(), "initialize fails");
			algo.attr("set_init_state")(nav("GridCellPosition")(0, 0));
			algo.attr("set_goal_state")(nav("GridCellPosition")(n - 1, 0));
			std::string st = enumName<Status>(algo.attr("search_path")());
			std::vector<double> best(n, 1e300);
			best[0] = 0;
			for (int k = 0; k < n; k++)
				for (int i = 0; i < n; i++)
					for (int j = 0; j < n; j++)
						if (best[i] + w[i][j] < best[j])
							best[j] = best[i] + w[i][j];
			c.check((st == "SUCCESS") == (best[n - 1] < 1e300), "a search over a Python graph returns ", st);
			if (st == "SUCCESS")
				c.check(std::abs(algo.attr("get_optimal_cost")().cast<double>() - best[n - 1]) < 1e-9, "a search over a Python graph costs ", algo.attr("get_optimal_cost")().cast<double>(), " instead of ", best[n - 1]);
			c.nontrivial(st == "SUCCESS");
		}
		// planners
		{
			py::object a = own["PlannerN2"](), b = own["PlannerSE2"]();
			auto* ra = a.cast<PathPlannerN2Base*>();
			auto* rb = b.cast<PathPlannerSE2Base*>();
			c.check(ra->SearchPath() == Status::Success && rb->SearchPath() == Status::Failure, "SearchPath of a Python planner");
			c.check(ra->GetPath().size() == 1 && ra->GetPath()[0] == GridCellPosition(3, 4), "GetPath of a Python planner");
			c.check(rb->GetPath().size() == 1 && same(rb->GetPath()[0], Pose2d(1, 2, 0.5)), "GetPath of a Python planner");
			GridCellPosition g(s.range(0, 9), s.range(0, 9));
			a.attr("set_init_state")(pyCell(g));
			a.attr("set_goal_state")(nav("GridCellPosition")(g.col, g.row));
			c.check(ra->GetInitState() == g && ra->GetGoalState() == GridCellPosition(g.col, g.row), "the ends of a planner");
		}
	}

	void hybrid(Src& s, Case& c)
	{
		python();
		double rad = s.oneOf<double>({ 1.0, 2.0 }), sw = s.oneOf<double>({ 0.0, 1.0 }), rev = s.oneOf<double>({ 1.0, 2.0 }), fwd = s.oneOf<double>({ 1.0, 0.5 }), vo = s.oneOf<double>({ 0.0, 1.5 }), spr = s.oneOf<double>({ 1.0, 0.7 }), an = s.oneOf<double>({ 0.3, 0.5 });
		unsigned num = s.oneOf<unsigned>({ 5, 3 });
		py::object params = nav("HybridAStarSearchParameters")(rad, sw, rev, fwd, vo, num, spr, an);
		auto checkParams = [&](const py::object& p, const char* what) {
			auto one = [&](const char* n, double v) { c.check(same(p.attr(n).cast<double>(), v), n, " ", what, " is ", p.attr(n).cast<double>(), " instead of ", v); };
			one("min_turning_radius", rad);
			one("direction_switching_cost", sw);
			one("reverse_cost_multiplier", rev);
			one("forward_cost_multiplier", fwd);
			one("voronoi_cost_multiplier", vo);
			one("num_generated_motion", num);
			one("spatial_resolution", spr);
			one("angular_resolution", an);
			one("wheelbase", HybridAStar::SearchParameters().wheelbase);
		};
		checkParams(params, "of the parameters");
		HybridAStar::SearchParameters def;
		py::object dp = nav("HybridAStarSearchParameters")();
		c.check(same(dp.attr("min_turning_radius").cast<double>(), def.minTurningRadius) && dp.attr("num_generated_motion").cast<unsigned>() == def.numGeneratedMotion, "default parameters");
		py::object algo = nav("HybridAStar")(params);
		checkParams(algo.attr("get_search_parameters")(), "of the planner");
		double w = s.uniform(6, 10), h = s.uniform(6, 10);
		{
			py::object m = nav("ObstacleListOccupancyMap")(0.5f);
			py::object v = nav("StateValidatorOccupancyMap")(nav("StateSpaceSE2")(nav("Pose2d")(-w / 2, -h / 2, -M_PI), nav("Pose2d")(w / 2, h / 2, M_PI)), m);
			v.attr("min_safe_radius") = 0.5f;
			for (int i = s.range(0, 2); i > 0; i--) {
				Ref<Shape> ref;
				py::object o = nav("Obstacle")();
				o.attr("set_shape")(pyShape(s, 2, ref));
				o.attr("set_pose")(nav("Pose2d")(s.uniform(-0.3, 0.3) * w, s.uniform(-0.3, 0.3) * h, s.angle()));
				m.attr("add_obstacle")(o);
			}
			c.check(algo.attr("initialize")(v).cast<bool>(), "initialize fails");
			// the planner keeps what it was given alive
		}
		py::object sp = algo.attr("smoother_parameters");
		sp = nav("HybridAStarSmootherParameters")(sp.attr("max_curvature").cast<float>());
		const char* fields[] = { "step_tolerance", "learning_rate", "path_weight", "smooth_weight", "voronoi_weight", "collision_weight", "curvature_weight", "collision_ratio" };
		std::vector<float> vals = { 1e-3f, 0.01f, 0.1f, 0.4f, 0.02f, 0.2f, 0.3f, 0.25f };
		for (size_t i = 0; i < vals.size(); i++) {
			vals[i] *= (float)s.oneOf<double>({ 1.0, 0.5 });
			sp.attr(fields[i]) = vals[i];
		}
		int iter = s.boolean() ? 20 : 0;
		sp.attr("max_iterations") = iter;
		algo.attr("smoother_parameters") = sp;
		auto& ref = algo.cast<HybridAStar&>();
		auto& rp = ref.GetSmootherParameters();
		c.check(rp.maxIterations == iter && rp.stepTolerance == vals[0] && rp.learningRate == vals[1] && rp.pathWeight == vals[2] && rp.smoothWeight == vals[3] && rp.voronoiWeight == vals[4] && rp.collisionWeight == vals[5] && rp.curvatureWeight == vals[6] && rp.collisionRatio == vals[7], "the smoother does not have the parameters it was given");
		algo.attr("path_interpolation") = 0.25f;
		c.check(ref.pathInterpolation == 0.25f, "path_interpolation");
		Pose2d a(s.uniform(-0.4, 0.4) * w, s.uniform(-0.4, 0.4) * h, s.angle()), b(s.uniform(-0.4, 0.4) * w, s.uniform(-0.4, 0.4) * h, s.angle());
		algo.attr("set_init_state")(pyPose(a));
		algo.attr("set_goal_state")(pyPose(b));
		c << str(a) << " -> " << str(b);
		std::string st = enumName<Status>(algo.attr("search_path")());
		auto path = ref.GetPath();
		py::object stats = algo.attr("get_stats")();
		c.check(enumName<Status>(stats.attr("graph_search_status")) == (ref.GetStats().graphSearchStatus >= 0 ? "SUCCESS" : "FAILURE"), "graph search status");
		c.check((st == "SUCCESS") == (ref.GetStats().graphSearchStatus >= 0), "status ", st);
		std::map<int, std::string> smooth { { Smoother::MaxIteration, "MAX_ITERATION" }, { Smoother::StepTolerance, "STEP_TOLERANCE" }, { Smoother::PathSize, "PATH_SIZE" }, { Smoother::Failure, "FAILURE" }, { Smoother::Collision, "COLLISION" } };
		std::set<int> values;
		for (auto& [value, name] : smooth) {
			int got = nav("SmoothingStatus").attr(name.c_str()).attr("__int__")().cast<int>();
			c.check(got == value && values.insert(got).second, "SmoothingStatus.", name, " is ", got);
		}
		c.check(enumName<int>(stats.attr("smoothing_status")) == smooth[ref.GetStats().smoothingStatus], "smoothing status");
		auto poses = [&](const char* name, const std::vector<Pose2d>& want) {
			py::list l = algo.attr(name)();
			c.check(l.size() == want.size(), name, " has ", l.size(), " poses instead of ", want.size());
			for (size_t i = 0; i < want.size(); i++)
				c.check(same(pose(l[i]), want[i]), name, ": pose ", i, " differs");
		};
		poses("get_path", path);
		poses("get_smoothed_path", ref.GetSmoothedPath());
		c.check(same(algo.attr("get_graph_search_optimal_cost")().cast<double>(), ref.GetGraphSearchOptimalCost()), "optimal cost");
		auto segs = ref.GetGraphSearchPath();
		py::list ps = algo.attr("get_graph_search_path")();
		c.check(ps.size() == segs.size(), "get_graph_search_path");
		for (size_t i = 0; i < segs.size(); i++)
			comparePath(c, s, ps[i], *segs[i]);
		py::object ex = algo.attr("get_graph_search_explored_path_set")();
		auto rex = ref.GetGraphSearchExploredPathSet();
		std::unordered_set<Ref<PathNonHolonomicSE2Base>> got;
		for (auto x : ex) {
			got.insert(x.cast<Ref<PathNonHolonomicSE2Base>>());
			x.attr("get_length")();
		}
		c.check(got == rex, "explored paths: ", got.size(), " instead of ", rex.size());
		c.label(st == "SUCCESS" ? "found" : "failed");
		auto value = [&](const char* type, const char* name) { return nav(type).attr(name).attr("__int__")().cast<int>(); };
		c.check(value("Status", "SUCCESS") == (int)Status::Success && value("Status", "FAILURE") == (int)Status::Failure, "values of Status");
		c.check(value("Steer", "LEFT") == (int)Steer::Left && value("Steer", "STRAIGHT") == (int)Steer::Straight && value("Steer", "RIGHT") == (int)Steer::Right, "values of Steer");
		c.check(value("Direction", "FORWARD") == (int)Direction::Forward && value("Direction", "BACKWARD") == (int)Direction::Backward && value("Direction", "NO_MOTION") == (int)Direction::NoMotion, "values of Direction");
		// results outlive the planner
		algo = py::none();
		if (!segs.empty())
			comparePath(c, s, ps[0], *segs[0]);
		c.nontrivial(path.size() > 2);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C26";
	p.rule = "the module is built from the interface's sources and called in an embedded interpreter; each call is repeated on the library and results must be identical. Inputs as in the checks of the library: random poses, paths, shapes, maps with changing obstacles, grids, planners, and classes implemented in Python. Non-trivial: different poses, a path of positive length, a map with at least two changes, a path of more than two cells or poses, a graph whose goal is reachable.";
	p.assumptions = { "objects implemented in Python are kept alive by Python while the library uses them" };
	p.laws = {
		{ "geometry", 4000, geometry, false, 60, 15 },
		{ "space", 1500, space, false, 60, 15 },
		{ "paths", 3000, paths, false, 60, 15 },
		{ "maps", 1500, maps, false, 60, 15 },
		{ "grids", 1500, grids, false, 60, 15 },
		{ "subclasses", 1500, subclasses, false, 60, 15 },
		{ "hybrid", 250, hybrid, true, 120, 8 },
	};
	return p;
}
