// C15: the bicycle model drives circles through its reference point.
#include "core/base.h"
#include "models/kinematic_bicycle_model.h"
#include "pbt.h"
using namespace Planner;
using namespace pbt;

namespace {
	double m2(double a) { return std::remainder(a, 2 * M_PI); }
	double gap(const Pose2d& a, const Pose2d& b) { return std::hypot(a.x() - b.x(), a.y() - b.y()) + std::abs(m2(a.theta - b.theta)); }
	struct World {
		double wb, rtc;
		Pose2d from;
	};
	World world(Src& s, Case& c)
	{
		World w;
		w.wb = s.oneOf<double>({ 2.6, 1.0, 0.3, 6.0 });
		w.rtc = s.oneOf<double>({ 0.0, 0.5, 1.0, 1.3 }) * w.wb;
		w.from = Pose2d(s.signedMag(20), s.signedMag(20), s.angle());
		c << "wheelbase " << w.wb << " rear-to-center " << w.rtc << " from (" << w.from.x() << "," << w.from.y() << "," << w.from.theta << ")";
		return w;
	}
	double steer(Src& s)
	{
		switch (s.draw(4)) {
		case 0:
			return 0.0;
		case 1:
			return s.signedMag(1e-6);
		default:
			return s.uniform(-1.3, 1.3);
		}
	}

	/// The rear axle moves on a circle of curvature tan(steering) / wheelbase.
	Pose2d reference(const World& w, double steering, double dist)
	{
		double k = std::tan(steering) / w.wb, th = w.from.theta;
		double ax = w.from.x() - w.rtc * std::cos(th), ay = w.from.y() - w.rtc * std::sin(th);
		double half = k * dist / 2, sinc = std::abs(half) < 1e-8 ? 1.0 - half * half / 6 : std::sin(half) / half;
		double nx = ax + dist * sinc * std::cos(th + half), ny = ay + dist * sinc * std::sin(th + half), nt = th + k * dist;
		return Pose2d(nx + w.rtc * std::cos(nt), ny + w.rtc * std::sin(nt), nt);
	}

	void motion(Src& s, Case& c)
	{
		World w = world(s, c);
		KinematicBicycleModel m(w.wb, w.rtc);
		double st = steer(s), d = s.chance(1, 10) ? 0.0 : s.oneOf<double>({ 1.0, 0.1, 10.0, 1e3 }) * s.uniform(0, 1), e = s.uniform(0, 3);
		c << " steering " << st << " distance " << d;
		double tol = 2e-6 * (1 + d + e); // the model divides by curvatures down to 1e-9
		Pose2d f = m.ConstantSteer(w.from, st, d), g = m.ConstantSteer(w.from, st, d, Direction::Forward), b = m.ConstantSteer(w.from, st, d, Direction::Backward);
		Pose2d rf = reference(w, st, d), rb = reference(w, st, -d);
		c.check(gap(f, rf) <= tol, "forward motion ends at (", f.x(), ",", f.y(), ",", f.theta, ") instead of (", rf.x(), ",", rf.y(), ",", rf.theta, ")");
		c.check(gap(f, g) == 0, "forward is not the default direction");
		c.check(gap(b, rb) <= tol, "backward motion ends at (", b.x(), ",", b.y(), ",", b.theta, ") instead of (", rb.x(), ",", rb.y(), ",", rb.theta, ")");
		// driving back undoes the motion; motions add up
		c.check(gap(m.ConstantSteer(f, st, d, Direction::Backward), w.from) <= tol, "driving back does not return to the start");
		c.check(gap(m.ConstantSteer(f, st, e), m.ConstantSteer(w.from, st, d + e)) <= tol, "two motions in a row differ from one of the total distance");
		// mirror image and frame independence
		World mw = w;
		Pose2d mirror(w.from.x(), -w.from.y(), -w.from.theta), mf = m.ConstantSteer(mirror, -st, d);
		c.check(gap(Pose2d(mf.x(), -mf.y(), -mf.theta), f) <= tol, "steering right is not the mirror image of steering left");
		Pose2d frame(s.signedMag(10), s.signedMag(10), s.angle());
		c.check(gap(m.ConstantSteer(frame + w.from, st, d), frame + f) <= tol, "the motion depends on the frame");
		c.nontrivial(d > 1e-3 && std::abs(st) > 1e-3);
		c.label("straight", std::abs(st) < 1e-8);
		(void)mw;
	}

	void radius(Src& s, Case& c)
	{
		World w = world(s, c);
		KinematicBicycleModel m(w.wb, w.rtc);
		// radius of the circle the reference point follows
		double r = w.rtc + (s.chance(1, 8) ? 0.0 : s.oneOf<double>({ 0.1, 1.0, 20.0, 400.0, 1e5 }) * s.uniform(0.01, 1));
		if (r <= 0)
			r = 0.1;
		double st = m.GetSteeringAngleFromTurningRadius(r);
		c << " radius " << r << " steering " << st;
		c.check(st > 0 && st <= M_PI_2 + 1e-12, "the steering angle for radius ", r, " is ", st);
		if (r > w.rtc + 1e-3) {
			double axle = std::sqrt(r * r - w.rtc * w.rtc);
			// center of the circle: on the rear axle line, to the left
			double th = w.from.theta;
			double cx = w.from.x() - w.rtc * std::cos(th) - axle * std::sin(th), cy = w.from.y() - w.rtc * std::sin(th) + axle * std::cos(th);
			for (int i = 0; i < 5; i++) {
				double d = s.uniform(0, 2 * M_PI * axle);
				Pose2d p = m.ConstantSteer(w.from, st, d, s.boolean() ? Direction::Backward : Direction::Forward);
				c.check(std::abs(std::hypot(p.x() - cx, p.y() - cy) - r) <= 1e-6 * (1 + r), "the reference point leaves the circle of radius ", r, ": it is at ", std::hypot(p.x() - cx, p.y() - cy));
			}
			c.check(gap(m.ConstantSteer(w.from, st, 2 * M_PI * axle), w.from) <= 1e-6 * (1 + r), "a full turn does not return to the start");
			// tighter circles need more steering
			c.check(m.GetSteeringAngleFromTurningRadius(r + s.uniform(0.001, 1)) < st, "a wider circle needs at least as much steering");
		} else if (w.rtc > 0) {
			c.check(m.GetSteeringAngleFromTurningRadius(w.rtc * 0.5) == M_PI_2, "an impossible radius does not give the extreme steering angle");
		}
		c.nontrivial(r > w.rtc + 1e-3);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C15";
	p.rule = "random wheelbase, reference point (rear axle to front axle and beyond), pose, steering angle (zero, tiny, up to 1.3 rad), distance and direction, compared with a closed-form rear-axle model and with the group laws; turning radii from the smallest possible to wide. Non-trivial: a turning motion of positive length; a feasible radius.";
	p.assumptions = { "|steering| <= 1.3 rad", "distance travelled is that of the rear wheel" };
	p.laws = {
		{ "motion", 300000, motion },
		{ "radius", 200000, radius },
	};
	return p;
}
