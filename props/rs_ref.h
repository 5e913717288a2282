// Independent Reeds-Shepp reference: the classical formulas of the 1990 paper in
// signed-length form; every candidate is verified by forward simulation before it
// is used, so a mistake here can only lose a candidate, never invent one.
#pragma once
#include <cmath>
#include <string>
#include <vector>

namespace rsref {
	static const double PI = 3.14159265358979323846;
	struct P {
		double x, y, th;
	};
	struct Seg {
		char type; // L R S
		double len; // signed: negative is backward
	};
	using Cand = std::vector<Seg>;

	inline double m2(double x)
	{
		double v = std::fmod(x, 2 * PI);
		if (v < -PI)
			v += 2 * PI;
		else if (v > PI)
			v -= 2 * PI;
		return v;
	}
	inline P step(P p, char type, double l)
	{
		switch (type) {
		case 'S':
			return { p.x + l * std::cos(p.th), p.y + l * std::sin(p.th), p.th };
		case 'L':
			return { p.x + std::sin(p.th + l) - std::sin(p.th), p.y - std::cos(p.th + l) + std::cos(p.th), p.th + l };
		default:
			return { p.x - std::sin(p.th - l) + std::sin(p.th), p.y + std::cos(p.th - l) - std::cos(p.th), p.th - l };
		}
	}
	inline P simulate(const Cand& c)
	{
		P p { 0, 0, 0 };
		for (auto& s : c)
			p = step(p, s.type, s.len);
		return p;
	}
	inline double length(const Cand& c)
	{
		double l = 0;
		for (auto& s : c)
			l += std::abs(s.len);
		return l;
	}

	static const double Z = 1e-12;
	inline void polar(double x, double y, double& r, double& t)
	{
		r = std::sqrt(x * x + y * y);
		t = std::atan2(y, x);
	}
	inline void tauOmega(double u, double v, double xi, double eta, double phi, double& tau, double& omega)
	{
		double delta = m2(u - v), A = std::sin(u) - std::sin(delta), B = std::cos(u) - std::cos(delta) - 1;
		double t1 = std::atan2(eta * A - xi * B, xi * A + eta * B), t2 = 2 * (std::cos(delta) - std::cos(v) - std::cos(u)) + 3;
		tau = t2 < 0 ? m2(t1 + PI) : m2(t1);
		omega = m2(tau - u + v - phi);
	}

	/// All candidates of the base formulas for one (already transformed) goal.
	inline void base(double x, double y, double phi, std::vector<Cand>& out, bool backwards)
	{
		double t, u, v, u1, t1;
		auto add = [&](Cand c) {
			if (backwards)
				c = Cand(c.rbegin(), c.rend());
			out.push_back(c);
		};
		if (!backwards) {
			polar(x - std::sin(phi), y - 1 + std::cos(phi), u, t);
			v = m2(phi - t);
			if (t >= -Z && v >= -Z)
				add({ { 'L', t }, { 'S', u }, { 'L', v } });
			polar(x + std::sin(phi), y - 1 - std::cos(phi), u1, t1);
			if (u1 * u1 >= 4) {
				u = std::sqrt(u1 * u1 - 4);
				t = m2(t1 + std::atan2(2, u));
				v = m2(t - phi);
				if (t >= -Z && v >= -Z)
					add({ { 'L', t }, { 'S', u }, { 'R', v } });
			}
			double xi = x + std::sin(phi), eta = y - 1 - std::cos(phi);
			double rho = .25 * (2 + std::sqrt(xi * xi + eta * eta));
			if (rho <= 1) {
				u = std::acos(rho);
				tauOmega(u, -u, xi, eta, phi, t, v);
				if (t >= -Z && v <= Z)
					add({ { 'L', t }, { 'R', u }, { 'L', -u }, { 'R', v } });
			}
			rho = (20 - xi * xi - eta * eta) / 16;
			if (rho >= 0 && rho <= 1) {
				u = -std::acos(rho);
				if (u >= -PI / 2) {
					tauOmega(u, u, xi, eta, phi, t, v);
					if (t >= -Z && v >= -Z)
						add({ { 'L', t }, { 'R', u }, { 'L', u }, { 'R', v } });
				}
			}
			polar(xi, eta, rho, t1);
			if (rho >= 2) {
				u = 4 - std::sqrt(rho * rho - 4);
				if (u <= Z) {
					t = m2(std::atan2((4 - u) * xi - 2 * eta, -2 * xi + (u - 4) * eta));
					v = m2(t - phi);
					if (t >= -Z && v >= -Z)
						add({ { 'L', t }, { 'R', -PI / 2 }, { 'S', u }, { 'L', -PI / 2 }, { 'R', v } });
				}
			}
		}
		{
			double xi = x - std::sin(phi), eta = y - 1 + std::cos(phi);
			polar(xi, eta, u1, t1);
			if (u1 <= 4) {
				u = -2 * std::asin(.25 * u1);
				t = m2(t1 + .5 * u + PI);
				v = m2(phi - t + u);
				if (t >= -Z && u <= Z)
					add({ { 'L', t }, { 'R', u }, { 'L', v } });
			}
			double rho;
			polar(xi, eta, rho, t1);
			if (rho >= 2) {
				double r = std::sqrt(rho * rho - 4);
				u = 2 - r;
				t = m2(t1 + std::atan2(r, -2));
				v = m2(phi - PI / 2 - t);
				if (t >= -Z && u <= Z && v <= Z)
					add({ { 'L', t }, { 'R', -PI / 2 }, { 'S', u }, { 'L', v } });
			}
			xi = x + std::sin(phi), eta = y - 1 - std::cos(phi);
			polar(-eta, xi, rho, t1);
			if (rho >= 2) {
				t = t1;
				u = 2 - rho;
				v = m2(t + PI / 2 - phi);
				if (t >= -Z && u <= Z && v <= Z)
					add({ { 'L', t }, { 'R', -PI / 2 }, { 'S', u }, { 'R', v } });
			}
		}
	}

	/// Every verified candidate from the origin to the normalised goal.
	inline std::vector<Cand> candidates(double x, double y, double phi)
	{
		std::vector<Cand> res;
		for (int back = 0; back < 2; back++) {
			double bx = x, by = y;
			if (back) {
				bx = x * std::cos(phi) + y * std::sin(phi);
				by = x * std::sin(phi) - y * std::cos(phi);
			}
			for (int k = 0; k < 4; k++) {
				bool flip = k & 1, refl = k & 2;
				double gx = flip ? -bx : bx, gy = refl ? -by : by, gp = (flip != refl) ? -phi : phi;
				std::vector<Cand> out;
				base(gx, gy, gp, out, back);
				for (auto& c : out) {
					for (auto& s : c) {
						if (flip)
							s.len = -s.len;
						if (refl)
							s.type = s.type == 'L' ? 'R' : s.type == 'R' ? 'L'
																		 : 'S';
					}
					P e = simulate(c);
					double dth = m2(e.th - phi);
					double sc = 1 + std::abs(x) + std::abs(y);
					if (std::abs(e.x - x) < 1e-10 * sc && std::abs(e.y - y) < 1e-10 * sc && std::abs(dth) < 1e-10)
						res.push_back(c);
				}
			}
		}
		return res;
	}
}
