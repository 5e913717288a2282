// Random weighted directed graphs and reference shortest distances.
#pragma once
#include "pbt.h"
#include <queue>
#include <vector>

namespace graphgen {
	struct Edge {
		int to;
		double w;
		int action;
	};
	struct Graph {
		int n = 0;
		bool nearTies = false; // large integer weights: costs differ by as little as one unit
		std::vector<std::vector<Edge>> out;
		/// how far two costs may differ from rounding alone
		double tolerance(double scale) const { return nearTies ? 0.4 : 1e-9 * (1 + scale); }
		std::vector<std::vector<Edge>> in() const
		{
			std::vector<std::vector<Edge>> r(n);
			for (int u = 0; u < n; u++)
				for (auto& e : out[u])
					r[e.to].push_back({ u, e.w, e.action });
			return r;
		}
	};

	inline std::vector<double> dijkstra(const std::vector<std::vector<Edge>>& adj, int s)
	{
		std::vector<double> d(adj.size(), std::numeric_limits<double>::infinity());
		using Q = std::pair<double, int>;
		std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
		d[s] = 0;
		q.push({ 0.0, s });
		while (!q.empty()) {
			auto [c, u] = q.top();
			q.pop();
			if (c > d[u])
				continue;
			for (auto& e : adj[u])
				if (c + e.w < d[e.to]) {
					d[e.to] = c + e.w;
					q.push({ d[e.to], e.to });
				}
		}
		return d;
	}

	/// @param dag only edges u < v (finite trees, for tree search)
	/// @param allowZero zero-weight edges may appear
	inline Graph make(pbt::Src& s, int maxN, bool dag, bool allowZero)
	{
		Graph g;
		g.n = s.size(1, maxN);
		g.out.resize(g.n);
		// weight style: 0 unit, 1 small integers, 2 reals, 3 widely spread, 4 large integers that nearly tie
		int style = s.range(0, 4);
		const double big = style == 4 ? s.oneOf<double>({ 1 << 20, 1 << 26, 1 << 30 }) : 0;
		g.nearTies = style == 4;
		auto weight = [&]() -> double {
			if (allowZero && s.chance(1, 10))
				return 0.0;
			switch (style) {
			case 0:
				return 1.0;
			case 1:
				return 1.0 + s.range(0, 8);
			case 2:
				return s.uniform(0.01, 10);
			case 4:
				return big * s.range(1, 3) + s.range(0, 3);
			default:
				return std::pow(10.0, s.range(-2, 3)) * s.uniform(0.1, 1);
			}
		};
		int action = 0;
		int shape = s.range(0, 3);
		auto add = [&](int u, int v) {
			if (dag && u >= v)
				return;
			g.out[u].push_back({ v, weight(), ++action });
		};
		if (shape == 0 || shape == 1) {
			// sparse / dense random
			int m = s.size(0, g.n * (shape == 0 ? 3 : 8));
			for (int i = 0; i < m; i++) {
				int u = s.range(0, g.n - 1), v = s.range(0, g.n - 1);
				add(u, v);
			}
		} else if (shape == 2) {
			// chain with shortcuts and back edges
			for (int i = 0; i + 1 < g.n; i++)
				add(i, i + 1);
			int m = s.size(0, g.n);
			for (int i = 0; i < m; i++) {
				int u = s.range(0, g.n - 1), v = s.range(0, g.n - 1);
				add(u, v);
			}
		} else {
			// two-way lattice with a few columns
			int cols = s.range(1, 5);
			for (int u = 0; u < g.n; u++) {
				if ((u + 1) % cols != 0 && u + 1 < g.n) {
					add(u, u + 1);
					add(u + 1, u);
				}
				if (u + cols < g.n) {
					add(u, u + cols);
					add(u + cols, u);
				}
			}
		}
		return g;
	}
}
