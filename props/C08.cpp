// C08: the search tree keeps its structure and answers nearest-neighbour queries exactly.
#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/tree.h"
#include "pbt.h"
#include <map>
#include <set>

using namespace Planner;
using namespace pbt;

namespace {
	/// A point whose coordinates are stored contiguously and that carries nothing else.
	using TreeT = Tree<Point2d, 2>;
	using TNode = TreeT::Node;

	double d2(const Point2d& a, const Point2d& b) { return (a - b).squaredNorm(); }

	void trees(Src& s, Case& c)
	{
		TreeT tree;
		std::vector<TNode*> nodes; // every node, in insertion order
		std::map<TNode*, TNode*> parent;
		std::map<std::pair<double, double>, TNode*> byState;
		double scale = s.oneOf<double>({ 1.0, 10.0, 1000.0 });
		bool lattice = s.boolean();
		auto point = [&]() -> Point2d {
			if (lattice)
				return Point2d(s.range(-6, 6) * scale, s.range(-6, 6) * scale);
			return Point2d(s.uniform(-scale, scale), s.uniform(-scale, scale));
		};
		auto desc = [&](TNode* n, TNode* of) {
			for (TNode* p = parent[n]; p; p = parent[p])
				if (p == of)
					return true;
			return false;
		};
		auto reset = [&]() {
			tree.Clear();
			nodes.clear();
			parent.clear();
			byState.clear();
			c.check(tree.Size() == 0, "a cleared tree has size ", tree.Size());
			Point2d p = point();
			TNode* r = tree.CreateRootNode(p);
			c.check(r && (*r)->state == p && !r->GetParent(), "the root node does not hold the initial state");
			nodes.push_back(r);
			parent[r] = nullptr;
			byState[{ p.x(), p.y() }] = r;
		};
		reset();
		int ops = s.size(1, 120), reparents = 0, queries = 0;
		c << (lattice ? "lattice" : "reals") << " ops=" << ops;
		for (int i = 0; i < ops; i++) {
			int op = s.range(0, 9);
			if (op < 4) {
				Point2d p = point();
				bool explicitSource = s.boolean();
				TNode* src = explicitSource ? s.pick(nodes) : nullptr;
				TNode* n = tree.Extend(p, src);
				auto it = byState.find({ p.x(), p.y() });
				if (it != byState.end()) {
					c.check(n == it->second, "extending to a state that is already in the tree does not return its node");
				} else {
					c.check(n && (*n)->state == p, "the new node does not hold the target state");
					c.check(!parent.count(n), "Extend returned an existing node for a new state");
					TNode* par = n->GetParent();
					c.check(par && parent.count(par), "the new node is not connected to the tree");
					if (explicitSource)
						c.check(par == src, "the new node is not a child of the given source");
					else {
						double best = 1e300;
						for (auto m : nodes)
							best = std::min(best, d2((*m)->state, p));
						c.check(d2((*par)->state, p) <= best * (1 + 1e-12), "the new node is connected to a node at distance ", std::sqrt(d2((*par)->state, p)), " but the nearest is at ", std::sqrt(best));
					}
					nodes.push_back(n);
					parent[n] = par;
					byState[{ p.x(), p.y() }] = n;
				}
			} else if (op < 8) {
				Point2d q = s.chance(1, 5) ? (*s.pick(nodes))->state : point();
				std::vector<double> ds;
				for (auto m : nodes)
					ds.push_back(d2((*m)->state, q));
				std::sort(ds.begin(), ds.end());
				queries++;
				if (s.boolean()) {
					TNode* n = tree.GetNearestNode(q);
					c.check(n && parent.count(n), "the nearest node is not a node of the tree");
					c.check(d2((*n)->state, q) <= ds[0] * (1 + 1e-12), "nearest node at distance ", std::sqrt(d2((*n)->state, q)), " but a node is at distance ", std::sqrt(ds[0]));
				} else {
					unsigned k = s.range(0, std::min<int>(nodes.size() + 3, 40));
					auto ns = tree.GetNearestNodes(q, k);
					unsigned expected = std::min<unsigned>(k, nodes.size());
					c.check(ns.size() == expected, "asked for ", k, " of ", nodes.size(), " nodes, got ", ns.size());
					std::set<TNode*> uniq;
					std::vector<double> got;
					for (auto n : ns) {
						c.check(n && parent.count(n), "a nearest node is not a node of the tree");
						uniq.insert(n);
						got.push_back(d2((*n)->state, q));
					}
					c.check(uniq.size() == ns.size(), "a node is returned twice");
					std::sort(got.begin(), got.end());
					for (unsigned j = 0; j < expected; j++)
						c.check(std::abs(got[j] - ds[j]) <= 1e-12 * (1 + ds[j]), "the ", j, "-th nearest node is at squared distance ", got[j], " instead of ", ds[j]);
				}
			} else if (op == 8) {
				TNode* child = s.pick(nodes);
				TNode* np = s.pick(nodes);
				if (child != np) {
					auto before = parent;
					bool cyc = desc(np, child);
					tree.Reparent(child, np);
					if (cyc) {
						TNode* old = before[child];
						parent[np] = old; // takes the place of the child
					}
					parent[child] = np;
					reparents++;
				}
			} else if (s.chance(1, 20))
				reset();

			// structural invariants
			c.check(tree.Size() == nodes.size(), "Size() is ", tree.Size(), " but ", nodes.size(), " distinct states were added");
			int roots = 0;
			for (auto n : nodes) {
				c.check(n->GetParent() == parent[n], "the parent of a node changed unexpectedly (operation ", i, ")");
				c.check(tree.BelongToTree(n), "a node was lost from the tree");
				if (!n->GetParent())
					roots++;
				unsigned depth = 0;
				for (TNode* p = parent[n]; p; p = parent[p])
					depth++;
				c.check(n->GetDepth() == depth, "GetDepth is ", n->GetDepth(), " instead of ", depth);
			}
			c.check(roots == 1, roots, " roots");
		}
		c.label("reparented", reparents > 0);
		c.label("more than 20 nodes", nodes.size() > 20);
		c.nontrivial(nodes.size() > 4 && queries > 1);
	}

	/// Thousands of nodes: the index is rebuilt several times while it grows.
	void largeTrees(Src& s, Case& c)
	{
		TreeT tree;
		std::vector<Point2d> pts;
		int n = s.range(300, 3000);
		uint64_t seed = s.draw(0xffffffff);
		int lattice = s.oneOf<int>({ 0, 20, 100 });
		auto coord = [&](int i) {
			double u = (mix(seed + i) >> 11) / (double)(1ull << 53);
			return lattice ? std::floor(u * lattice) : u * 100;
		};
		auto at = [&](int i) { return Point2d(coord(2 * i), coord(2 * i + 1)); };
		pts.push_back(at(0));
		tree.CreateRootNode(pts[0]);
		std::set<std::pair<double, double>> known { { pts[0].x(), pts[0].y() } };
		for (int i = 1; i < n; i++) {
			Point2d p = at(i);
			TNode* node = tree.Extend(p);
			c.check(node && (*node)->state == p, "the new node does not hold the target state");
			if (known.insert({ p.x(), p.y() }).second) {
				double best = 1e300;
				for (auto& q : pts)
					best = std::min(best, d2(p, q));
				c.check(node->GetParent() && d2((*node->GetParent())->state, p) <= best * (1 + 1e-12), "node ", i, " is not connected to the nearest one");
				pts.push_back(p);
			}
			c.check(tree.Size() == pts.size(), "Size() is ", tree.Size(), " but ", pts.size(), " distinct states were added");
		}
		for (int i = 0; i < 30; i++) {
			Point2d q = at(n + i);
			std::vector<double> ds;
			for (auto& p : pts)
				ds.push_back(d2(p, q));
			std::sort(ds.begin(), ds.end());
			unsigned k = s.range(1, 20);
			auto ns = tree.GetNearestNodes(q, k);
			c.check(ns.size() == std::min<size_t>(k, pts.size()), "asked for ", k, " nodes, got ", ns.size());
			std::vector<double> got;
			for (auto m : ns)
				got.push_back(d2((*m)->state, q));
			std::sort(got.begin(), got.end());
			for (size_t j = 0; j < got.size(); j++)
				c.check(std::abs(got[j] - ds[j]) <= 1e-12 * (1 + ds[j]), "the ", j, "-th nearest node is at squared distance ", got[j], " instead of ", ds[j]);
		}
		c << n << " extensions, " << pts.size() << " nodes" << (lattice ? " on a lattice" : "");
		c.nontrivial(pts.size() > 200);
	}

	/// Data that counts its living instances.
	struct Counted {
		int v = 0;
		inline static long alive = 0;
		Counted(int v = 0) :
			v(v) { alive++; }
		Counted(const Counted& o) :
			v(o.v) { alive++; }
		~Counted() { alive--; }
	};

	/// Deep trees are deleted completely.
	void deepTrees(Src& s, Case& c)
	{
		using N = Node<Counted>;
		int n = s.range(1, s.oneOf<int>({ 100, 20000, 800000 })), bushy = s.range(0, 4);
		long before = Counted::alive;
		{
			Scope<N> root = makeScope<N>(0);
			N* tip = root.get();
			long nodes = 1;
			for (int i = 1; i < n; i++) {
				N* next = tip->AddChild(makeScope<N>(i));
				nodes++;
				for (int b = 0; b < bushy && i % 7 == b; b++, nodes++)
					tip->AddChild(makeScope<N>(-i));
				tip = next;
			}
			c.check(Counted::alive - before == nodes, Counted::alive - before, " of ", nodes, " nodes hold data");
			c.check(tip->GetDepth() == (unsigned)n - 1 && (*tip)->v == n - 1, "the depth is ", tip->GetDepth(), " instead of ", n - 1);
			if (n > 2 && s.boolean()) {
				// cut off all but the beginning
				N* cut = tip;
				int up = s.range(1, n - 2);
				for (int i = 0; i < up; i++)
					cut = cut->GetParent();
				Scope<N> part = cut->GetParent()->RemoveChild(cut);
				part.reset();
			}
		}
		c.check(Counted::alive == before, Counted::alive - before, " nodes of a deleted tree are still alive");
		c << "depth " << n << " bushy " << bushy;
		c.nontrivial(n > 1000);
	}

	// --- the generic node on its own
	using INode = Node<int>;
	struct Model {
		int parent = -1;
		std::vector<int> children;
	};

	void nodesLaw(Src& s, Case& c)
	{
		// ids of living nodes; detached subtrees are kept in `loose`
		std::map<int, INode*> ptr;
		std::map<int, Model> m;
		std::map<int, Scope<INode>> loose;
		int next = 0;
		auto fresh = [&]() {
			Scope<INode> n = makeScope<INode>(next);
			ptr[next] = n.get();
			m[next] = Model();
			loose[next] = std::move(n);
			return next++;
		};
		auto ids = [&]() {
			std::vector<int> v;
			for (auto& [k, p] : ptr)
				v.push_back(k);
			return v;
		};
		auto rootOf = [&](int a) {
			while (m[a].parent >= 0)
				a = m[a].parent;
			return a;
		};
		auto isDesc = [&](int a, int of) {
			for (int p = m[a].parent; p >= 0; p = m[p].parent)
				if (p == of)
					return true;
			return false;
		};
		auto unlink = [&](int child) {
			auto& ch = m[m[child].parent].children;
			ch.erase(std::find(ch.begin(), ch.end(), child));
			m[child].parent = -1;
		};
		std::function<void(int, std::vector<int>&)> pre = [&](int a, std::vector<int>& o) {
			o.push_back(a);
			for (int ch : m[a].children)
				pre(ch, o);
		};
		std::function<void(int, std::vector<int>&)> post = [&](int a, std::vector<int>& o) {
			for (int ch : m[a].children)
				post(ch, o);
			o.push_back(a);
		};
		std::function<void(int)> forget = [&](int a) {
			for (int ch : std::vector<int>(m[a].children))
				forget(ch);
			m.erase(a);
			ptr.erase(a);
		};
		fresh();
		int ops = s.size(1, 60), moves = 0;
		c << "node ops=" << ops;
		for (int i = 0; i < ops; i++) {
			auto all = ids();
			int op = s.range(0, 5);
			if (op <= 1) {
				int a = s.pick(all), n = fresh();
				INode* r = ptr[a]->AddChild(std::move(loose[n]));
				loose.erase(n);
				c.check(r == ptr[n], "AddChild does not return the child");
				m[n].parent = a;
				m[a].children.push_back(n);
			} else if (op == 2) {
				int a = s.pick(all);
				if (m[a].parent >= 0) {
					Scope<INode> r = ptr[m[a].parent]->RemoveChild(ptr[a]);
					c.check(r.get() == ptr[a], "RemoveChild does not hand over the child");
					unlink(a);
					if (s.boolean()) {
						loose[a] = std::move(r); // stays as another tree
					} else {
						r.reset();
						forget(a);
					}
					moves++;
				}
			} else if (op == 3) {
				int a = s.pick(all);
				if (m[a].parent >= 0) {
					bool adopt = s.boolean();
					int n = fresh(), par = m[a].parent;
					Scope<INode> old = ptr[par]->ReplaceChild(ptr[a], std::move(loose[n]), adopt);
					loose.erase(n);
					c.check(old.get() == ptr[a], "ReplaceChild does not hand over the replaced node");
					auto& ch = m[par].children;
					*std::find(ch.begin(), ch.end(), a) = n;
					m[n].parent = par;
					m[a].parent = -1;
					if (adopt) {
						m[n].children = m[a].children;
						m[a].children.clear();
						for (int k : m[n].children)
							m[k].parent = n;
					}
					loose[a] = std::move(old);
					moves++;
				}
			} else if (op == 5) {
				// a family of many children, once
				if (next < 70 && s.range(0, 7) == 0) {
					int a = s.pick(all);
					for (int k = s.size(2, 60); k > 0; k--) {
						int n = fresh();
						ptr[a]->AddChild(std::move(loose[n]));
						loose.erase(n);
						m[n].parent = a;
						m[a].children.push_back(n);
					}
				}
			} else if (op == 4) {
				int a = s.pick(all), b = s.pick(all);
				if (a != b && rootOf(a) == rootOf(b)) {
					int r = rootOf(a), old = m[a].parent;
					bool cyc = isDesc(b, a);
					Scope<INode> root = std::move(loose[r]);
					INode::Reparent(ptr[a], ptr[b], root);
					loose.erase(r);
					if (old >= 0)
						unlink(a);
					if (cyc) {
						unlink(b);
						if (old >= 0) {
							m[b].parent = old;
							m[old].children.push_back(b);
						} else
							r = b;
					}
					m[a].parent = b;
					m[b].children.push_back(a);
					c.check(root.get() == ptr[r], "after reparenting, the root is not the expected node");
					loose[r] = std::move(root);
					moves++;
				}
			}
			// every observer agrees with the model
			for (auto& [id, p] : ptr) {
				auto& mm = m[id];
				c.check(**p == id, "the data of a node changed");
				c.check(p->GetParent() == (mm.parent >= 0 ? ptr[mm.parent] : nullptr), "wrong parent of ", id);
				c.check(p->GetChildren().size() == mm.children.size(), "node ", id, " has ", p->GetChildren().size(), " children instead of ", mm.children.size());
				// order of siblings is consistent with previous/next/first
				std::set<const INode*> kids;
				for (size_t k = 0; k < mm.children.size(); k++) {
					const INode* ch = p->GetChildren()[k].get();
					kids.insert(ch);
					c.check(ch->GetPrevious() == (k ? p->GetChildren()[k - 1].get() : nullptr), "wrong previous sibling");
					c.check(ch->GetNext() == (k + 1 < mm.children.size() ? p->GetChildren()[k + 1].get() : nullptr), "wrong next sibling");
				}
				for (int k : mm.children)
					c.check(kids.count(ptr[k]), "child ", k, " of ", id, " was lost");
				c.check(p->GetFirst() == (mm.children.empty() ? nullptr : p->GetChildren()[0].get()), "wrong first child");
			}
			all = ids();
			int a = s.pick(all), b = s.pick(all);
			c.check(ptr[a]->IsDescendantOf(ptr[b]) == isDesc(a, b), "IsDescendantOf(", a, ",", b, ") is wrong");
			c.check(ptr[a]->IsAncestorOf(ptr[b]) == isDesc(b, a), "IsAncestorOf(", a, ",", b, ") is wrong");
			std::vector<int> o1, got1, got2;
			ptr[a]->PreOrderTraversal([&](const INode& n) { got1.push_back(*n); });
			ptr[a]->PostOrderTraversal([&](const INode& n) { got2.push_back(*n); });
			pre(a, o1);
			c.check(got1.size() == o1.size() && got2.size() == o1.size(), "traversals visit ", got1.size(), "/", got2.size(), " nodes instead of ", o1.size());
			std::map<int, size_t> p1, p2;
			for (size_t k = 0; k < got1.size(); k++) {
				p1[got1[k]] = k;
				p2[got2[k]] = k;
			}
			for (int k : o1) {
				c.check(p1.count(k) && p2.count(k), "a traversal misses node ", k);
				if (k != a) {
					c.check(p1[m[k].parent] < p1[k], "pre-order visits ", k, " before its parent");
					c.check(p2[m[k].parent] > p2[k], "post-order visits ", k, " after its parent");
				}
			}
		}
		c.nontrivial(moves > 0 && ptr.size() > 3);
	}

	/// States of other dimensions and precisions, with data of their own.
	template <typename Scalar, int N>
	void dimensions(Src& s, Case& c)
	{
		using Vec = Eigen::Matrix<Scalar, N, 1>;
		struct Hash {
			std::size_t operator()(const Vec& v) const
			{
				std::size_t h = 7;
				for (int i = 0; i < N; i++)
					h = h * 1000003 + std::hash<Scalar>()(v[i] + Scalar(0));
				return h;
			}
		};
		struct Info {
			int number = -1;
		};
		Tree<Vec, N, Info, Hash, std::equal_to<Vec>, Scalar> tree;
		// distances are exact in both precisions
		auto point = [&]() {
			Vec v;
			for (int i = 0; i < N; i++)
				v[i] = Scalar(s.range(-40, 40)) / 4;
			return v;
		};
		auto dist = [](const Vec& a, const Vec& b) {
			double d = 0;
			for (int i = 0; i < N; i++)
				d += ((double)a[i] - b[i]) * ((double)a[i] - b[i]);
			return d;
		};
		using Nd = typename decltype(tree)::Node;
		std::vector<Nd*> nodes;
		auto add = [&](Nd* n) {
			c.check(n, "no node");
			if ((*n)->info.number < 0) {
				(*n)->info.number = (int)nodes.size();
				nodes.push_back(n);
			}
		};
		add(tree.CreateRootNode(point()));
		int ops = s.size(1, 80);
		for (int i = 0; i < ops; i++) {
			Vec p = point();
			if (s.boolean()) {
				Nd* src = s.boolean() ? s.pick(nodes) : nullptr;
				Nd* n = tree.Extend(p, src);
				add(n);
				c.check((*n)->state == p, "the node does not hold the state");
			} else {
				std::vector<double> ds;
				for (auto m : nodes)
					ds.push_back(dist((*m)->state, p));
				std::sort(ds.begin(), ds.end());
				c.check(dist((*tree.GetNearestNode(p))->state, p) == ds[0], "the nearest of ", nodes.size(), " states of ", N, " coordinates is not found");
				unsigned k = s.range(1, 8);
				auto ns = tree.GetNearestNodes(p, k);
				c.check(ns.size() == std::min<size_t>(k, nodes.size()), "asked for ", k, " of ", nodes.size(), " nodes, got ", ns.size());
				std::set<Nd*> uniq(ns.begin(), ns.end());
				c.check(uniq.size() == ns.size(), "a node is returned twice");
				std::vector<double> got;
				for (auto n : ns)
					got.push_back(dist((*n)->state, p));
				std::sort(got.begin(), got.end());
				for (size_t j = 0; j < got.size(); j++)
					c.check(got[j] == ds[j], "the ", j, "-th nearest node is at squared distance ", got[j], " instead of ", ds[j]);
			}
		}
		c.check(tree.Size() == nodes.size(), "Size() is ", tree.Size(), " instead of ", nodes.size());
		for (size_t i = 0; i < nodes.size(); i++)
			c.check((*nodes[i])->info.number == (int)i, "the data of a node changed");
		c << N << " coordinates, " << nodes.size() << " nodes";
		c.nontrivial(nodes.size() > 8);
	}
	void anyDimension(Src& s, Case& c)
	{
		switch (s.range(0, 3)) {
		case 0:
			return dimensions<double, 3>(s, c);
		case 1:
			return dimensions<float, 2>(s, c);
		case 2:
			return dimensions<double, 1>(s, c);
		default:
			return dimensions<double, 6>(s, c);
		}
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C08";
	p.rule = "operation histories on the spatial tree (extend from the nearest or a given node, nearest and k-nearest queries, reparent including to a descendant, clear and reuse; lattice points with many equidistant nodes, or reals) against brute-force distances and a parent map; and on the generic node (add, remove, replace with or without adoption, reparent) against a reference hierarchy; trees in one, three and six dimensions and of single precision; families of up to 60 children; trees of up to 3000 states; hierarchies up to 800000 levels deep that must be deleted completely. Non-trivial: more than four nodes and more than one query / at least one structural move on more than three nodes.";
	p.assumptions = { "nodes passed to the tree belong to it", "a node is not reparented to itself" };
	p.laws = {
		{ "spatial_tree", 12000, trees },
		{ "dimensions", 8000, anyDimension },
		{ "node_hierarchy", 20000, nodesLaw },
		{ "large_tree", 40, largeTrees, false, 60, 20, false },
		{ "deep_tree", 60, deepTrees, false, 60, 20, false },
	};
	return p;
}
