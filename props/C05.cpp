// C05: the open list (Frontier) behaves as a priority queue with unique membership.
#include "core/base.h"
#include "utils/frontier.h"
#include "pbt.h"
#include <list>
#include <map>
#include <set>

using namespace Planner;
using namespace pbt;

namespace {
	struct Item {
		int key = 0; // identity
		double prio = 0; // order
		int serial = 0; // distinguishes successive insertions of the same key
	};
	struct HashItem {
		std::size_t mod = 3;
		std::size_t operator()(const Item& i) const { return (std::size_t)i.key % mod; }
	};
	struct EqItem {
		bool operator()(const Item& a, const Item& b) const { return a.key == b.key; }
	};
	struct Less {
		bool operator()(const Item& a, const Item& b) const { return a.prio < b.prio; }
	};
	struct Greater {
		bool operator()(const Item& a, const Item& b) const { return a.prio > b.prio; }
	};

	template <typename Cmp, typename F>
	void history(Src& s, Case& c, F& f, Cmp cmp)
	{
		std::map<int, Item> model;
		int keys = s.size(1, 200), prios = s.oneOf<int>({ 1, 3, 10, 1000000 });
		int ops = s.size(1, 400), serial = 0, pushes = 0, removed = 0, popped = 0, maxSize = 0;
		int pushBias = s.range(1, 12);
		c << "keys=" << keys << " prios=" << prios << " ops=" << ops << ":";
		auto top = [&](const Item& t) {
			auto it = model.find(t.key);
			c.check(it != model.end() && it->second.serial == t.serial && it->second.prio == t.prio, "the top element (key ", t.key, ") is not a member");
			for (auto& [k, e] : model)
				c.check(!cmp(t, e), "top has priority ", t.prio, " but key ", k, " with priority ", e.prio, " should come first");
		};
		for (int i = 0; i < ops; i++) {
			int op = s.range(0, 6 + pushBias);
			Item e { s.range(0, keys - 1), (double)s.range(0, prios - 1), ++serial };
			if (op >= 6) {
				auto [p, ok] = f.Push(e);
				auto [it, mok] = model.insert({ e.key, e });
				c.check(ok == mok, "Push(", e.key, ") reported ", ok, " but membership says ", mok);
				c.check(p && p->key == e.key && p->serial == it->second.serial, "Push returned a pointer to the wrong element");
				if (i < 40)
					c << " push " << e.key << "/" << e.prio;
				pushes += ok;
			} else if (op == 0) {
				size_t n = f.Remove(e);
				size_t m = model.erase(e.key);
				c.check(n == m, "Remove(", e.key, ") returned ", n, " instead of ", m);
				if (i < 40)
					c << " rm " << e.key;
				removed += m;
			} else if (op == 1 || op == 2) {
				if (!model.empty()) {
					c.check(!f.Empty(), "empty although ", model.size(), " elements were pushed");
					Item t = f.Top();
					top(t);
					Item p = f.Pop();
					c.check(p.serial == t.serial, "Pop does not return the top element");
					model.erase(p.key);
					if (i < 40)
						c << " pop";
					popped++;
				}
			} else if (op == 3) {
				const Item* p = f.Find(e);
				auto it = model.find(e.key);
				c.check((p != nullptr) == (it != model.end()), "Find(", e.key, ") ", p ? "finds an element that is not there" : "misses an element");
				if (p)
					c.check(p->serial == it->second.serial && p->prio == it->second.prio, "Find returns a stale element");
			} else if (op == 4) {
				if (!model.empty())
					top(f.Top());
			} else if (s.chance(1, 10)) {
				f.Clear();
				model.clear();
			}
			c.check(f.Size() == model.size(), "Size() is ", f.Size(), " instead of ", model.size());
			c.check(f.Empty() == model.empty(), "Empty() is wrong");
			maxSize = std::max<int>(maxSize, model.size());
			if (s.chance(1, 4)) {
				// iteration visits every member once, in order
				std::map<int, int> seen;
				const Item* prev = nullptr;
				for (auto& x : f) {
					seen[x.key]++;
					auto it = model.find(x.key);
					c.check(it != model.end() && it->second.serial == x.serial, "iteration visits key ", x.key, " which is not a member");
					c.check(!prev || !cmp(x, *prev), "iteration is not in increasing order");
					prev = &x;
				}
				c.check(seen.size() == model.size(), "iteration visits ", seen.size(), " of ", model.size(), " members");
			}
		}
		// drain: sorted
		const double inf = std::numeric_limits<double>::infinity();
		Item last;
		bool first = true;
		while (!f.Empty()) {
			Item t = f.Pop();
			c.check(model.erase(t.key) == 1, "draining returns key ", t.key, " which is not a member");
			c.check(first || !cmp(last, t), "elements are not popped in order");
			last = t;
			first = false;
		}
		(void)inf;
		c.check(model.empty(), model.size(), " members were never popped");
		c.label("grew past 20", maxSize > 20);
		c.label("ties", prios < keys);
		c.nontrivial(pushes > 3 && removed > 0 && popped > 0);
	}

	void less(Src& s, Case& c)
	{
		Frontier<Item, Less, HashItem, EqItem> f;
		history(s, c, f, Less());
	}
	void greater(Src& s, Case& c)
	{
		HashItem h;
		h.mod = s.oneOf<std::size_t>({ 1, 7, 1009 });
		Frontier<Item, Greater, HashItem, EqItem> f(Greater(), s.range(1, 40), h, EqItem());
		history(s, c, f, Greater());
	}
	/// Thousands of elements: sorted runs, random order, ties; removals; then everything is popped.
	void many(Src& s, Case& c)
	{
		Frontier<Item, Greater, HashItem, EqItem> f(Greater(), 20, HashItem { s.oneOf<std::size_t>({ 1009, 1000003 }) }, EqItem());
		int n = s.range(500, 12000), prios = s.oneOf<int>({ 5, 300, 1000000 }), mode = s.range(0, 2);
		uint64_t x = s.draw(1u << 30);
		auto rnd = [&](int m) { return (int)((x = pbt::mix(x)) % (uint64_t)m); };
		std::map<int, Item> model;
		std::multiset<double> order;
		int serial = 0, removed = 0, popped = 0;
		auto pop = [&] {
			Item t = f.Pop();
			auto it = model.find(t.key);
			c.check(it != model.end() && it->second.serial == t.serial, "pop returns key ", t.key, ", which is not a member");
			c.check(t.prio == *order.begin(), "pop returns priority ", t.prio, " although ", *order.begin(), " is present");
			order.erase(order.begin());
			model.erase(it);
			popped++;
		};
		for (int i = 0; i < n; i++) {
			double prio = mode == 0 ? rnd(prios) : mode == 1 ? i / 7 : (n - i) / 3;
			Item e { rnd(2 * n), prio, ++serial };
			bool fresh = model.insert({ e.key, e }).second;
			c.check(f.Push(e).second == fresh, "Push(", e.key, ") is ", fresh ? "refused" : "accepted twice");
			if (fresh)
				order.insert(prio);
			if (rnd(4) == 0) {
				Item k { rnd(2 * n), (double)rnd(prios), ++serial };
				auto it = model.find(k.key);
				const Item* found = f.Find(k);
				c.check((found != nullptr) == (it != model.end()) && (!found || found->serial == it->second.serial), "Find(", k.key, ") is wrong among ", model.size());
				c.check(f.Remove(k) == (it != model.end() ? 1u : 0u), "Remove(", k.key, ") is wrong among ", model.size());
				if (it != model.end()) {
					order.erase(order.find(it->second.prio));
					model.erase(it);
					removed++;
				}
			}
			if (rnd(5) == 0 && !model.empty())
				pop();
			c.check(f.Size() == model.size(), "Size() is ", f.Size(), " instead of ", model.size());
		}
		c << n << " pushes, " << prios << " priorities, order " << mode << ", " << removed << " removed, " << model.size() << " left";
		while (!f.Empty() && !model.empty())
			pop();
		c.check(f.Empty() && model.empty(), model.size(), " members were never popped");
		c.nontrivial(removed > 100 && popped > 400);
	}

	void deflt(Src& s, Case& c)
	{
		// plain integers: identity and order coincide
		Frontier<int> f;
		std::set<int> model;
		int ops = s.size(1, 200), keys = s.size(1, 100);
		int pops = 0, rms = 0;
		c << "int ops=" << ops;
		for (int i = 0; i < ops; i++) {
			int v = s.range(0, keys);
			switch (s.range(0, 3)) {
			case 0:
			case 1:
				c.check(f.Push(v).second == model.insert(v).second, "Push(", v, ") reports the wrong outcome");
				break;
			case 2:
				c.check(f.Remove(v) == model.erase(v), "Remove(", v, ") reports the wrong outcome");
				rms++;
				break;
			default:
				if (!model.empty()) {
					c.check(f.Top() == *model.rbegin(), "Top is ", f.Top(), " instead of ", *model.rbegin());
					c.check(f.Pop() == *model.rbegin(), "Pop returns the wrong element");
					model.erase(std::prev(model.end()));
					pops++;
				}
			}
			c.check((f.Find(v) != nullptr) == (model.count(v) == 1), "Find(", v, ") is wrong");
			c.check(std::equal(f.begin(), f.end(), model.begin(), model.end()), "the content is not the sorted set of members");
		}
		c.nontrivial(pops > 0 && rms > 0);
	}
}

Property pbt::property()
{
	Property p;
	p.id = "C05";
	p.rule = "operation histories (push, remove, pop, top, find, clear, iterate; up to 400 operations, few or many keys, from all-tied to distinct priorities, colliding hashes, both orderings, default int instantiation; histories of up to 12000 pushes) against a map-based reference model. Non-trivial: more than three successful pushes, at least one removal of a member and one pop.";
	p.assumptions = { "Compare is a strict weak order, Hash and KeyEqual agree" };
	p.laws = {
		{ "min_first", 12000, greater },
		{ "max_first", 12000, less },
		{ "plain_integers", 20000, deflt },
		{ "many", 60, many },
	};
	return p;
}
