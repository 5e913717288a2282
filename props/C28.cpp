// C28: the profiling trace and the singletons.
// cflags: -DPP_ENABLE_PROFILING
// sources: debug/profiler.cpp
#include "core/base.h"
#include "core/timer.h"
#include "map_gen.h"
#include "utils/singleton.h"
#include <atomic>
#include <fstream>
#include <map>
#include <cstring>
#include <sstream>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using namespace Planner;
using namespace pbt;

namespace {
	/// Strict reader of JSON texts.
	struct Json {
		std::map<std::string, Json> object;
		std::vector<Json> array;
		std::string text;
		char kind = 0; // o a s n
	};
	struct Reader {
		const std::string& t;
		size_t i = 0;
		Case& c;
		[[noreturn]] void bad(const char* what) { c.fail("the trace is no JSON text: ", what, " at offset ", i, ": '", t.substr(i > 20 ? i - 20 : 0, 60), "'"); }
		void space()
		{
			while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r'))
				i++;
		}
		char peek()
		{
			space();
			if (i >= t.size())
				bad("unexpected end");
			return t[i];
		}
		void expect(char ch)
		{
			if (peek() != ch)
				bad("unexpected character");
			i++;
		}
		std::string string()
		{
			expect('"');
			std::string out;
			while (i < t.size() && t[i] != '"') {
				if ((unsigned char)t[i] < 0x20)
					bad("control character in a string");
				if (t[i] == '\\') {
					i++;
					if (i >= t.size() || !strchr("\"\\/bfnrt", t[i]))
						bad("unknown escape");
				}
				out += t[i++];
			}
			expect('"');
			return out;
		}
		Json value()
		{
			Json j;
			char ch = peek();
			if (ch == '{') {
				j.kind = 'o';
				i++;
				if (peek() == '}')
					i++;
				else
					for (;;) {
						std::string k = string();
						expect(':');
						if (j.object.count(k))
							bad("repeated member");
						j.object[k] = value();
						if (peek() == ',')
							i++, space();
						else {
							expect('}');
							break;
						}
					}
			} else if (ch == '[') {
				j.kind = 'a';
				i++;
				if (peek() == ']')
					i++;
				else
					for (;;) {
						j.array.push_back(value());
						if (peek() == ',')
							i++;
						else {
							expect(']');
							break;
						}
					}
			} else if (ch == '"') {
				j.kind = 's';
				j.text = string();
			} else {
				j.kind = 'n';
				if (t[i] == '-')
					j.text += t[i++];
				while (i < t.size() && isdigit((unsigned char)t[i]))
					j.text += t[i++];
				if (j.text.empty() || j.text == "-")
					bad("no value");
			}
			return j;
		}
	};

	/// Detects that the clock of the trace was set meanwhile.
	struct ClockGuard {
		static double offset()
		{
			return std::chrono::duration<double>(std::chrono::high_resolution_clock::now().time_since_epoch()).count() - std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
		}
		double before = offset();
		bool jumped() const { return std::abs(offset() - before) > 1e-3; }
	};

	struct Event {
		std::string name, tid;
		long long start, end;
	};

	std::vector<Event> readTrace(Case& c, const std::string& file, bool clock = true)
	{
		std::ifstream f(file, std::ios::binary);
		std::stringstream ss;
		ss << f.rdbuf();
		std::string t = ss.str();
		Reader r { t, 0, c };
		Json j = r.value();
		r.space();
		c.check(r.i == t.size(), "the trace goes on after the end of its JSON text");
		c.check(j.kind == 'o' && j.object.count("traceEvents") && j.object["traceEvents"].kind == 'a', "the trace has no list of events");
		std::vector<Event> out;
		for (auto& e : j.object["traceEvents"].array) {
			c.check(e.kind == 'o', "an event is no object");
			if (e.object.empty())
				continue;
			for (const char* k : { "dur", "ts", "tid", "pid" })
				c.check(e.object.count(k) && e.object[k].kind == 'n', "an event has no number '", k, "'");
			c.check(e.object.count("name") && e.object["name"].kind == 's' && e.object.count("ph") && e.object["ph"].text == "X", "an event is not a named complete event");
			Event v { e.object["name"].text, e.object["tid"].text, atoll(e.object["ts"].text.c_str()), 0 };
			long long d = atoll(e.object["dur"].text.c_str());
			c.check(d >= 0 || !clock, "an event lasts ", d, " microseconds");
			v.end = v.start + d;
			out.push_back(v);
		}
		return out;
	}

	/// Working directory of one case; the trace goes to a fixed name in it.
	struct Dir {
		std::string path;
		char old[4096];
		Dir()
		{
			getcwd(old, sizeof old);
			const char* t = getenv("TMPDIR");
			path = std::string(t && *t ? t : "/tmp") + "/pbt-trace-XXXXXX";
			if (!mkdtemp(&path[0]) || chdir(path.c_str()))
				abort();
		}
		~Dir()
		{
			Profiler::Release();
			unlink((path + "/profiling.json").c_str());
			chdir(old);
			rmdir(path.c_str());
		}
	};

	/// What one thread does: nested scopes, in the order they end.
	struct Plan {
		int what;
		std::vector<Plan> inner;
	};
	const int KINDS = 7;
	Plan plan(Src& s, int depth, int& budget)
	{
		Plan p;
		p.what = s.range(0, KINDS - 1);
		int n = depth < 4 ? s.range(0, 3) : 0;
		for (int i = 0; i < n && budget > 0; i++) {
			budget--;
			p.inner.push_back(plan(s, depth + 1, budget));
		}
		return p;
	}
	const char* NAMES[KINDS] = { "plain", "with 'quotes'", "int f(int)", "direct timer", "stopped early", "profiled(int)", "update" };

	struct Expected {
		std::string name;
		int parent;
	};

	void profiled(int)
	{
		PP_PROFILE_FUNCTION();
	}

	void execute(const Plan& p, int parent, std::vector<Expected>& done)
	{
		// the index of a scope is fixed when it starts
		int me = done.size();
		done.push_back({ NAMES[p.what], parent });
		auto rest = [&](int up) {
			for (auto& q : p.inner)
				execute(q, up, done);
		};
		switch (p.what) {
		case 0: {
			PP_PROFILE_SCOPE("plain");
			rest(me);
			break;
		}
		case 1: {
			PP_PROFILE_SCOPE("with \"quotes\"");
			rest(me);
			break;
		}
		case 2: {
			PP_PROFILE_SCOPE("int __cdecl f(int)");
			rest(me);
			break;
		}
		case 3: {
			ProfilingTimer t("direct timer");
			rest(me);
			break;
		}
		case 4: {
			ProfilingTimer t("stopped early");
			t.Stop();
			rest(parent);
			break;
		}
		case 5: {
			profiled(0);
			rest(parent);
			break;
		}
		default: {
			ProfilingTimer t("update");
			{
				// a profiled function of the library
				auto grid = makeRef<Grid<int>>(2, 2, -1);
				GVD::ObstacleDistanceMap om(grid, 1.0f);
				om.Update();
			}
			rest(me);
		}
		}
	}

	void compare(Case& c, const std::vector<std::vector<Expected>>& expect, std::vector<Event> events, bool clock)
	{
		// group the events by thread
		std::map<std::string, std::vector<Event>> byThread;
		for (auto& e : events)
			byThread[e.tid].push_back(e);
		auto count = [](const std::vector<Expected>& v) {
			std::map<std::string, int> m;
			for (auto& e : v) {
				if (e.name == "profiled(int)")
					continue;
				m[e.name]++;
			}
			return m;
		};
		auto libraryCount = [](const std::vector<Expected>& v, const char* n) {
			int k = 0;
			for (auto& e : v)
				k += e.name == n;
			return k;
		};
		size_t active = 0;
		std::vector<bool> used(expect.size(), false);
		for (auto& e : expect)
			active += !e.empty();
		c.check(byThread.size() == active, "the trace tells ", byThread.size(), " threads apart, ", active, " were profiled");
		for (auto& [tid, ev] : byThread) {
			std::map<std::string, int> names;
			int functions = 0, updates = 0;
			for (auto& e : ev) {
				bool known = false;
				for (auto n : NAMES)
					known = known || e.name == n;
				if (known)
					names[e.name]++;
				else if (e.name.find("profiled(int)") != std::string::npos)
					functions++;
				else if (e.name.find("ObstacleDistanceMap::Update") != std::string::npos)
					updates++;
				else
					c.fail("the trace has an event named '", e.name, "'");
			}
			bool match = false;
			for (size_t i = 0; i < expect.size() && !match; i++)
				if (!used[i] && names == count(expect[i]) && functions == libraryCount(expect[i], "profiled(int)") && updates == libraryCount(expect[i], "update"))
					used[i] = match = true;
			c.check(match, "thread ", tid, " has ", ev.size(), " events, which are not those of any profiled thread");
			// scopes nest: no two events of a thread overlap partly
			for (auto& a : ev)
				for (auto& b : ev)
					c.check(!clock || !(a.start < b.start && b.start < a.end && a.end < b.end), "'", a.name, "' and '", b.name, "' of one thread overlap");
		}
	}

	void trace(Src& s, Case& c)
	{
		Dir dir;
		int sessions = s.range(1, 2), total = 0, most = 0;
		for (int q = 0; q < sessions; q++) {
			ClockGuard guard;
			Profiler::Init();
			int threads = s.range(1, 4);
			std::vector<std::vector<Plan>> plans(threads);
			std::vector<std::vector<Expected>> done(threads);
			for (auto& t : plans) {
				int n = s.range(1, 6), budget = 25;
				for (int i = 0; i < n; i++)
					t.push_back(plan(s, 0, budget));
			}
			most = std::max(most, threads);
			std::atomic<int> ready { 0 };
			auto work = [&](int k) {
				ready++;
				while (ready < threads)
					std::this_thread::yield();
				for (auto& p : plans[k])
					execute(p, -1, done[k]);
				// thread identifiers are not used twice in one session
				ready++;
				while (ready < 2 * threads)
					std::this_thread::yield();
			};
			std::vector<std::thread> pool;
			for (int k = 1; k < threads; k++)
				pool.emplace_back(work, k);
			work(0);
			for (auto& t : pool)
				t.join();
			Profiler::Release();
			int n = 0;
			for (auto& d : done)
				n += d.size();
			c << threads << " threads, " << n << " scopes; ";
			total += n;
			bool clock = !guard.jumped();
			compare(c, done, readTrace(c, dir.path + "/profiling.json", clock), clock);
		}
		c.label("several threads", most > 1);
		c.label("second session", sessions > 1);
		c.nontrivial(total > 5);
	}

	/// Explicit results: written as given.
	void results(Src& s, Case& c)
	{
		Dir dir;
		int n = s.range(0, 40);
		std::vector<ProfilingResult> given;
		bool lost = s.chance(1, 8);
		if (lost)
			mkdir((dir.path + "/profiling.json").c_str(), 0700);
		// the results of other threads may be written by this one
		std::vector<std::thread::id> ids { std::this_thread::get_id() };
		{
			std::vector<std::thread> others;
			for (int k = s.range(0, 2); k > 0; k--)
				others.emplace_back([] {});
			for (auto& o : others)
				ids.push_back(o.get_id());
			for (auto& o : others)
				o.join();
		}
		std::vector<int> owner;
		for (int i = 0; i < n; i++) {
			owner.push_back(s.range(0, (int)ids.size() - 1));
			long long start = s.draw(1ull << 50), len = s.size(0, 1000000000);
			given.push_back({ "event " + std::to_string(i), start, start + len, ids[owner.back()] });
			Profiler::Get().WriteProfile(given.back());
		}
		if (!n)
			Profiler::Init();
		Profiler::Release();
		c << n << " results" << (lost ? ", no file" : "");
		if (lost) {
			rmdir((dir.path + "/profiling.json").c_str());
			c.evals();
			return;
		}
		auto ev = readTrace(c, dir.path + "/profiling.json");
		c.check((int)ev.size() == n, n, " results were written, the trace has ", ev.size());
		for (int i = 0; i < n; i++)
			c.check(ev[i].name == given[i].name && ev[i].start == given[i].start && ev[i].end == given[i].end, "result ", i, " from ", given[i].start, " to ", given[i].end, " is in the trace as '", ev[i].name, "' from ", ev[i].start, " to ", ev[i].end);
		for (int i = 0; i < n; i++)
			for (int j = 0; j < i; j++)
				c.check((ev[i].tid == ev[j].tid) == (owner[i] == owner[j]), "results ", j, " and ", i, " belong to ", owner[i] == owner[j] ? "one thread" : "two threads", " but are attributed to '", ev[j].tid, "' and '", ev[i].tid, "'");
		c.nontrivial(n > 1);
	}

	struct Counted {
		Counted() :
			a(17) { made++, alive++; }
		Counted(int x, std::string y) :
			a(x), b(std::move(y)) { made++, alive++; }
		~Counted() { alive--; }
		int a = 0;
		std::string b;
		static std::atomic<int> made, alive;
	};
	std::atomic<int> Counted::made { 0 }, Counted::alive { 0 };

	struct Plain : Counted, Singleton<Plain> {
		friend class Singleton<Plain>;
	};
	struct WithArgs : Counted, SingletonInit<WithArgs> {
		WithArgs(int x, std::string y) :
			Counted(x, y) { }
	};
	struct Safe : Counted, SingletonThreadSafe<Safe> { };

	void singletons(Src& s, Case& c)
	{
		// one instance between two releases, whatever is called
		Plain::Release();
		WithArgs::Release();
		Safe::Release();
		Counted::made = 0;
		c.check(Counted::alive == 0, "a released singleton is alive");
		int n = s.range(1, 20), made = 0, sessions = 0;
		Plain* p = nullptr;
		WithArgs* w = nullptr;
		int wx = 0;
		for (int i = 0; i < n; i++)
			switch (s.range(0, 5)) {
			case 0:
				made += !p;
				Plain::Init();
				p = &Plain::Get();
				c << "init ";
				break;
			case 1: {
				made += !p;
				Plain* q = &Plain::Get();
				c.check(!p || p == q, "two calls give different singletons");
				c.check(q->a == 17, "the singleton is not constructed");
				p = q;
				c << "get ";
				break;
			}
			case 2:
				Plain::Release();
				p = nullptr;
				c << "release ";
				break;
			case 3:
				if (!w) {
					wx = s.range(-5, 5);
					WithArgs::Init(wx, std::string("name"));
					made++;
				}
				c.check(!w || w == &WithArgs::Get(), "two calls give different singletons");
				w = &WithArgs::Get();
				c.check(w->a == wx && w->b == "name", "the singleton was constructed with other arguments");
				c << "getargs ";
				break;
			case 4:
				WithArgs::Release();
				w = nullptr;
				c << "releaseargs ";
				break;
			default: {
				int threads = s.range(1, 4);
				std::vector<Safe*> got(threads);
				std::vector<int> seen(threads);
				std::atomic<int> ready { 0 };
				std::vector<std::thread> pool;
				auto work = [&](int k) {
					ready++;
					while (ready < threads)
						;
					got[k] = &Safe::Get();
					seen[k] = got[k]->a;
				};
				for (int k = 1; k < threads; k++)
					pool.emplace_back(work, k);
				work(0);
				for (auto& t : pool)
					t.join();
				made++;
				sessions += threads > 1;
				for (int k = 0; k < threads; k++)
					c.check(got[k] == got[0] && seen[k] == 17, "threads get different or unfinished singletons");
				c.check(got[0] == &Safe::Get(), "two calls give different singletons");
				Safe::Release();
				c << threads << " threads ";
			}
			}
		c.check(Counted::made == made, Counted::made.load(), " singletons were made instead of ", made);
		c.check(Counted::alive == (p != nullptr) + (w != nullptr), Counted::alive.load(), " singletons are alive");
		Plain::Release();
		WithArgs::Release();
		c.check(Counted::alive == 0, "a released singleton is alive");
		c.label("threads", sessions > 0);
		c.nontrivial(made > 1);
	}

	void stopwatch(Src& s, Case& c)
	{
		using clock = std::chrono::high_resolution_clock;
		auto sec = [](clock::duration d) { return std::chrono::duration<double>(d).count(); };
		ClockGuard guard;
		auto a0 = clock::now();
		Timer t;
		auto a1 = clock::now();
		int n = s.range(1, 4);
		c << n << " readings";
		for (int i = 0; i < n; i++) {
			int us = s.range(0, 300);
			for (auto until = clock::now() + std::chrono::microseconds(us); clock::now() < until;)
				;
			if (s.chance(1, 3)) {
				a0 = clock::now();
				t.Reset();
				a1 = clock::now();
				continue;
			}
			bool ms = s.boolean();
			auto b0 = clock::now();
			double e = ms ? t.ElapsedMillis() / 1000.0 : t.Elapsed();
			auto b1 = clock::now();
			double lo = sec(b0 - a1), hi = sec(b1 - a0);
			c.check(guard.jumped() || e >= lo * (1 - 1e-5) - 1e-9 && e <= hi * (1 + 1e-5) + 1e-9, "the timer tells ", e, " s after ", lo, " to ", hi, " s");
		}
		c.nontrivial(n > 1);
	}
}

namespace pbt {
	Property property()
	{
		Property p;
		p.id = "C28";
		p.rule = "one process and scratch directory per case; random trees of profiled scopes (macros, timers, early stops, profiled functions of the library) on up to four threads that run at the same time, over one or two sessions, read back by a strict JSON reader; explicit results; traces that cannot be opened; histories of requests and releases of the three kinds of singletons; timer readings bracketed by the clock. Non-trivial: more than five scopes; two results; two instances made; two readings.";
		p.assumptions = { "the profiler is created before threads use it (PP_INIT)", "names are those the macros produce (no backslash)", "times are not judged when the clock is set meanwhile", "interleavings are those the scheduler gives" };
		p.laws = {
			{ "trace", 1000, trace, true, 60, 30, false },
			{ "results", 400, results, true, 60, 30, false },
			{ "singletons", 3000, singletons, true, 60, 10, false },
			{ "stopwatch", 400, stopwatch, true, 60, 10, false },
		};
		return p;
	}
}
