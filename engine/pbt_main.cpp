// Driver: runs the laws of one property over generated cases in parallel
// worker processes, attributes crashes and hangs to the case that was running,
// confirms and shrinks failures, and writes evidence and replay files.
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>

using namespace pbt;

namespace {
	struct Slot {
		std::atomic<int> state; // 0 idle, 1 running, 2 oracle failure, 3 timeout
		int law;
		uint64_t index;
		char msg[8192];
		// result of an isolated case
		int nontrivial, discarded;
		uint64_t evals, hash;
		uint32_t blobLen;
		char blob[1 << 16];
		Tape tape;
	};

	struct Shared {
		std::atomic<uint64_t> next;
		std::atomic<int> stop;
	};

	Slot* g_slot = nullptr;

	double now()
	{
		timespec t;
		clock_gettime(CLOCK_MONOTONIC, &t);
		return t.tv_sec + 1e-9 * t.tv_nsec;
	}

	template <typename T>
	T* shared()
	{
		void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) {
			perror("mmap");
			exit(2);
		}
		return new (p) T();
	}

	void onTimer(int)
	{
		g_slot->state = 3;
		_exit(124);
	}

	void armTimer(int seconds)
	{
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_handler = onTimer;
		sigaction(SIGPROF, &sa, nullptr);
		itimerval tv;
		memset(&tv, 0, sizeof tv);
		tv.it_value.tv_sec = seconds;
		setitimer(ITIMER_PROF, &tv, nullptr);
	}

	void copyMsg(Slot* s, const std::string& m)
	{
		snprintf(s->msg, sizeof s->msg, "%s", m.c_str());
	}

	uint64_t caseSeed(uint64_t seed, const Property& p, const Law& l, uint64_t idx)
	{
		return mix(mix(seed) ^ hashStr(p.id.c_str()) ^ mix(hashStr(l.name.c_str())) ^ mix(idx * 0x9e3779b97f4a7c15ull + 7)) * 2654435761u;
	}

	/// Run one case in this process. Returns false if it was discarded; throws Failure.
	bool runHere(const Law& law, Src& src, Case& c)
	{
		try {
			if (law.isolate)
				setRandomSeed(src.draw(0xffffffffu));
			law.run(src, c);
			return true;
		} catch (Discard&) {
			return false;
		} catch (Failure&) {
			throw;
		} catch (std::exception& e) {
			throw Failure { std::string("unexpected exception: ") + e.what() };
		}
	}

	struct Outcome {
		bool failed = false;
		std::string msg;
	};

	std::string describeStatus(int st, Slot* slot)
	{
		if (slot->state == 3)
			return "the case did not terminate within its CPU budget";
		if (WIFSIGNALED(st)) {
			int sg = WTERMSIG(st);
			std::string s = std::string("killed by signal ") + strsignal(sg);
			if (sg == SIGTRAP)
				s += " (internal assertion of the code under test failed)";
			return s;
		}
		if (WIFEXITED(st))
			return "process ended with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit)";
		return "unknown";
	}

	std::string tailFile(int fd)
	{
		off_t n = lseek(fd, 0, SEEK_END);
		off_t start = std::max<off_t>(0, n - 6000);
		std::string s(n - start, 0);
		ssize_t r = pread(fd, &s[0], s.size(), start);
		s.resize(std::max<ssize_t>(0, r));
		return s;
	}

	/// Run a case in a fresh child from an explicit choice list.
	Outcome runForked(const Law& law, const std::vector<uint64_t>* choices, const std::vector<uint8_t>* bytes, Slot* slot, std::string* desc = nullptr, std::string* errOut = nullptr, int cpuLimit = 0)
	{
		slot->state = 1;
		slot->msg[0] = 0;
		slot->blobLen = 0;
		FILE* errf = tmpfile();
		fflush(stdout);
		fflush(stderr);
		pid_t pid = fork();
		if (pid == 0) {
			g_slot = slot;
			if (errf)
				dup2(fileno(errf), 2);
			armTimer(cpuLimit > 0 ? cpuLimit : law.cpuLimit);
			Case c;
			auto saveDesc = [&] {
				std::string d = c.desc.str().substr(0, sizeof(slot->blob) - 1);
				memcpy(slot->blob, d.data(), d.size());
				slot->blobLen = d.size();
			};
			try {
				if (choices) {
					Src s(*choices, &slot->tape);
					runHere(law, s, c);
				} else {
					Src s(bytes->data(), bytes->size(), &slot->tape);
					runHere(law, s, c);
				}
			} catch (Failure& f) {
				copyMsg(slot, f.msg);
				saveDesc();
				slot->state = 2;
				_exit(3);
			}
			saveDesc();
			slot->state = 0;
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
		Outcome o;
		if (slot->state == 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
		} else {
			o.failed = true;
			o.msg = slot->state == 2 ? std::string(slot->msg) : describeStatus(st, slot);
			if (errOut && errf)
				*errOut = tailFile(fileno(errf));
		}
		if (desc)
			*desc = std::string(slot->blob, slot->blobLen);
		if (errf)
			fclose(errf);
		return o;
	}

	struct Stats {
		uint64_t cases = 0, discards = 0, evals = 0, nontrivial = 0;
		std::map<std::string, uint64_t> labels;
		std::set<uint64_t> hashes;
		std::vector<std::string> samples;
	};

	void account(Stats& st, bool ran, bool nontrivial, uint64_t evals, uint64_t hash, const std::string& desc, const std::vector<std::string>& labels)
	{
		st.cases++;
		if (!ran) {
			st.discards++;
			return;
		}
		st.evals += evals;
		if (nontrivial) {
			st.nontrivial++;
			st.hashes.insert(hash);
			if (st.samples.size() < 2 && !desc.empty())
				st.samples.push_back(desc.substr(0, 600));
		}
		std::set<std::string> uniq(labels.begin(), labels.end());
		for (auto& l : uniq)
			st.labels[l]++;
	}

	std::string oneLine(std::string s)
	{
		for (auto& ch : s)
			if (ch == '\n' || ch == '\r' || ch == '\t')
				ch = ' ';
		return s;
	}

	std::string jstr(const std::string& s)
	{
		std::string o = "\"";
		for (unsigned char ch : s) {
			if (ch == '"' || ch == '\\') {
				o += '\\';
				o += ch;
			} else if (ch < 0x20 || ch > 0x7e) {
				char b[8];
				snprintf(b, sizeof b, "\\u%04x", ch);
				o += b;
			} else
				o += ch;
		}
		return o + "\"";
	}

	void worker(const Property& prop, const std::vector<std::pair<int, uint64_t>>& ends, Shared* sh, Slot* slot, FILE* out, uint64_t seed, double deadline, uint64_t chunk)
	{
		g_slot = slot;
		std::vector<Stats> stats(prop.laws.size());
		const uint64_t total = ends.back().second;
		bool capped = false;
		while (!sh->stop) {
			uint64_t base = sh->next.fetch_add(chunk);
			if (base >= total)
				break;
			for (uint64_t g = base; g < std::min(total, base + chunk) && !sh->stop; g++) {
				if (now() > deadline) {
					capped = true;
					sh->stop = 1;
					break;
				}
				int li = 0;
				while (g >= ends[li].second)
					li++;
				uint64_t idx = g - (li ? ends[li - 1].second : 0);
				const Law& law = prop.laws[ends[li].first];
				Stats& st = stats[ends[li].first];
				slot->law = ends[li].first;
				slot->index = idx;
				slot->state = 1;
				uint64_t cs = caseSeed(seed, prop, law, idx);
				if (!law.isolate) {
					armTimer(law.cpuLimit);
					Case c;
					Src s(cs, &slot->tape);
					try {
						bool ran = runHere(law, s, c);
						account(st, ran, c.isNontrivial, c.numEvals, c.isNontrivial ? s.hash() : 0, c.isNontrivial && st.samples.size() < 2 ? c.desc.str() : "", c.labels);
					} catch (Failure& f) {
						copyMsg(slot, f.msg);
						slot->state = 2;
						_exit(3);
					}
				} else {
					pid_t pid = fork();
					if (pid == 0) {
						armTimer(law.cpuLimit);
						Case c;
						Src s(cs, &slot->tape);
						try {
							bool ran = runHere(law, s, c);
							slot->discarded = !ran;
							slot->nontrivial = c.isNontrivial;
							slot->evals = c.numEvals;
							slot->hash = s.hash();
							std::string b = oneLine(c.desc.str()).substr(0, 2000) + "\n";
							for (auto& l : c.labels)
								if (b.size() + l.size() + 2 < sizeof slot->blob)
									b += l + "\n";
							memcpy(slot->blob, b.data(), b.size());
							slot->blobLen = b.size();
							slot->state = 0;
							_exit(0);
						} catch (Failure& f) {
							copyMsg(slot, f.msg);
							slot->state = 2;
							_exit(3);
						}
					}
					int wst = 0;
					while (waitpid(pid, &wst, 0) < 0 && errno == EINTR) { }
					if (!(slot->state == 0 && WIFEXITED(wst) && WEXITSTATUS(wst) == 0)) {
						if (slot->state == 1)
							copyMsg(slot, describeStatus(wst, slot));
						_exit(3);
					}
					std::vector<std::string> lines;
					std::istringstream is(std::string(slot->blob, slot->blobLen));
					std::string line;
					while (std::getline(is, line))
						lines.push_back(line);
					std::string d = lines.empty() ? "" : lines[0];
					if (!lines.empty())
						lines.erase(lines.begin());
					account(st, !slot->discarded, slot->nontrivial, slot->evals, slot->hash, d, lines);
				}
				slot->state = 0;
			}
		}
		armTimer(0);
		for (size_t i = 0; i < stats.size(); i++) {
			auto& s = stats[i];
			fprintf(out, "C %zu %lu %lu %lu %lu %d\n", i, s.cases, s.discards, s.evals, s.nontrivial, (int)capped);
			for (auto& [k, v] : s.labels)
				fprintf(out, "L %zu %lu %s\n", i, v, oneLine(k).c_str());
			for (auto h : s.hashes)
				fprintf(out, "H %zu %lu\n", i, h);
			for (auto& sm : s.samples)
				fprintf(out, "S %zu %s\n", i, oneLine(sm).c_str());
		}
		fflush(out);
		_exit(0);
	}

	std::vector<uint64_t> tapeVec(Slot* s) { return std::vector<uint64_t>(s->tape.data, s->tape.data + s->tape.count); }

	std::vector<uint64_t> shrink(const Law& law, std::vector<uint64_t> best, Slot* slot, double budget, uint64_t& attempts)
	{
		double end = now() + budget;
		auto tryIt = [&](const std::vector<uint64_t>& cand) {
			if (now() > end)
				return false;
			attempts++;
			Outcome o = runForked(law, &cand, nullptr, slot, nullptr, nullptr, std::min(law.cpuLimit, 10));
			if (!o.failed || slot->state == 3)
				return false;
			auto rec = tapeVec(slot);
			// Accept only strictly simpler sequences
			if (rec.size() < best.size() || (rec.size() == best.size() && rec < best)) {
				best = rec;
				return true;
			}
			return false;
		};
		bool improved = true;
		while (improved && now() < end) {
			improved = false;
			for (size_t block : { 256, 64, 32, 16, 8, 4, 3, 2, 1 }) {
				for (size_t i = best.size(); i-- > 0 && now() < end;) {
					if (i + block > best.size())
						continue;
					auto cand = best;
					cand.erase(cand.begin() + i, cand.begin() + i + block);
					if (tryIt(cand))
						improved = true;
					if (block >= 8)
						i = i >= block / 2 ? i - block / 2 : 0;
				}
			}
			for (size_t block : { 64, 8, 1 }) {
				for (size_t i = 0; i < best.size() && now() < end; i += block) {
					auto cand = best;
					bool any = false;
					for (size_t k = i; k < std::min(best.size(), i + block); k++) {
						any |= cand[k] != 0;
						cand[k] = 0;
					}
					if (any && tryIt(cand))
						improved = true;
				}
			}
			for (size_t i = 0; i < best.size() && now() < end; i++) {
				uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
				while (lo < hi && now() < end) {
					uint64_t mid = lo + (hi - lo) / 2;
					if (i >= best.size())
						break;
					auto cand = best;
					cand[i] = mid;
					if (tryIt(cand)) {
						improved = true;
						hi = i < best.size() ? std::min(best[i], mid) : 0;
					} else
						lo = mid + 1;
				}
			}
		}
		return best;
	}
}

int main(int argc, char** argv)
{
	std::string tier = "quick", evidence, replayDir, replayFile, replayBytes, onlyLaw, flavour = "";
	uint64_t seed = 1;
	double cap = 240, scale = 1, wallOffset = 0;
	int workers = 8;
	bool listLaws = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto next = [&] { return std::string(argv[++i]); };
		if (a == "--tier")
			tier = next();
		else if (a == "--seed")
			seed = std::stoull(next());
		else if (a == "--evidence")
			evidence = next();
		else if (a == "--replays")
			replayDir = next();
		else if (a == "--replay")
			replayFile = next();
		else if (a == "--replay-bytes")
			replayBytes = next();
		else if (a == "--law")
			onlyLaw = next();
		else if (a == "--cap")
			cap = std::stod(next());
		else if (a == "--scale")
			scale = std::stod(next());
		else if (a == "--workers")
			workers = std::stoi(next());
		else if (a == "--flavour")
			flavour = next();
		else if (a == "--list-laws")
			listLaws = true;
		else if (a == "--wall-offset")
			wallOffset = std::stod(next());
	}
	Property prop = property();
	if (listLaws) {
		for (auto& l : prop.laws)
			std::cout << l.name << " " << (l.fuzz && !l.isolate) << "\n";
		return 0;
	}
	rlimit rl { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	const double t0 = now();
	Slot* rslot = shared<Slot>();

	auto findLaw = [&](const std::string& n) -> const Law* {
		for (auto& l : prop.laws)
			if (l.name == n)
				return &l;
		return nullptr;
	};

	if (!replayFile.empty()) {
		std::ifstream in(replayFile);
		std::string line, lawName;
		std::vector<uint64_t> choices;
		while (std::getline(in, line)) {
			std::istringstream is(line);
			std::string k;
			is >> k;
			if (k == "law")
				is >> lawName;
			else if (k == "choices") {
				uint64_t n, v;
				is >> n;
				while (n-- && in >> v)
					choices.push_back(v);
			}
		}
		const Law* law = findLaw(lawName);
		if (!law) {
			std::cerr << "unknown law " << lawName << "\n";
			return 2;
		}
		std::string desc, err;
		Outcome o = runForked(*law, &choices, nullptr, rslot, &desc, &err);
		std::cout << "case: " << desc << "\n";
		if (o.failed) {
			std::cout << "law " << lawName << ": " << o.msg << "\n"
					  << err << "\n";
			std::cout << "VIOLATION property=" << prop.id << " replay=" << replayFile << std::endl;
			return 1;
		}
		std::cout << "law " << lawName << ": holds on this case\n";
		return 0;
	}

	const Law* failLaw = nullptr;
	std::vector<uint64_t> failChoices;
	std::string failMsg;
	std::vector<std::string> notes;
	bool timedOut = false;

	// Merge of all workers
	std::vector<Stats> stats(prop.laws.size());
	bool capped = false;

	if (!replayBytes.empty()) {
		const Law* law = findLaw(onlyLaw);
		if (!law)
			return 2;
		std::ifstream in(replayBytes, std::ios::binary);
		std::vector<uint8_t> bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
		Outcome o = runForked(*law, nullptr, &bytes, rslot);
		if (!o.failed) {
			std::cout << "saved input does not fail\n";
			return 0;
		}
		failLaw = law;
		failChoices = tapeVec(rslot);
		failMsg = o.msg;
		timedOut = rslot->state == 3;
	} else {
		std::vector<std::pair<int, uint64_t>> ends;
		uint64_t total = 0;
		// Isolated laws first: their cases are forked from a worker that has not
		// run any code of the library, so its generators are not seeded yet
		std::vector<size_t> order(prop.laws.size());
		for (size_t i = 0; i < order.size(); i++)
			order[i] = i;
		std::stable_partition(order.begin(), order.end(), [&](size_t i) { return prop.laws[i].isolate; });
		for (size_t i : order) {
			if (!onlyLaw.empty() && prop.laws[i].name != onlyLaw)
				continue;
			double n = prop.laws[i].quickCases * scale * (tier == "thorough" ? prop.laws[i].thoroughFactor : 1);
			total += std::max<uint64_t>(1, (uint64_t)n);
			ends.push_back({ (int)i, total });
		}
		if (ends.empty())
			return 2;

		// Rounds: after an unreproducible failure the search continues behind it.
		uint64_t start = 0;
		for (int round = 0; round < 6 && start < total; round++) {
			Shared* sh = shared<Shared>();
			sh->next = start;
			sh->stop = 0;
			uint64_t chunk = std::max<uint64_t>(1, std::min<uint64_t>(64, total / (workers * 16)));
			std::vector<Slot*> slots;
			std::vector<FILE*> outs, errs;
			std::vector<pid_t> pids;
			fflush(stdout);
			for (int w = 0; w < workers; w++) {
				slots.push_back(shared<Slot>());
				outs.push_back(tmpfile());
				errs.push_back(tmpfile());
				pid_t pid = fork();
				if (pid == 0) {
					dup2(fileno(errs[w]), 2);
					worker(prop, ends, sh, slots[w], outs[w], seed, t0 + cap, chunk);
				}
				pids.push_back(pid);
			}
			std::vector<int> bad;
			for (int k = 0; k < workers; k++) {
				int st = 0;
				pid_t p;
				while ((p = waitpid(-1, &st, 0)) < 0 && errno == EINTR) { }
				for (int w = 0; w < workers; w++) {
					if (pids[w] != p)
						continue;
					if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
						sh->stop = 1;
						bad.push_back(w);
						if (slots[w]->state != 2 && slots[w]->msg[0] == 0)
							copyMsg(slots[w], describeStatus(st, slots[w]));
					}
				}
			}
			for (int w = 0; w < workers; w++) {
				rewind(outs[w]);
				char* lineBuf = nullptr;
				size_t cp = 0;
				while (getline(&lineBuf, &cp, outs[w]) > 0) {
					std::istringstream is(lineBuf);
					std::string k;
					size_t li;
					is >> k >> li;
					auto& s = stats[li];
					if (k == "C") {
						uint64_t a, b, c, d;
						int e;
						is >> a >> b >> c >> d >> e;
						s.cases += a;
						s.discards += b;
						s.evals += c;
						s.nontrivial += d;
						capped |= e != 0;
					} else if (k == "L") {
						uint64_t v;
						std::string name;
						is >> v;
						is.get();
						std::getline(is, name);
						s.labels[name] += v;
					} else if (k == "H") {
						uint64_t v;
						is >> v;
						s.hashes.insert(v);
					} else if (k == "S") {
						std::string name;
						is.get();
						std::getline(is, name);
						if (s.samples.size() < 3)
							s.samples.push_back(name);
					}
				}
				free(lineBuf);
			}
			uint64_t reached = sh->next;
			std::sort(bad.begin(), bad.end(), [&](int a, int b) { return std::make_pair(slots[a]->law, slots[a]->index) < std::make_pair(slots[b]->law, slots[b]->index); });
			for (int w : bad) {
				const Law& law = prop.laws[slots[w]->law];
				auto choices = tapeVec(slots[w]);
				std::string err = tailFile(fileno(errs[w]));
				std::cout << "candidate failure: law " << law.name << " case " << slots[w]->index << ": " << slots[w]->msg << std::endl;
				int fails = 0;
				// A case that hangs is replayed once: it costs its CPU budget each time.
				timedOut = slots[w]->state == 3;
				const int replays = timedOut ? 1 : 3;
				for (int r = 0; r < replays; r++)
					fails += runForked(law, &choices, nullptr, rslot).failed;
				if (fails == replays) {
					failLaw = &law;
					failChoices = choices;
					failMsg = slots[w]->msg;
					break;
				}
				notes.push_back("unreproducible failure (" + std::to_string(fails) + "/" + std::to_string(replays) + " replays) law " + law.name + ": " + slots[w]->msg);
				std::cout << notes.back() << "\n"
						  << err << std::endl;
			}
			for (int w = 0; w < workers; w++) {
				munmap(slots[w], sizeof(Slot));
				fclose(outs[w]);
				fclose(errs[w]);
			}
			munmap(sh, sizeof(Shared));
			if (failLaw || bad.empty())
				break;
			start = reached;
		}
	}

	std::string replayPath;
	uint64_t shrinkAttempts = 0;
	if (failLaw) {
		auto small = timedOut ? failChoices : shrink(*failLaw, failChoices, rslot, getenv("VERIF_SHRINK") ? atof(getenv("VERIF_SHRINK")) : 40, shrinkAttempts);
		int fails = 0;
		std::string desc, err;
		Outcome last;
		for (int r = 0; r < (timedOut ? 0 : 3); r++) {
			Outcome o = runForked(*failLaw, &small, nullptr, rslot, &desc, &err);
			if (o.failed) {
				fails++;
				last = o;
			}
		}
		if (!timedOut && fails < 3) {
			small = failChoices;
			last = runForked(*failLaw, &small, nullptr, rslot, &desc, &err);
		}
		if (!last.failed)
			last.msg = failMsg;
		uint64_t h = 0;
		for (auto v : small)
			h = mix(h ^ v);
		char name[96];
		snprintf(name, sizeof name, "%s-%s-%08lx.replay", prop.id.c_str(), failLaw->name.c_str(), h & 0xffffffff);
		mkdir(replayDir.c_str(), 0777);
		replayPath = replayDir + "/" + name;
		std::ofstream out(replayPath);
		out << "property " << prop.id << "\nlaw " << failLaw->name << "\nseed " << seed << "\nflavour " << flavour << "\nmessage " << oneLine(last.msg) << "\ncase " << oneLine(desc) << "\nchoices " << small.size() << "\n";
		for (auto v : small)
			out << v << "\n";
		out.close();
		std::cout << "law " << failLaw->name << " fails: " << last.msg << "\n  case (" << small.size() << " choices, shrunk from " << failChoices.size() << " in " << shrinkAttempts << " attempts): " << desc << "\n"
				  << err << "\n";
	}

	uint64_t cases = 0, discards = 0, evals = 0, distinct = 0, nontriv = 0;
	for (auto& s : stats) {
		cases += s.cases;
		discards += s.discards;
		evals += s.evals;
		distinct += s.hashes.size();
		nontriv += s.nontrivial;
	}
	if (!evidence.empty()) {
		std::ofstream out(evidence);
		out << "{\n \"property\": " << jstr(prop.id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
		out << "  \"evaluations\": " << cases << ",\n  \"distinct_nontrivial\": " << distinct << ",\n  \"nontrivial_cases\": " << nontriv << ",\n  \"discarded_cases\": " << discards << ",\n  \"oracle_checks\": " << evals << ",\n  \"rule\": " << jstr(prop.rule) << ",\n  \"samples\": [";
		bool first = true;
		for (size_t i = 0; i < stats.size(); i++)
			for (auto& s : stats[i].samples) {
				out << (first ? "\n   " : ",\n   ") << jstr(prop.laws[i].name + ": " + s);
				first = false;
			}
		out << "],\n  \"laws\": {";
		first = true;
		for (size_t i = 0; i < stats.size(); i++) {
			auto& s = stats[i];
			if (!s.cases)
				continue;
			out << (first ? "\n   " : ",\n   ") << jstr(prop.laws[i].name) << ": {\"cases\": " << s.cases << ", \"discarded\": " << s.discards << ", \"nontrivial\": " << s.nontrivial << ", \"distinct_nontrivial\": " << s.hashes.size() << ", \"oracle_checks\": " << s.evals << ", \"classes\": {";
			bool f2 = true;
			for (auto& [k, v] : s.labels) {
				out << (f2 ? "" : ", ") << jstr(k) << ": " << v;
				f2 = false;
			}
			out << "}}";
			first = false;
		}
		out << "},\n  \"time_cap_reached\": " << (capped ? "true" : "false") << ",\n  \"notes\": [";
		for (size_t i = 0; i < notes.size(); i++)
			out << (i ? ", " : "") << jstr(notes[i]);
		out << "]\n },\n \"assumptions\": [";
		for (size_t i = 0; i < prop.assumptions.size(); i++)
			out << (i ? ", " : "") << jstr(prop.assumptions[i]);
		out << "],\n \"wall_s\": " << (now() - t0 + wallOffset) << ",\n \"violations\": " << (failLaw ? 1 : 0) << "\n}\n";
	}
	std::cout << prop.id << " [" << flavour << "] " << tier << " seed " << seed << ": " << cases << " cases, " << distinct << " distinct non-trivial, " << discards << " discarded, " << evals << " oracle checks, " << (now() - t0) << " s" << (capped ? " (time cap reached)" : "") << std::endl;
	for (size_t i = 0; i < stats.size(); i++) {
		auto& s = stats[i];
		if (!s.cases)
			continue;
		std::cout << "  " << prop.laws[i].name << ": " << s.cases << " cases, " << s.hashes.size() << " non-trivial, " << s.discards << " discarded;";
		for (auto& [k, v] : s.labels)
			std::cout << " " << k << "=" << v;
		std::cout << "\n";
	}
	if (failLaw) {
		std::cout << "VIOLATION property=" << prop.id << " replay=" << replayPath << std::endl;
		return 1;
	}
	return 0;
}
