// Small choice-sequence property-based testing engine.
//
// Every random decision of a generated case is drawn through `Src`, which
// records it as an integer.  A case is therefore a list of integers: it can be
// replayed exactly, shrunk without knowing what it means, and produced either
// by a seeded PRNG (pbt_main) or by libFuzzer (pbt_fuzz).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt {

	/// Thrown by a property when its oracle is violated.
	struct Failure {
		std::string msg;
	};
	/// Thrown to reject a case that is outside the property's domain.
	struct Discard { };

	inline uint64_t mix(uint64_t x)
	{
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}

	inline uint64_t hashStr(const char* s)
	{
		uint64_t h = 1469598103934665603ull;
		for (; *s; ++s)
			h = (h ^ (unsigned char)*s) * 1099511628211ull;
		return h;
	}

	/// Where the recorded choices live.  The storage is in shared memory when
	/// the case runs in a child process, so that it survives a crash.
	struct Tape {
		uint64_t count = 0;
		static constexpr uint64_t capacity = 1u << 18;
		uint64_t data[capacity];
	};

	class Src {
	public:
		enum Mode { PRNG, REPLAY, BYTES };
		Src(uint64_t seed, Tape* tape) :
			m_mode(PRNG), m_state(seed), m_tape(tape) { m_tape->count = 0; }
		Src(const std::vector<uint64_t>& choices, Tape* tape) :
			m_mode(REPLAY), m_choices(&choices), m_tape(tape) { m_tape->count = 0; }
		Src(const uint8_t* d, size_t n, Tape* tape) :
			m_mode(BYTES), m_bytes(d), m_nbytes(n), m_tape(tape) { m_tape->count = 0; }

		/// Uniform in [0, max].
		uint64_t draw(uint64_t max)
		{
			uint64_t v = 0;
			if (m_mode == PRNG) {
				uint64_t r = next();
				v = max == UINT64_MAX ? r : (uint64_t)(((unsigned __int128)r * (max + 1)) >> 64);
			} else if (m_mode == REPLAY) {
				if (m_pos < m_choices->size())
					v = (*m_choices)[m_pos++];
				if (v > max)
					v = max == UINT64_MAX ? v : v % (max + 1);
			} else {
				uint64_t m = max;
				while (m > 0 && m_pos < m_nbytes) {
					v = (v << 8) | m_bytes[m_pos++];
					m >>= 8;
				}
				if (v > max)
					v = max == UINT64_MAX ? v : v % (max + 1);
			}
			if (m_tape->count < Tape::capacity)
				m_tape->data[m_tape->count++] = v;
			return v;
		}

		int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo)); }
		bool boolean() { return draw(1) != 0; }
		/// true with probability num/den; shrinks to false.
		bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
		template <typename T>
		const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
		template <typename T>
		T oneOf(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
		/// Size biased towards small values in [lo, hi].
		int size(int lo, int hi)
		{
			switch (draw(3)) {
			case 0:
				return lo + (int)draw(std::min(hi - lo, 3));
			case 1:
				return lo + (int)draw((hi - lo) / 4);
			default:
				return lo + (int)draw(hi - lo);
			}
		}
		/// Real number in [lo, hi]: a mixture of coarse lattice values, fine
		/// values and the ends.  Shrinks towards lo.
		double real(double lo, double hi)
		{
			switch (draw(4)) {
			case 0:
				return lo + (hi - lo) * (draw(8) / 8.0);
			case 1:
				return lo + (hi - lo) * (draw(60) / 60.0);
			default:
				return lo + (hi - lo) * (draw((1ull << 40)) / (double)(1ull << 40));
			}
		}
		/// Uniform real number in [lo, hi]
		double uniform(double lo, double hi)
		{
			return lo + (hi - lo) * (draw((1ull << 40)) / (double)(1ull << 40));
		}
		/// Signed magnitude in [-max, max], spread over decades, with exact zeros; shrinks to 0.
		double signedMag(double max)
		{
			double v = 0;
			switch (draw(4)) {
			case 0:
				v = 0;
				break;
			case 1:
				v = max * (draw(16) / 16.0);
				break;
			case 2: {
				int e = (int)draw(8);
				v = max * std::pow(10.0, -e) * uniform(0, 1);
				break;
			}
			default:
				v = max * uniform(0, 1);
			}
			return boolean() ? -v : v;
		}
		/// Angle in [-pi, pi] with a bias to multiples of pi/4 and neighbours.
		double angle()
		{
			static const double pi = 3.14159265358979323846;
			switch (draw(4)) {
			case 0:
				return 0.0;
			case 1: {
				int k = range(-4, 4);
				return k * pi / 4;
			}
			case 2: {
				int k = range(-4, 4);
				double v = k * pi / 4 + signedMag(1e-3);
				return std::min(pi, std::max(-pi, v));
			}
			default:
				return uniform(-pi, pi);
			}
		}
		/// Draw the choice number @at from another seed, keeping all others (PRNG only).
		void patch(uint64_t at, uint64_t seed) { m_patches.push_back({ at, seed }); }
		uint64_t position() const { return m_tape->count; }
		uint64_t hash() const
		{
			uint64_t h = 0x1234567;
			for (uint64_t i = 0; i < m_tape->count; i++)
				h = mix(h ^ m_tape->data[i]) + i;
			return h;
		}

	private:
		uint64_t next()
		{
			uint64_t state = m_state++;
			for (auto& [at, seed] : m_patches)
				if (at == m_tape->count)
					state = seed;
			return mix(state);
		}

	private:
		Mode m_mode;
		uint64_t m_state = 0;
		const std::vector<uint64_t>* m_choices = nullptr;
		const uint8_t* m_bytes = nullptr;
		size_t m_nbytes = 0;
		size_t m_pos = 0;
		std::vector<std::pair<uint64_t, uint64_t>> m_patches;
		Tape* m_tape;
	};

	/// What a case reports about itself.
	class Case {
	public:
		/// Count the case in class @name (coverage histogram).
		void label(const std::string& name) { labels.push_back(name); }
		void label(const char* name, bool cond)
		{
			if (cond)
				labels.push_back(name);
		}
		/// The case exercises what the property is about.
		void nontrivial(bool cond = true) { isNontrivial = isNontrivial || cond; }
		/// Human readable description, kept for samples and failures.
		template <typename T>
		Case& operator<<(const T& v)
		{
			desc << v;
			return *this;
		}
		/// Add @n oracle evaluations.
		void evals(uint64_t n = 1) { numEvals += n; }

		template <typename... Args>
		void check(bool cond, Args&&... args)
		{
			numEvals++;
			if (!cond)
				fail(std::forward<Args>(args)...);
		}
		template <typename... Args>
		[[noreturn]] void fail(Args&&... args)
		{
			std::ostringstream os;
			os.precision(17);
			(os << ... << args);
			throw Failure { os.str() };
		}
		void assume(bool cond)
		{
			if (!cond)
				throw Discard();
		}

		std::vector<std::string> labels;
		bool isNontrivial = false;
		uint64_t numEvals = 0;
		std::ostringstream desc;
		Case() { desc.precision(10); }
	};

	/// One executable law of a property.
	struct Law {
		std::string name;
		/// Number of cases in the quick tier (thorough multiplies it).
		uint64_t quickCases;
		std::function<void(Src&, Case&)> run;
		/// Fork one process per case (code under test keeps process-wide state).
		bool isolate = false;
		/// CPU seconds after which a case counts as non-terminating.
		int cpuLimit = 60;
		/// multiplier of the thorough tier
		uint64_t thoroughFactor = 30;
		/// Include in the coverage guided campaign of the thorough tier
		bool fuzz = true;
	};

	struct Property {
		std::string id;
		std::string rule;
		std::vector<Law> laws;
		std::vector<std::string> assumptions;
	};

	/// Defined by each property file.
	Property property();

	/// Seed that the interposed std::random_device hands out.
	void setRandomSeed(uint64_t seed);
}
