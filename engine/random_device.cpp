// Deterministic stand-in for std::random_device: the library seeds its
// generators from it, so a case becomes a pure function of its choices.
#include "pbt.h"
#include <random>

static uint64_t g_state = 1;

namespace pbt {
	void setRandomSeed(uint64_t seed) { g_state = seed; }
}

namespace std {
	void random_device::_M_init(const std::string&) { }
	void random_device::_M_fini() { }
	random_device::result_type random_device::_M_getval()
	{
		return (result_type)(pbt::mix(g_state++) >> 16);
	}
}
