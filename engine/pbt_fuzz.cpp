// libFuzzer entry: the fuzzer's bytes become the choice sequence of one law.
#include "pbt.h"
#include <cstdlib>

using namespace pbt;

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
	static Property prop = property();
	static Tape* tape = new Tape();
	static const Law* law = nullptr;
	if (!law) {
		const char* n = getenv("PBT_LAW");
		for (auto& l : prop.laws)
			if (n && l.name == n)
				law = &l;
		if (!law)
			abort();
	}
	Src s(data, size, tape);
	Case c;
	try {
		law->run(s, c);
	} catch (Discard&) {
	} catch (Failure& f) {
		fprintf(stderr, "oracle failure: %s\n", f.msg.c_str());
		abort();
	} catch (std::exception& e) {
		fprintf(stderr, "unexpected exception: %s\n", e.what());
		abort();
	}
	return 0;
}
