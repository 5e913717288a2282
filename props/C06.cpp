// C06: every path RRT returns is a chain of validated, bounded motions from the start to the goal region.
#include "rrt_gen.h"
using namespace pbt;

Property pbt::property()
{
	using Algo = Planner::RRTR2;
	using P = Planner::RRTParameters;
	Property p;
	p.id = "C06";
	p.rule = "random planar worlds with disc obstacles that change between the searches, three kinds of connections (straight, L-shaped, straight but twice as long uphill), starts, goals, step lengths, goal biases, iteration and node budgets, 1-3 searches per planner. scripted: samples chosen by the generator, compared with a brute-force reference search; sampled: the library's own sampler, seeded, one process per case; large: trees of up to 1500 nodes; bias: nothing is valid, how often the goal is aimed at. Non-trivial: a returned path of more than three states.";
	p.assumptions = { "the initial state is valid", "the user's validator decides which motions are valid (here: sampled connections against discs)" };
	p.laws = {
		{ "scripted", 12000, rrtgen::scripted<Algo, P, false> },
		{ "sampled", 4000, rrtgen::sampled<Algo, P, false>, true, 60, 15, false },
		{ "large", 160, rrtgen::large<Algo, P, false> },
		{ "bias", 400, rrtgen::bias<Algo, P, false>, true, 60, 15, false },
	};
	return p;
}
