// C07: every path RRT* returns is a chain of validated motions from the start exactly to the goal, each state attached by its cheapest known connection.
#include "rrt_gen.h"
using namespace pbt;

Property pbt::property()
{
	using Algo = Planner::RRTStarR2;
	using P = Planner::RRTStarParameters;
	Property p;
	p.id = "C07";
	p.rule = "random planar worlds with disc obstacles that change between the searches, three kinds of connections (straight, L-shaped, straight but twice as long uphill), starts, goals, step lengths, goal biases, iteration and node budgets, 1-3 searches per planner. scripted: samples chosen by the generator, success and path length compared with a brute-force reference search; sampled: the library's own sampler, seeded, one process per case; large: trees of up to 1500 nodes; bias: nothing is valid, how often the goal is aimed at. Non-trivial: a returned path of more than three states.";
	p.assumptions = { "the initial state is valid", "the user's validator decides which motions are valid (here: sampled connections against discs)" };
	p.laws = {
		{ "scripted", 9000, rrtgen::scripted<Algo, P, true> },
		{ "sampled", 3000, rrtgen::sampled<Algo, P, true>, true, 60, 15, false },
		{ "large", 160, rrtgen::large<Algo, P, true> },
		{ "bias", 400, rrtgen::bias<Algo, P, true>, true, 60, 15, false },
	};
	return p;
}
