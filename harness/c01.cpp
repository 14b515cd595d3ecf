// C01: the language of a compiled pattern is the one its syntax tree denotes.
#include "walk.h"
#include "util.h"
const char* vf_prop = "C01";

static void one(vf::Run& run, const pat::Features& f, const pat::Pattern& p)
{
	ref::Dfa d = ref::minimize(ref::determinize(p.nfa, 1500));
	if (d.size() > 500) throw ref::TooBig();
	auto desc = [&]() { return "pattern /" + pat::showText(p.text) + "/ " + f.show(); };
	Pire::Fsm fsm;
	try { fsm = vu::parse(p.text, f); }
	catch (const Pire::Error& e) { run.fail("valid-pattern-rejected", desc() + ": " + e.what()); }
	size_t pairs;
	switch (run.rng.below(4)) {
	case 0: { Pire::Fsm c(fsm); c.RemoveDeadEnds(); pairs = vw::walk1(run, c.Compile<Pire::SimpleScanner>(), d, "simple", desc); break; }
	case 1: { // nondeterministic
		Pire::Fsm c(fsm); pairs = vw::walk1(run, c.Compile<Pire::SlowScanner>(), d, "slow", desc, false, 1500); break; }
	default: pairs = vw::walk1(run, fsm.Compile<Pire::Scanner>(), d, "multi", desc);
	}
	// Searching for the pattern anywhere, as users do
	if (run.rng.chance(25)) {
		try {
			ref::Dfa ds = ref::minimize(ref::determinize(ref::surround(p.nfa), 800));
			Pire::Fsm s = vu::parse(p.text, f).Surround();
			auto desc2 = [&]() { return "surrounded " + desc(); };
			vw::walk1(run, s.Compile<Pire::Scanner>(), ds, "surrounded", desc2);
			run.count("searches (surrounded)");
		} catch (const ref::TooBig&) {}
	}
	run.seen("reference states", d.size());
	if (d.size() > 2) run.nontrivial(f.show() + pat::showText(p.text));
	if (pairs > 3) run.sample(pat::showText(p.text) + " [" + f.show() + "] " + vf::str(d.size()) + " states, " + vf::str(pairs) + " pairs");
}

void vf_case(vf::Run& run)
{
	pat::Features f; f.random(run.rng);
	pat::Gen g(run.rng, f);
	int size = run.rng.chance(50) ? run.rng.range(1, 5) : run.rng.range(5, run.thorough ? 22 : 14);
	if (run.rng.chance(20)) g.smallAlphabet = true;
	pat::Pattern p = g.pattern(size);
	one(run, f, p);
	run.count("features " + f.show());
	for (std::map<std::string, int>::iterator i = g.shapes.begin(); i != g.shapes.end(); ++i) run.count("syntax: " + i->first, i->second);
}
