// C09: final and dead reports describe the state's future exactly, also after copying, gluing and serialisation.
#include "rawfsm.h"
const char* vf_prop = "C09";

namespace {

typedef std::function<std::string()> Desc;

template<class Sc> void exact(vf::Run& run, const Sc& sc, const ref::Dfa& d, const std::string& kind, const Desc& desc)
{
	vw::walk1(run, sc, d, kind, desc, true, 3000);
	run.count("kind " + kind);
	// a run over random bytes from some state: once dead, dead and not final for good; final exactly when accepted
	vf::Rng& rng = run.rng;
	for (int i = 0; i < 3; ++i) {
		typename Sc::State st; sc.Initialize(st); int q = d.start; bool dead = false;
		std::vector<unsigned> w = ref::randomWord(d, rng, 40);
		for (size_t j = 0; j < w.size(); ++j) {
			if (sc.Final(st) != (bool) d.fin[q]) run.fail(kind + ":final-in-run", desc() + " text \"" + ref::showWord(w) + "\" after " + vf::str(j));
			bool now = sc.Dead(st);
			if (dead && (!now || sc.Final(st))) run.fail(kind + ":dead-came-alive", desc() + " text \"" + ref::showWord(w) + "\" after " + vf::str(j));
			dead = dead || now;
			Pire::Step(sc, st, vw::letter(w[j])); q = d.step(q, w[j]);
		}
	}
}

// Kinds which never claim to be dead
template<class Sc> void never(vf::Run& run, const Sc& sc, const std::string& kind, const Desc& desc)
{
	std::vector<typename Sc::State> q(1); std::set<size_t> seen;
	sc.Initialize(q[0]); seen.insert(sc.StateIndex(q[0]));
	for (size_t i = 0; i < q.size() && q.size() < 500; ++i) {
		if (sc.Dead(q[i])) run.fail(kind + ":claims-dead", desc());
		for (unsigned s = 0; s < ref::NSYM; ++s) { typename Sc::State st(q[i]); Pire::Step(sc, st, vw::letter(s)); if (seen.insert(sc.StateIndex(st)).second) q.push_back(st); }
	}
	run.count("kind " + kind);
}

template<class Sc> Sc reload(const Sc& sc) { std::stringstream s; sc.Save(&s); Sc r; r.Load(&s); return r; }

struct Image { std::vector<char> buf; char* p; size_t n;
	template<class Sc> explicit Image(const Sc& sc) { std::ostringstream o; sc.Save(&o); std::string s = o.str(); n = s.size(); buf.resize(n + 16); p = (char*) (((size_t) buf.data() + 15) / 16 * 16); memcpy(p, s.data(), n); } };

template<class Sc, class Other> void kind(vf::Run& run, const raw::Auto& a, const ref::Dfa& d, const std::string& name)
{
	vf::Rng& rng = run.rng;
	Pire::Fsm f(a.fsm);
	Desc desc = [&]() { return a.desc; };
	Sc sc = f.Compile<Sc>();
	switch (rng.below(6)) {
	case 0: exact(run, sc, d, name, desc); break;
	case 1: { Sc c(sc); Sc e; e = c; c = Sc(); exact(run, e, d, name + "-copied", desc); break; }
	case 2: exact(run, reload(sc), d, name + "-reloaded", desc); break;
	case 3: { Other o(sc); exact(run, o, d, name + "-converted", desc); Sc back(o); exact(run, back, d, name + "-converted-back", desc); break; }
	case 4: { // glued
		raw::Auto b = raw::any(run, 8, 6); ref::Dfa bd = ref::minimize(ref::determinize(b.nfa, 200));
		if (bd.size() * d.size() > 1500) throw ref::TooBig();
		Sc g = Sc::Glue(sc, b.fsm.Compile<Sc>());
		if (g.Empty()) break;
		std::vector<const ref::Dfa*> v; v.push_back(&d); v.push_back(&bd);
		vw::Opts o; o.dead = vw::DeadExact; o.maxPairs = 3000;
		Desc gd = [&]() { return a.desc + " glued with " + b.desc; };
		switch (rng.below(3)) {
		case 0: vw::walk(run, g, v, name + "-glued", gd, o); break;
		case 1: vw::walk(run, reload(g), v, name + "-glued-reloaded", gd, o); break;
		default: { Other x(g); vw::walk(run, x, v, name + "-glued-converted", gd, o); }
		}
		run.count("kind " + name + "-glued"); break; }
	default: { Sc m(sc); m = sc; Sc e(std::move(m)); exact(run, e, d, name + "-moved", desc); }
	}
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	raw::Auto a;
	int k = rng.below(10);
	if (k < 5) a = raw::any(run, 14, 10);
	else if (k < 8) a = raw::random(rng, 25, rng.chance(50));
	else { // complements have states from which everything is accepted, and the other way round
		a = raw::any(run, 8, 6); a.nfa = ref::complement(a.nfa); a.fsm.Complement(); a.desc = "complement of " + a.desc;
		// The letter table is padded with letters that nobody feeds, and the complement has them: keep to real texts
		Pire::Fsm real; for (unsigned c = 0; c < ref::NSYM; ++c) real.Connect(0, 0, vw::letter(c)); real.SetFinal(0, true);
		a.fsm &= real;
	}
	if (rng.chance(15)) { a.fsm.Surround(); a.nfa = ref::surround(a.nfa); a.desc = "surrounded " + a.desc; }
	ref::Dfa d = ref::minimize(ref::determinize(a.nfa, 800));
	if (d.size() > 200) throw ref::TooBig();
	Desc desc = [&]() { return a.desc; };
	size_t deadStates = 0; for (size_t i = 0; i < d.size(); ++i) deadStates += !d.live[i];
	int m = rng.below(13);
	switch (m) {
	case 0: case 1: case 2: kind<Pire::Scanner, Pire::NonrelocScanner>(run, a, d, "multi"); break;
	case 3: kind<Pire::ScannerNoMask, Pire::NonrelocScannerNoMask>(run, a, d, "multi-nomask"); break;
	case 4: case 5: kind<Pire::NonrelocScanner, Pire::Scanner>(run, a, d, "nonreloc"); break;
	case 6: kind<Pire::NonrelocScannerNoMask, Pire::ScannerNoMask>(run, a, d, "nonreloc-nomask"); break;
	case 7: { Pire::Fsm f(a.fsm); Pire::SimpleScanner s = f.Compile<Pire::SimpleScanner>(); exact(run, rng.chance(50) ? s : reload(s), d, "simple", desc); break; }
	case 8: { Pire::Fsm f(a.fsm); Pire::SlowScanner s = f.Compile<Pire::SlowScanner>(); exact(run, rng.chance(50) ? s : reload(s), d, "slow", desc); break; }
	case 9: { Pire::Fsm f(a.fsm); Pire::Scanner s = f.Compile<Pire::Scanner>(); Image im(s); Pire::Scanner r; r.Mmap(im.p, im.n); exact(run, r, d, "multi-mapped", desc); Pire::Scanner c(r); exact(run, c, d, "multi-mapped-copied", desc); break; }
	case 10: { // two scanners as one: dead when both are
		raw::Auto b = raw::any(run, 8, 6); ref::Dfa bd = ref::minimize(ref::determinize(b.nfa, 200));
		Pire::Fsm f(a.fsm); Pire::Scanner s1 = f.Compile<Pire::Scanner>(); Pire::NonrelocScanner s2 = b.fsm.Compile<Pire::NonrelocScanner>();
		typedef Pire::ScannerPair<Pire::Scanner, Pire::NonrelocScanner> P; P pr(s1, s2);
		struct It { P::State st; int p, q; }; std::vector<It> q(1); pr.Initialize(q[0].st); q[0].p = d.start; q[0].q = bd.start;
		std::set<std::pair<int,int> > seen;
		for (size_t i = 0; i < q.size() && q.size() < 1500; ++i) {
			bool dead = !d.live[q[i].p] && !bd.live[q[i].q], fin = d.fin[q[i].p] || bd.fin[q[i].q];
			if (pr.Dead(q[i].st) != dead) run.fail(dead ? "pair:alive-though-dead" : "pair:dead-though-alive", a.desc + " and " + b.desc);
			if (pr.Final(q[i].st) != fin) run.fail("pair:final", a.desc + " and " + b.desc);
			for (unsigned s = 0; s < ref::NSYM; ++s) { It n = q[i]; Pire::Step(pr, n.st, vw::letter(s)); n.p = d.step(n.p, s); n.q = bd.step(n.q, s); if (seen.insert(std::make_pair(n.p, n.q)).second) q.push_back(n); }
		}
		run.count("pairs visited", q.size()); run.count("kind pair"); break; }
	case 11: { Pire::Fsm f(a.fsm); if (d.ncls < 200) { Pire::CapturingScanner s(f); never(run, s, "capturing", desc); } break; }
	default: { Pire::Fsm re, sep; re.Append('a'); sep.AppendDot(); sep.Iterate(); Pire::Fsm f(a.fsm); bool nullable = d.fin[d.start];
		if (!nullable && d.ncls < 200 && d.size() < 20) { try { Pire::CountingScanner s(f, sep); never(run, s, "counting", desc); } catch (const Pire::Error&) {} }
		Pire::AdvancedCountingScanner s2(re, sep); never(run, s2, "advanced-counting", desc); Pire::NoGlueLimitCountingScanner s3(re, sep); never(run, s3, "no-glue-limit-counting", desc); }
	}
	if (deadStates) run.count("languages with dead states");
	if (d.live[d.start] && deadStates) run.nontrivial(a.desc + vf::str(m));
	run.sample(a.desc.substr(0, 300) + ": " + vf::str(d.size()) + " states, " + vf::str(deadStates) + " dead");
}
