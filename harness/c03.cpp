// C03: every scanner kind accepts the language of the automaton it was compiled from, with consistent sizes.
#include "rawfsm.h"
const char* vf_prop = "C03";

template<class Sc> static void sizes(vf::Run& run, const Sc& sc, const std::string& kind, const std::function<std::string()>& desc)
{
	if (sc.Empty()) run.fail(kind + ":empty", desc() + ": the compiled scanner claims to be empty");
	if (sc.RegexpsCount() != 1) run.fail(kind + ":regexps-count", desc() + ": RegexpsCount=" + vf::str(sc.RegexpsCount()));
	// distinct states have distinct indices and a state keeps its index
	std::map<size_t, typename Sc::State> byIndex; std::vector<typename Sc::State> q(1);
	sc.Initialize(q[0]); byIndex[sc.StateIndex(q[0])] = q[0];
	for (size_t i = 0; i < q.size() && q.size() < 3000; ++i) for (unsigned s = 0; s < ref::NSYM; ++s) {
		typename Sc::State st(q[i]); Pire::Step(sc, st, vw::letter(s));
		size_t idx = sc.StateIndex(st);
		if (idx >= sc.Size()) run.fail(kind + ":state-index-out-of-range", desc());
		auto it = byIndex.insert(std::make_pair(idx, st));
		if (it.second) q.push_back(st);
		else if (it.first->second != st) run.fail(kind + ":two-states-one-index", desc() + " index " + vf::str(idx));
	}
}

template<class Sc> static void fast(vf::Run& run, const raw::Auto& a, const ref::Dfa& d, const char* kind, const std::function<std::string()>& desc)
{
	Pire::Fsm f(a.fsm);
	Sc sc = f.Compile<Sc>();
	vw::walk1(run, sc, d, kind, desc);
	sizes(run, sc, kind, desc);
	run.count(std::string("kind ") + kind);
}
// A half-final scanner tells after a text and the end mark whether the automaton accepts them
template<class Sc> static void half(vf::Run& run, const raw::Auto& a, const ref::Dfa& d, const char* kind, const std::function<std::string()>& desc)
{
	Sc sc(a.fsm);
	std::string k(kind);
	if (sc.Empty() || sc.RegexpsCount() != 1) run.fail(k + ":sizes", desc());
	struct Item { int q; typename Sc::State st; std::vector<unsigned> w; };
	std::deque<Item> items; std::set<std::pair<std::pair<int, size_t>, bool> > seen;
	items.push_back(Item()); items[0].q = d.start; sc.Initialize(items[0].st);
	for (size_t i = 0; i < items.size() && items.size() < 3000; ++i) {
		Item it = items[i];
		if (sc.StateIndex(it.st) >= sc.Size()) run.fail(k + ":state-index-out-of-range", desc());
		for (unsigned s = 0; s < ref::NSYM; ++s) {
			Item n; n.q = d.step(it.q, s); n.st = it.st; Pire::Step(sc, n.st, vw::letter(s));
			if (s == ref::EM) {
				bool want = d.fin[n.q];
				std::vector<size_t> got = vw::accepted(sc, n.st);
				if (got != std::vector<size_t>(want ? 1 : 0, 0) || (n.st.Result(0) > 0) != want)
					run.fail(k + (want ? ":rejects-member" : ":accepts-nonmember"), desc() + " text \"" + ref::showWord(it.w) + "<End>\" Result=" + vf::str(n.st.Result(0)));
				continue;
			}
			if (seen.insert(std::make_pair(std::make_pair(n.q, sc.StateIndex(n.st)), n.st.Result(0) > 0)).second) { n.w = it.w; n.w.push_back(s); items.push_back(n); }
		}
	}
	run.count("pairs visited", items.size());
	run.count(std::string("kind ") + kind);
}
template<class Sc> static void emptyScanner(vf::Run& run, const char* kind)
{
	Sc sc;
	std::string k(kind);
	if (!sc.Empty()) run.fail(k + ":default-not-empty", "default constructed scanner is not Empty()");
	if (sc.RegexpsCount() != 0) run.fail(k + ":default-regexps-count", vf::str(sc.RegexpsCount()));
	ref::Dfa none = ref::determinize(ref::nothing());
	vw::Opts o; o.numbering = false;
	vw::walk(run, sc, std::vector<const ref::Dfa*>(1, &none), k, []() { return std::string("default constructed scanner"); }, o);
}

// An automaton of more states than sixteen bits can count: the letter that many places back must be the right one.
template<class Sc> static void bigKind(vf::Run& run, Pire::Fsm& f, const std::string& al, int n, const char* kind, const std::string& desc)
{
	vf::Rng& rng = run.rng; std::string k(kind); Sc sc = f.Compile<Sc>();
	if (sc.Empty() || sc.RegexpsCount() != 1) run.fail("big:" + k + ":sizes", desc);
	std::stringstream io; sc.Save(&io); Sc loaded; loaded.Load(&io);
	std::map<unsigned, size_t> index; std::map<size_t, unsigned> back;
	for (int t = 0; t < 400; ++t) {
		const Sc& x = t & 1 ? loaded : sc; typename Sc::State st; x.Initialize(st); unsigned w = 0; bool ok = true; std::string text;
		for (int i = rng.range(0, 90); i >= 0; --i) {
			bool fin = ok && (w >> n & 1);
			if (x.Final(st) != fin) run.fail("big:" + k + (fin ? ":rejects-member" : ":accepts-nonmember"), desc + " text \"" + text + "\"");
			if (x.Dead(st) && ok) run.fail("big:" + k + ":dead-though-alive", desc + " text \"" + text + "\"");
			size_t idx = x.StateIndex(st); unsigned id = ok ? w : ~0u;
			if (idx >= x.Size()) run.fail("big:" + k + ":state-index-out-of-range", desc + " text \"" + text + "\"");
			if (index.insert(std::make_pair(id, idx)).first->second != idx || back.insert(std::make_pair(idx, id)).first->second != id) run.fail("big:" + k + ":two-states-one-index", desc + " text \"" + text + "\" index " + vf::str(idx));
			char c = rng.chance(99) || i > 20 ? al[rng.below(2)] : (char) rng.below(128);
			Pire::Step(x, st, (unsigned char) c); text += c; w = (w << 1 | (c == al[0])) & ((2u << n) - 1); if (al.find(c) == std::string::npos) ok = false;
		}
	}
	run.count("texts over a big automaton", 400); run.seen("states of a big automaton seen", index.size());
}
static void big(vf::Run& run)
{
	vf::Rng& rng = run.rng; std::string al = rng.chance(50) ? "ab" : "x0"; int n = rng.range(14, 16);
	std::string s = "[" + al + "]*" + al.substr(0, 1) + "[" + al + "]{" + vf::str(n) + "}"; Pire::Lexer lexer(s.begin(), s.end()); Pire::Fsm f = lexer.Parse();
	std::string desc = "big /" + s + "/";
	if (!f.Determine()) run.fail("big:not-determined", desc);
	f.Minimize();
	if (f.Size() < (2u << n) || f.Size() > (2u << n) + 1) run.fail("big:not-minimal", desc + ": " + vf::str(f.Size()) + " states");
	switch (rng.below(5)) {
	case 0: bigKind<Pire::NonrelocScanner>(run, f, al, n, "nonreloc", desc); break;
	case 1: bigKind<Pire::SimpleScanner>(run, f, al, n, "simple", desc); break;
	case 2: bigKind<Pire::ScannerNoMask>(run, f, al, n, "multi-nomask", desc); break;
	default: bigKind<Pire::Scanner>(run, f, al, n, "multi", desc);
	}
	run.count("automata of tens of thousands of states"); run.nontrivial(desc); run.sample(desc);
}

void vf_case(vf::Run& run)
{
	vf::Rng& rng = run.rng;
#ifndef __SANITIZE_ADDRESS__
	if (run.idx % 1000 == 77) return big(run);
#endif
	if (run.idx % 500 == 0) {
		emptyScanner<Pire::Scanner>(run, "multi"); emptyScanner<Pire::ScannerNoMask>(run, "multi-nomask");
		emptyScanner<Pire::NonrelocScanner>(run, "nonreloc"); emptyScanner<Pire::NonrelocScannerNoMask>(run, "nonreloc-nomask");
		emptyScanner<Pire::SimpleScanner>(run, "simple"); emptyScanner<Pire::SlowScanner>(run, "slow");
		emptyScanner<Pire::HalfFinalScanner>(run, "half-final");
		run.count("default constructed scanners of every kind");
	}
	raw::Auto a;
	int k = rng.below(100);
	if (k < 70) a = raw::any(run);
	else if (k < 92) a = raw::random(rng, 30, rng.chance(60));
	else a = raw::big(rng, rng.range(2, run.thorough ? 60 : 25), rng.range(2, 257));
	ref::Dfa d = ref::minimize(ref::determinize(a.nfa, 1200));
	if (d.size() > 400) throw ref::TooBig();
	auto desc = [&]() { return a.desc; };
	unsigned kinds = rng.chance(25) ? 0xFFF : (1u << rng.below(8)) | (1u << rng.below(8)) | (1u << rng.below(6));
	size_t accepting = 0;
	for (size_t i = 0; i < d.size(); ++i) accepting += d.fin[i];
	if (kinds & 1) fast<Pire::Scanner>(run, a, d, "multi", desc);
	if (kinds & 2) fast<Pire::ScannerNoMask>(run, a, d, "multi-nomask", desc);
	if (kinds & 4) fast<Pire::NonrelocScanner>(run, a, d, "nonreloc", desc);
	if (kinds & 8) fast<Pire::NonrelocScannerNoMask>(run, a, d, "nonreloc-nomask", desc);
	if (kinds & 16) fast<Pire::SimpleScanner>(run, a, d, "simple", desc);
	if (kinds & 32) {
		Pire::Fsm f(a.fsm);
		if (rng.chance(30)) f.RemoveDeadEnds();
		Pire::SlowScanner sc = f.Compile<Pire::SlowScanner>();
		if (sc.Empty() || sc.RegexpsCount() != 1) run.fail("slow:sizes", a.desc);
		vw::walk1(run, sc, d, "slow", desc, false, 1200);
		run.count("kind slow");
	}
	if (kinds & 64) {
		// the automaton after determinising, as users who compile several kinds from one automaton have it
		Pire::Fsm f(a.fsm); Pire::Scanner s1 = f.Compile<Pire::Scanner>();
		Pire::SimpleScanner s2 = f.Compile<Pire::SimpleScanner>(); Pire::SlowScanner s3 = f.Compile<Pire::SlowScanner>();
		Pire::NonrelocScanner s4 = f.Compile<Pire::NonrelocScanner>();
		vw::walk1(run, s2, d, "simple-second", desc); vw::walk1(run, s3, d, "slow-third", desc, false, 1200); vw::walk1(run, s4, d, "nonreloc-fourth", desc);
		run.count("several kinds from one automaton object");
	}
	if (kinds & 128) {
		// a search, or an automaton some of whose accepted texts can be continued to rejected ones
		bool open = false;
		for (size_t q = 0; q < d.size() && !open; ++q) if (d.fin[q]) for (unsigned s = 0; s < ref::NSYM; ++s) if (!d.fin[d.step(q, s)]) { open = true; break; }
		raw::Auto h = a; ref::Dfa hd = d;
		if (!open || rng.chance(60)) {
			h.fsm.Surround(); h.desc = "surrounded " + h.desc;
			hd = ref::minimize(ref::determinize(ref::surround(ref::toNfa(d)), 1500));
		}
		auto hdesc = [&]() { return h.desc; };
		switch (rng.below(4)) {
		case 0: half<Pire::HalfFinalScanner>(run, h, hd, "half-final", hdesc); break;
		case 1: half<Pire::HalfFinalScannerNoMask>(run, h, hd, "half-final-nomask", hdesc); break;
		case 2: half<Pire::NonrelocHalfFinalScanner>(run, h, hd, "half-final-nonreloc", hdesc); break;
		default: half<Pire::NonrelocHalfFinalScannerNoMask>(run, h, hd, "half-final-nonreloc-nomask", hdesc);
		}
	}
	run.seen("reference states", d.size());
	run.seen("letter classes", d.ncls);
	if (d.size() > 2) run.nontrivial(a.desc + vf::str(kinds));
	run.sample(a.desc.substr(0, 300) + " -> " + vf::str(d.size()) + " states, " + vf::str(d.ncls) + " letter classes");
}
