// C04: running over a memory range equals stepping over its bytes.
#include "obs.h"
const char* vf_prop = "C04";

namespace {

struct Ctx {
	vf::Run& run; const raw::Auto& a; const ref::Dfa& d; obs::Letters letters; bool big; obs::Guarded g; // big: one of the ranges is longer than sixteen bits can count
	Ctx(vf::Run& r, const raw::Auto& x, const ref::Dfa& y): run(r), a(x), d(y), letters(y), big(r.rng.chance(3)), g(big ? 40 : 3) {}
};

template<class Sc> std::string key(const Sc& sc, const typename Sc::State& st) { return obs::State<Sc>::key(sc, st); }

template<class Sc> typename Sc::State startState(vf::Rng& rng, const Sc& sc, const std::string& prefix, bool bm)
{
	typename Sc::State st; sc.Initialize(st);
	if (bm) Pire::Step(sc, st, Pire::BeginMark);
	for (size_t i = 0; i < prefix.size(); ++i) Pire::Step(sc, st, (unsigned char) prefix[i]);
	return st;
}

// What lies outside of the range: letters that matter to the scanner
void surround(obs::Guarded& g, const std::string& noise)
{
	for (char* p = g.begin(); p < g.end(); ) { size_t n = std::min<size_t>(noise.size(), g.end() - p); memcpy(p, noise.data(), n); p += n; }
}

// What the runner says about acceptance (a slow capturing scanner has no Final)
template<class Sc> struct Bool {
	static bool agrees(const Sc& sc, const Pire::RunHelper<Sc>& h, const typename Sc::State& want) { return (bool) h == sc.Final(want) && !h == !sc.Final(want); }
	static bool matches(const Sc& sc, const char* b, const char* e, const typename Sc::State& want) { return Pire::Matches(sc, b, e) == sc.Final(want); }
};
template<> struct Bool<Pire::SlowCapturingScanner> {
	typedef Pire::SlowCapturingScanner Sc;
	static bool agrees(const Sc&, const Pire::RunHelper<Sc>&, const Sc::State&) { return true; }
	static bool matches(const Sc&, const char*, const char*, const Sc::State&) { return true; }
};

template<class Sc> void one(Ctx& c, const Sc& sc, const char* kind)
{
	vf::Run& run = c.run; vf::Rng& rng = run.rng;
	int rounds = run.thorough ? 14 : 8;
	for (int round = 0; round < rounds; ++round) {
		size_t len = rng.chance(30) ? rng.below(34) : rng.chance(70) ? rng.below(200) : rng.below(900);
		if (c.big && !round) { len = rng.chance(50) ? rng.range(65500, 65570) : rng.range(65536, 150000); run.count("very long ranges"); }
		std::string t = obs::text(rng, c.d, c.letters, len);
		std::string prefix = obs::text(rng, c.d, c.letters, rng.chance(60) ? 0 : rng.below(12));
		bool bm = rng.chance(40);
		// expected: letter by letter
		typename Sc::State want = startState(rng, sc, prefix, bm);
		for (size_t i = 0; i < t.size(); ++i) Pire::Step(sc, want, (unsigned char) t[i]);
		std::string wantKey = key(sc, want);
		auto where = [&](const char* p) { return c.a.desc + " prefix \"" + vf::show(prefix) + "\" text \"" + vf::show(t) + "\" at address mod 16 = " + vf::str((size_t) p % 16) + " bytes to the page end " + vf::str(c.g.page - ((size_t) p % c.g.page)); };
		std::string noise = obs::text(rng, c.d, c.letters, 67);
		surround(c.g, noise);
		char* p = obs::place(rng, c.g, len);
		memcpy(p, t.data(), len);
		run.seen("alignment and length mod 16", ((size_t) p % 16) * 16 + len % 16);
		{
			typename Sc::State st = startState(rng, sc, prefix, bm);
			Pire::Run(sc, st, p, p + len);
			if (key(sc, st) != wantKey) run.fail(std::string(kind) + ":run-differs", where(p) + ": run " + obs::State<Sc>::show(sc, st) + ", stepping " + obs::State<Sc>::show(sc, want));
		}
		// split into consecutive ranges
		{
			typename Sc::State st = startState(rng, sc, prefix, bm);
			Pire::RunHelper<Sc> h(sc, st);
			size_t pos = 0; std::string cuts;
			while (pos < len) { size_t n = std::min(len - pos, rng.chance(30) ? 1 + rng.below(3) : len > 60000 ? rng.below(80000) : rng.below(60)); h.Run(p + pos, n); pos += n; cuts += " " + vf::str(pos); if (!n && rng.chance(50)) h.Run(p + pos, p + pos); }
			if (key(sc, h.State()) != wantKey) run.fail(std::string(kind) + ":split-run-differs", where(p) + " cut at" + cuts + ": " + obs::State<Sc>::show(sc, h.State()) + ", stepping " + obs::State<Sc>::show(sc, want));
			if (!Bool<Sc>::agrees(sc, h, want)) run.fail(std::string(kind) + ":runner-bool", where(p));
			run.count("ranges run", 1);
		}
		// whole texts, with marks
		if (round == 0) {
			Pire::RunHelper<Sc> h(sc); h.Begin().Run(Pire::ystring(p, len)).End();
			typename Sc::State st; sc.Initialize(st); Pire::Step(sc, st, Pire::BeginMark);
			for (size_t i = 0; i < t.size(); ++i) Pire::Step(sc, st, (unsigned char) t[i]);
			Pire::Step(sc, st, Pire::EndMark);
			if (key(sc, h.State()) != key(sc, st)) run.fail(std::string(kind) + ":runner-differs", where(p));
			typename Sc::State plain = startState(rng, sc, "", false);
			for (size_t i = 0; i < t.size(); ++i) Pire::Step(sc, plain, (unsigned char) t[i]);
			if (!Bool<Sc>::matches(sc, p, p + len, plain)) run.fail(std::string(kind) + ":matches-differs", where(p));
		}
		run.count("bytes run", 2 * len);
	}
	run.count(std::string("kind ") + kind);
}

template<class S1, class S2> void pair(Ctx& c, const S1& s1, const S2& s2, const char* kind)
{
	vf::Run& run = c.run; vf::Rng& rng = run.rng;
	for (int round = 0; round < 4; ++round) {
		size_t len = rng.chance(40) ? rng.below(34) : rng.below(200);
		if (c.big && !round) { len = rng.range(65500, 150000); run.count("very long ranges"); }
		std::string t = obs::text(rng, c.d, c.letters, len), prefix = obs::text(rng, c.d, c.letters, rng.below(5));
		typename S1::State a1 = startState(rng, s1, prefix, true), w1 = a1; typename S2::State a2 = startState(rng, s2, "", false), w2 = a2;
		for (size_t i = 0; i < len; ++i) { Pire::Step(s1, w1, (unsigned char) t[i]); Pire::Step(s2, w2, (unsigned char) t[i]); }
		char* p = obs::place(rng, c.g, len); memcpy(p, t.data(), len);
		Pire::Run(s1, s2, a1, a2, p, p + len);
		if (key(s1, a1) != key(s1, w1) || key(s2, a2) != key(s2, w2))
			run.fail(std::string(kind) + ":pair-run-differs", c.a.desc + " prefix \"" + vf::show(prefix) + "\" text \"" + vf::show(t) + "\" alignment " + vf::str((size_t) p % 16));
		// the pair as a scanner of its own
		typedef Pire::ScannerPair<S1, S2> P; P pr(s1, s2); typename P::State ps; pr.Initialize(ps);
		typename S1::State i1; s1.Initialize(i1); typename S2::State i2; s2.Initialize(i2);
		Pire::Step(pr, ps, Pire::BeginMark); Pire::Step(s1, i1, Pire::BeginMark); Pire::Step(s2, i2, Pire::BeginMark);
		Pire::Run(pr, ps, p, p + len);
		for (size_t i = 0; i < len; ++i) { Pire::Step(s1, i1, (unsigned char) t[i]); Pire::Step(s2, i2, (unsigned char) t[i]); }
		if (key(s1, ps.first) != key(s1, i1) || key(s2, ps.second) != key(s2, i2)) run.fail(std::string(kind) + ":pair-scanner-differs", c.a.desc + " text \"" + vf::show(t) + "\"");
		if (pr.Final(ps) != (s1.Final(i1) || s2.Final(i2))) run.fail(std::string(kind) + ":pair-final", c.a.desc);
		if (pr.Dead(ps) != (s1.Dead(i1) && s2.Dead(i2))) run.fail(std::string(kind) + ":pair-dead", c.a.desc);
	}
	run.count("pairs of scanners");
}

// Patterns whose searches loop on all letters but one, two, or more, as shortcuts need
raw::Auto search(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	raw::Auto a;
	if (rng.chance(20)) { a = raw::any(run); if (rng.chance(50)) { a.fsm.Surround(); a.nfa = ref::surround(a.nfa); a.desc = "surrounded " + a.desc; } return a; }
	std::string w; int n = 1 + rng.below(4);
	ref::Nfa nfa = ref::empty(); Pire::Fsm f;
	std::string d;
	for (int i = 0; i < n; ++i) {
		// letters or a small set: each state of the search leaves on a few bytes
		int k = rng.below(10);
		unsigned c1 = rng.chance(50) ? 'a' + rng.below(4) : rng.below(256), c2 = rng.chance(50) ? 'A' + rng.below(3) : rng.below(256);
		if (k < 5) { f.Append((char) c1); nfa = ref::cat(nfa, ref::sym(ref::one(c1))); d += vf::show(std::string(1, (char) c1)); }
		else if (k < 8) { Pire::Fsm x, y; x.Append((char) c1); y.Append((char) c2); f += (x | y); nfa = ref::cat(nfa, ref::sym(ref::one(c1) | ref::one(c2))); d += "[" + vf::show(std::string(1, (char) c1) + std::string(1, (char) c2)) + "]"; }
		else if (k < 9) { Pire::Fsm x; x.AppendDot(); f += *x; nfa = ref::cat(nfa, ref::star(ref::sym(ref::anyByte()))); d += ".*"; }
		else { f.AppendDot(); nfa = ref::cat(nfa, ref::sym(ref::anyByte())); d += "."; }
	}
	switch (rng.below(4)) {
	case 0: case 1: f.Surround(); nfa = ref::surround(nfa); d = "search " + d; break;
	case 2: f.PrependAnything(); nfa = ref::cat(ref::anything(), nfa); d = "ends with " + d; break;
	default: f.AppendAnything(); nfa = ref::cat(nfa, ref::anything()); d = "starts with " + d; break;
	}
	a.fsm = f; a.nfa = nfa; a.desc = d;
	return a;
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	raw::Auto a = search(run);
	ref::Dfa d = ref::minimize(ref::determinize(a.nfa, 800));
	if (d.size() > 200) throw ref::TooBig();
	Ctx c(run, a, d);
	size_t shortcuts = 0, noexit = 0;
	for (size_t q = 0; q < d.size(); ++q) { size_t e = 0; for (unsigned s = 0; s < 256; ++s) e += d.step(q, s) != (int) q; if (e == 0) ++noexit; else if (e <= 2) ++shortcuts; }
	run.seen("states that loop on all bytes but at most two", shortcuts);
	if (noexit) run.count("automata with states that loop on every byte");
	Pire::Fsm f(a.fsm);
	int k = rng.below(14);
	Pire::Fsm f1(f); Pire::Scanner sc = f1.Compile<Pire::Scanner>();
	switch (k) {
	case 0: case 1: one(c, sc, "multi"); break;
	case 2: { Pire::ScannerNoMask s = f.Compile<Pire::ScannerNoMask>(); one(c, s, "multi-nomask"); break; }
	case 3: { Pire::NonrelocScanner s = f.Compile<Pire::NonrelocScanner>(); one(c, s, "nonreloc"); break; }
	case 4: { Pire::NonrelocScannerNoMask s = f.Compile<Pire::NonrelocScannerNoMask>(); one(c, s, "nonreloc-nomask"); break; }
	case 5: { Pire::SimpleScanner s = f.Compile<Pire::SimpleScanner>(); one(c, s, "simple"); break; }
	case 6: { Pire::SlowScanner s = f.Compile<Pire::SlowScanner>(); one(c, s, "slow"); break; }
	case 7: { Pire::HalfFinalScanner s(f); one(c, s, "half-final"); Pire::NonrelocHalfFinalScanner s2(f); one(c, s2, "half-final-nonreloc"); break; }
	case 8: { // glued
		raw::Auto b = search(run); ref::Dfa bd = ref::determinize(b.nfa, 300);
		Pire::Scanner g = Pire::Scanner::Glue(sc, b.fsm.Compile<Pire::Scanner>());
		if (!g.Empty()) { one(c, g, "glued"); Pire::NonrelocScanner n(g); one(c, n, "glued-nonreloc"); }
		break; }
	case 9: {
		Pire::Fsm re, sep; re.Append((char) c.letters.members[rng.below(c.letters.members.size())][0]); sep.AppendDot(); sep.Iterate();
		Pire::CountingScanner s1(re, sep); one(c, s1, "counting"); Pire::AdvancedCountingScanner s2(re, sep); one(c, s2, "advanced-counting"); Pire::NoGlueLimitCountingScanner s3(re, sep); one(c, s3, "no-glue-limit-counting");
		break; }
	case 10: {
		pat::Features pf; Pire::Lexer lx(std::string(rng.chance(50) ? ".*(a+)b.*" : "x*([^a]*).*")); lx.AddFeature(Pire::Features::Capture(1));
		Pire::Fsm cf = lx.Parse(); Pire::SlowCapturingScanner ss(cf); Pire::Lexer lx2(std::string(".*(a+)[^a].*")); lx2.AddFeature(Pire::Features::Capture(1));
		Pire::Fsm cf2 = lx2.Parse(); Pire::CapturingScanner cs(cf2); one(c, cs, "capturing");
		if (rng.chance(40)) one(c, ss, "slow-capturing");
		break; }
	case 11: { // mapped at an address that is only word aligned
		std::ostringstream o; sc.Save(&o); std::string img = o.str();
		std::vector<char> buf(img.size() + 64); char* p = (char*) (((size_t) buf.data() + 15) / 16 * 16) + rng.below(3) * 8;
		memcpy(p, img.data(), img.size()); Pire::Scanner m; m.Mmap(p, img.size());
		one(c, m, "mapped"); break; }
	default: {
		Pire::Fsm g(f); Pire::SimpleScanner simple = g.Compile<Pire::SimpleScanner>();
		raw::Auto b = search(run); Pire::NonrelocScanner other = b.fsm.Compile<Pire::NonrelocScanner>();
		switch (rng.below(4)) {
		case 0: pair(c, sc, other, "multi+nonreloc"); break;
		case 1: pair(c, simple, sc, "simple+multi"); break;
		case 2: { Pire::Scanner s2(sc); pair(c, sc, s2, "multi+multi"); break; }
		default: { Pire::Fsm h(f); Pire::SlowScanner slow = h.Compile<Pire::SlowScanner>(); pair(c, slow, other, "slow+nonreloc"); }
		}
	}
	}
	if (d.size() > 1) run.nontrivial(a.desc + vf::str(k));
	run.sample(a.desc.substr(0, 200) + ": " + vf::str(d.size()) + " states, " + vf::str(shortcuts) + " with few exits");
}
