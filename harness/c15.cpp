// C15: approximate matching.
// Oracle: for every prefix of the text and every state of the original language's automaton, the least number of edits that
// brings the automaton there (dynamic programming over the definition of the distance: insertion, deletion, substitution of
// a letter and swap of two neighbouring letters, none edited twice).  Capped at the distance plus one this is a finite
// state, so that scanner and oracle can be walked together over all texts.
#include "zoo.h"
const char* vf_prop = "C15";

namespace {

typedef std::vector<unsigned char> Costs;

struct Edits {
	const ref::Dfa& d; size_t dist; std::vector<std::vector<int> > next; // next[q]: the distinct live successors by any letter
	std::vector<unsigned> rep;
	struct Pos { Costs cur, prev; int last; Pos(): last(-1) {} std::string key() const { return std::string(cur.begin(), cur.end()) + "/" + std::string(prev.begin(), prev.end()) + "/" + vf::str(last); } };
	Edits(const ref::Dfa& a, size_t n): d(a), dist(n), next(a.size()), rep(a.ncls) {
		for (size_t q = 0; q < d.size(); ++q) { std::set<int> s; for (int c = 0; c < d.ncls; ++c) if (d.live[d.next[q * d.ncls + c]]) s.insert(d.next[q * d.ncls + c]); next[q].assign(s.begin(), s.end()); }
		for (unsigned c = ref::NSYM; c-- > 0;) rep[d.cls[c]] = c;
	}
	void put(Costs& v, int q, size_t c) const { if (d.live[q] && c < v[q]) v[q] = c; }
	// letters of the original text that are missing
	void deletions(Costs& v) const { for (size_t k = 0; k < dist; ++k) for (size_t q = 0; q < d.size(); ++q) if (v[q] == k) for (int t : next[q]) put(v, t, k + 1); }
	Pos start() const { Pos p; p.cur.assign(d.size(), dist + 1); put(p.cur, d.start, 0); deletions(p.cur); p.prev.assign(d.size(), dist + 1); return p; }
	Pos step(const Pos& p, unsigned letter) const {
		Pos n; int c = d.cls[letter]; n.cur.assign(d.size(), dist + 1);
		for (size_t q = 0; q < d.size(); ++q) {
			if (p.cur[q] <= dist) {
				put(n.cur, d.next[q * d.ncls + c], p.cur[q]);                // the letter itself
				for (int t : next[q]) put(n.cur, t, p.cur[q] + 1);           // instead of another one
				put(n.cur, q, p.cur[q] + 1);                                 // an additional letter
			}
			if (p.last >= 0 && p.prev[q] < dist) { int t = d.next[q * d.ncls + c]; put(n.cur, d.next[t * d.ncls + p.last], p.prev[q] + 1); } // swapped with the one before
		}
		deletions(n.cur);
		n.prev = p.cur; n.last = c;
		return n;
	}
	bool accepted(const Pos& p) const { for (size_t q = 0; q < d.size(); ++q) if (d.fin[q] && p.cur[q] <= dist) return true; return false; }
	bool alive(const Pos& p) const { for (size_t q = 0; q < d.size(); ++q) if (d.live[q] && p.cur[q] <= dist) return true; return false; }
};

std::vector<unsigned> stepLetters(vf::Rng& r, const ref::Dfa& d)
{
	std::vector<std::vector<unsigned> > m(d.ncls); for (unsigned c = 0; c < ref::NSYM; ++c) m[d.cls[c]].push_back(c);
	std::vector<unsigned> v; for (auto& x : m) { v.push_back(x[r.below(x.size())]); if (x.size() > 1) v.push_back(x[r.below(x.size())]); }
	v.push_back(r.below(256)); v.push_back(ref::BM); v.push_back(ref::EM);
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}

template<class Sc> size_t walk(vf::Run& run, const Sc& sc, const Edits& e, const std::string& desc, size_t maxPairs, bool deads)
{
	struct Item { Edits::Pos p; typename Sc::State st; int parent; unsigned sym; };
	std::deque<Item> items; std::unordered_set<std::string> seen;
	Item i0; i0.p = e.start(); sc.Initialize(i0.st); i0.parent = -1; i0.sym = 0; items.push_back(i0);
	seen.insert(i0.p.key() + "|" + vw::Ident<Sc>::key(sc, i0.st));
	auto path = [&](size_t i) { std::vector<unsigned> w; for (int k = i; items[k].parent >= 0; k = items[k].parent) w.push_back(items[k].sym); std::reverse(w.begin(), w.end()); return ref::showWord(w); };
	size_t yes = 0;
	for (size_t i = 0; i < items.size(); ++i) {
		const Item it = items[i];
		bool want = e.accepted(it.p), got = sc.Final(it.st); yes += want;
		if (want != got) run.fail(want ? "rejects-within-distance" : "accepts-beyond-distance", desc + " text \"" + path(i) + "\"");
		// while some text within the distance goes on here, the scanner may not give up
		if (deads && sc.Dead(it.st) && e.alive(it.p)) run.fail("dead-though-alive", desc + " after \"" + path(i) + "\"");
		for (unsigned s : stepLetters(run.rng, e.d)) {
			Item n; n.st = it.st; Pire::Step(sc, n.st, vw::letter(s)); n.p = e.step(it.p, s); n.parent = i; n.sym = s;
			if (items.size() < maxPairs && seen.insert(n.p.key() + "|" + vw::Ident<Sc>::key(sc, n.st)).second) items.push_back(n);
			run.count("transitions checked");
		}
	}
	if (items.size() >= maxPairs) run.count("walks cut at the pair limit");
	run.count("pairs visited", items.size()); run.count("accepting pairs", yes); run.seen("pairs per walk", items.size());
	return items.size();
}

// Random words near the language and the edges of the distance
std::vector<unsigned> editedWord(vf::Rng& r, const ref::Dfa& d, size_t edits)
{
	std::vector<unsigned> w = ref::randomWord(d, r, 12, false);
	for (size_t k = 0; k < edits; ++k) switch (r.below(4)) {
	case 0: w.insert(w.begin() + r.below(w.size() + 1), r.chance(50) ? 'a' + r.below(4) : r.below(256)); break;
	case 1: if (!w.empty()) w.erase(w.begin() + r.below(w.size())); break;
	case 2: if (!w.empty()) w[r.below(w.size())] = r.chance(50) ? 'a' + r.below(4) : r.below(256); break;
	default: if (w.size() > 1) { size_t x = r.below(w.size() - 1); std::swap(w[x], w[x + 1]); }
	}
	return w;
}

template<class Sc> void halfFinal(vf::Run& run, const Pire::Fsm& f, const ref::Dfa& d, size_t dist, const std::string& desc)
{
	Sc sc(f, dist); Edits e(d, dist);
	for (int k = 0; k < 40; ++k) {
		std::vector<unsigned> w = editedWord(run.rng, d, run.rng.below(dist + 3));
		if (run.rng.chance(50)) w.insert(w.begin(), ref::BM);
		w.push_back(ref::EM);
		typename Sc::State st; sc.Initialize(st); Edits::Pos p = e.start();
		for (unsigned c : w) { Pire::Step(sc, st, vw::letter(c)); p = e.step(p, c); }
		auto a = sc.AcceptedRegexps(st); bool got = a.first != a.second, want = e.accepted(p);
		if (got != want) run.fail(want ? "half-final:rejects-within-distance" : "half-final:accepts-beyond-distance", desc + " text \"" + ref::showWord(w) + "\"");
		run.count("half-final texts"); if (want) run.count("half-final texts accepted");
	}
}

std::string literal(vf::Rng& r, ref::Nfa& n)
{
	std::string s; int len = r.range(1, 9); n = ref::empty(); const char* al = r.chance(50) ? "ab" : "abcdefgh"; size_t m = strlen(al);
	for (int i = 0; i < len; ++i) { char c = al[r.below(m)]; s += c; n = ref::cat(n, ref::sym(ref::one((unsigned char) c))); }
	return s;
}

raw::Auto source(vf::Run& run, bool simple)
{
	vf::Rng& r = run.rng; raw::Auto a; int k = simple ? r.below(4) : r.below(10);
	if (k < 3) { a.desc = literal(r, a.nfa); a.fsm = Pire::Lexer(a.desc).Parse(); a.desc = "word /" + a.desc + "/"; return a; }
	if (k < 7) {
		pat::Features f; f.random(r); f.andnot = false; // complements would contain letters that no text has
		pat::Gen g(r, f); g.smallAlphabet = r.chance(60); pat::Pattern p = g.pattern(r.range(1, 7));
		a.fsm = vu::parse(p.text, f); a.nfa = p.nfa; a.desc = "pattern /" + pat::showText(p.text) + "/ " + f.show(); return a;
	}
	return raw::random(r, 8, r.chance(25));
}

// How many pairs of neighbouring letters the automaton can read: each makes a state of the approximate one
size_t swaps(const Pire::Fsm& src)
{
	Pire::Fsm f(src); f.RemoveEpsilons(); f.Unsparse(); size_t n = 0;
	std::vector<std::map<size_t, size_t> > to(f.Size());
	for (size_t q = 0; q < f.Size(); ++q) for (Pire::Char c = 0; c < Pire::MaxChar; ++c) if (c != Pire::Epsilon) for (size_t t : f.Destinations(q, c)) ++to[q][t];
	for (size_t q = 0; q < f.Size(); ++q) for (auto& x : to[q]) for (auto& y : to[x.first]) if (x.first != q || y.first != q) n += x.second * y.second;
	return n;
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& r = run.rng;
	int kind = r.below(8); static const char* const kinds[] = {"multi", "nonreloc", "nomask", "simple", "slow", "plain automaton", "half-final", "half-final nonreloc"};
	raw::Auto a; ref::Dfa d; bool surround; size_t dist, cost; int tries = 0;
	for (;; ++tries) {
		if (tries > 8) { run.count("skipped: too big"); return; }
		a = source(run, kind > 5); dist = r.chance(8) ? 0 : r.chance(60) ? 1 : r.chance(75) ? 2 : 3;
		surround = kind > 5 || r.chance(15);
		if (surround) { a.fsm.Surround(); ref::Nfa any = ref::star(ref::sym(ref::anySym())); a.nfa = ref::cat(ref::cat(any, a.nfa), any); a.desc += " surrounded"; }
		try { d = ref::minimize(ref::determinize(a.nfa, 300)); } catch (const ref::TooBig&) { continue; }
		if (d.size() > 14 || (d.size() > 8 && dist > 2)) continue;
		cost = swaps(a.fsm) * dist;
#ifdef __SANITIZE_ADDRESS__
		if (cost < 6000 || (cost < 60000 && r.below(50) == 0)) break;
#else
		if (cost < 10000 || (cost < 200000 && r.below(30) == 0)) break;
#endif
	}
	run.seen("sizes of the approximate automaton", cost);
	Edits e(d, dist);
	std::string desc = a.desc + " distance " + vf::str(dist) + " " + kinds[kind];
	size_t limit = run.thorough ? 6000 : 1500, pairs = 0;
	Pire::Fsm f(a.fsm);
	try {
		switch (kind) {
		case 0: pairs = walk(run, f.Compile<Pire::Scanner>(dist), e, desc, limit, true); break;
		case 1: pairs = walk(run, f.Compile<Pire::NonrelocScanner>(dist), e, desc, limit, true); break;
		case 2: pairs = walk(run, f.Compile<Pire::ScannerNoMask>(dist), e, desc, limit, true); break;
		case 3: pairs = walk(run, f.Compile<Pire::SimpleScanner>(dist), e, desc, limit, true); break;
		case 4: pairs = walk(run, f.Compile<Pire::SlowScanner>(dist), e, desc, std::min<size_t>(limit, 1000), false); break;
		case 5: { // from an automaton that cannot change
			const Pire::Fsm c(a.fsm); Pire::Fsm x = Pire::CreateApproxFsm(c, dist); if (r.chance(50)) x.Canonize(); pairs = walk(run, x.Compile<Pire::Scanner>(), e, desc, limit, true); break; }
		default: {
			if (kind == 6) halfFinal<Pire::HalfFinalScanner>(run, f, d, dist, desc); else halfFinal<Pire::NonrelocHalfFinalScannerNoMask>(run, f, d, dist, desc); pairs = 2; }
		}
	} catch (const Pire::Error& x) {
		if (std::string(x.what()).find("too complicated") == std::string::npos) throw;
		run.count("too complicated to determine"); return;
	}
	run.count(std::string("distance ") + vf::str(dist)); run.count(std::string("kind ") + kinds[kind]);
	if (d.size() > 2 && pairs > 1 && dist) run.nontrivial(desc);
	run.sample(desc);
}
