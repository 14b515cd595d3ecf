// C07: gluing scanners gives exactly the union, with the right numbering of patterns.
#include "rawfsm.h"
const char* vf_prop = "C07";

namespace {

template<class Sc> struct Part { Sc sc; std::vector<size_t> refs; std::string d; };
typedef std::vector<ref::Dfa> Refs;

template<class Sc> std::string image(const Sc& sc) { std::ostringstream o; sc.Save(&o); return o.str(); }

// Reachable pairs of states of two scanners, over all letters the library knows
template<class Sc> size_t product(const Sc& a, const Sc& b, size_t limit)
{
	typedef std::pair<typename Sc::State, typename Sc::State> P;
	P p; a.Initialize(p.first); b.Initialize(p.second);
	std::set<std::pair<size_t, size_t> > seen; std::vector<P> q(1, p);
	seen.insert(std::make_pair(a.StateIndex(p.first), b.StateIndex(p.second)));
	for (size_t i = 0; i < q.size(); ++i) for (unsigned c = 0; c < Pire::MaxChar; ++c) if (c != Pire::Epsilon) {
		P n = q[i]; a.Next(n.first, c); b.Next(n.second, c);
		if (seen.insert(std::make_pair(a.StateIndex(n.first), b.StateIndex(n.second))).second) { q.push_back(n); if (q.size() > limit) return q.size(); }
	}
	return q.size();
}

// How an operand came to be
template<class Sc> struct Via {
	static Sc go(vf::Run& run, const Sc& sc, std::vector<std::vector<char> >& keep) {
		switch (run.rng.below(6)) {
		case 0: { std::string s = image(sc); std::istringstream i(s); Sc r; r.Load(&i); run.count("operands loaded"); return r; }
		case 1: { Sc r; r = sc; run.count("operands assigned"); return r; }
		case 2: return mapped(run, sc, keep, (Sc*) 0);
		default: return sc;
		}
	}
	template<class S> static S mapped(vf::Run&, const S& sc, std::vector<std::vector<char> >&, S*) { return sc; }
	template<class Sh> static Pire::Impl::Scanner<Pire::Impl::Relocatable, Sh> mapped(vf::Run& run, const Pire::Impl::Scanner<Pire::Impl::Relocatable, Sh>& sc, std::vector<std::vector<char> >& keep, Pire::Impl::Scanner<Pire::Impl::Relocatable, Sh>*) {
		std::string s = image(sc); keep.push_back(std::vector<char>(s.size() + 16)); char* p = (char*) (((size_t) keep.back().data() + 15) / 16 * 16); memcpy(p, s.data(), s.size());
		Pire::Impl::Scanner<Pire::Impl::Relocatable, Sh> r; r.Mmap(p, s.size()); run.count("operands mapped"); return r;
	}
};

raw::Auto some(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	raw::Auto a;
	int k = rng.below(10);
	if (k < 5) a = raw::any(run, 10, 8);
	else if (k < 8) { // short words and searches
		std::string w; for (int i = rng.below(6); i > 0; --i) w += 'a' + rng.below(3);
		a.fsm.Append(w); a.nfa = ref::word(w); a.desc = "word \"" + w + "\"";
	}
	else if (k < 9) { a.fsm = Pire::Fsm::MakeFalse(); a.nfa = ref::nothing(); a.desc = "nothing"; }
	else { a = raw::random(rng, 8, rng.chance(50)); }
	int m = rng.below(10);
	if (m < 4) { a.fsm.Surround(); a.nfa = ref::surround(a.nfa); a.desc = "surrounded " + a.desc; }
	else if (m < 6) { a.fsm.PrependAnything(); a.nfa = ref::cat(ref::anything(), a.nfa); a.desc = "ends with " + a.desc; }
	return a;
}

template<class Sc> void multi(vf::Run& run, const char* kind)
{
	vf::Rng& rng = run.rng;
	std::string k(kind);
	size_t n = rng.chance(60) ? rng.range(2, 3) : rng.range(2, run.thorough ? 8 : 6);
	Refs refs; std::vector<Part<Sc> > pool; std::vector<std::vector<char> > keep;
	std::vector<std::pair<Sc, std::string> > originals; std::vector<std::string> descs;
	for (size_t i = 0; i < n; ++i) {
		Part<Sc> p;
		if (i && rng.chance(10)) { size_t j = rng.below(originals.size()); if (originals[j].first.Empty()) { ++n; if (n > 20) throw ref::TooBig(); continue; } p.sc = originals[j].first; refs.push_back(refs[j]); p.d = "copy of " + descs[j]; run.count("the same pattern twice"); }
		else if (rng.chance(5)) { p.d = "empty"; run.count("empty operands"); descs.push_back(p.d); originals.push_back(std::make_pair(p.sc, image(p.sc))); pool.push_back(p); refs.push_back(ref::determinize(ref::nothing())); continue; }
		else {
			raw::Auto a = some(run);
			ref::Dfa d = ref::minimize(ref::determinize(a.nfa, 300));
			if (d.size() > 40) throw ref::TooBig();
			p.sc = Via<Sc>::go(run, Sc(a.fsm), keep); refs.push_back(d); p.d = a.desc;
		}
		p.refs.push_back(refs.size() - 1);
		descs.push_back(p.d); originals.push_back(std::make_pair(p.sc, image(p.sc)));
		pool.push_back(p);
	}
	n = pool.size();
	std::string d;
	while (pool.size() > 1) {
		size_t i = rng.below(pool.size()), j = rng.below(pool.size() - 1); if (j >= i) ++j;
		Part<Sc> x = pool[i], y = pool[j], r;
		bool self = rng.chance(4);
		size_t states = x.sc.Empty() || y.sc.Empty() ? 0 : product(x.sc, self ? x.sc : y.sc, 4000);
		if (states > 3000) { run.count("skipped: product too big"); return; }
		r.d = "Glue(" + x.d + ", " + (self ? "itself" : y.d) + ")";
		if (x.sc.Empty()) run.count("left operand empty"); else if (y.sc.Empty()) run.count("right operand empty");
		std::string bx = image(x.sc), by = image(y.sc);
		if (states && rng.chance(30)) { // limits around the size
			size_t limit = rng.chance(80) ? (size_t) std::max<long>(1, (long) states - 3 + (long) rng.below(7)) : rng.range(1, states + 2);
			Sc g = Sc::Glue(x.sc, self ? x.sc : y.sc, limit);
			std::string dd = r.d + " limit " + vf::str(limit) + ", needs " + vf::str(states) + " states";
			if (states > limit + 1 && !g.Empty()) run.fail(k + ":limit-exceeded", dd + ", got " + vf::str(g.Size()));
			if (states <= limit && g.Empty()) run.fail(k + ":empty-within-limit", dd);
			if (g.Empty() && g.RegexpsCount() != 0) run.fail(k + ":empty-regexps-count", dd);
			run.count(g.Empty() ? "limits exceeded" : "limits kept");
		}
		r.sc = Sc::Glue(x.sc, self ? x.sc : y.sc);
		r.refs = x.refs; r.refs.insert(r.refs.end(), (self ? x : y).refs.begin(), (self ? x : y).refs.end());
		if (image(x.sc) != bx || image(y.sc) != by) run.fail(k + ":operand-changed", r.d);
		if (!r.refs.empty() && r.sc.Empty()) run.fail(k + ":empty-result", r.d);
		if (r.sc.RegexpsCount() != r.refs.size()) run.fail(k + ":regexps-count", r.d + ": " + vf::str(r.sc.RegexpsCount()) + " expected " + vf::str(r.refs.size()));
		if (states && r.sc.Size() > states) run.fail(k + ":too-many-states", r.d + ": " + vf::str(r.sc.Size()) + " states, " + vf::str(states) + " reachable pairs");
		pool[i] = r; pool.erase(pool.begin() + j);
		run.count("gluings");
		if (pool.size() == 1 || rng.chance(30)) {
			std::vector<const ref::Dfa*> v; for (size_t q = 0; q < r.refs.size(); ++q) v.push_back(&refs[r.refs[q]]);
			vw::Opts o; o.dead = vw::DeadExact; o.maxPairs = 4000;
			if (r.sc.Empty()) o.dead = vw::DeadIgnore;
			vw::walk(run, r.sc, v, k, [&]() { return r.d; }, o);
			run.seen("patterns in one scanner", r.refs.size()); run.seen("glued sizes", r.sc.Size());
		}
		d = r.d;
	}
	for (size_t i = 0; i < n; ++i) if (image(originals[i].first) != originals[i].second) run.fail(k + ":operand-changed", descs[i]);
	if (rng.chance(30)) { size_t i = rng.below(n); if (!originals[i].first.Empty()) { vw::walk1(run, originals[i].first, refs[i], k + ":operand", [&]() { return descs[i] + " after " + d; }, true); } }
	run.nontrivial(k + d);
	run.sample(k + " " + d.substr(0, 400));
}

// Half-final scanners list a pattern after the text and the end mark
template<class Sc> void half(vf::Run& run, const char* kind)
{
	vf::Rng& rng = run.rng;
	std::string k(kind), d;
	Refs refs; std::vector<std::pair<Sc, std::vector<size_t> > > pool; std::vector<std::string> ds;
	size_t n = rng.range(2, 4);
	for (size_t i = 0; i < n; ++i) {
		raw::Auto a = some(run);
		a.fsm.Surround(); a.nfa = ref::surround(a.nfa); a.desc = "search of " + a.desc;
		ref::Dfa x = ref::minimize(ref::determinize(a.nfa, 300)); if (x.size() > 25) throw ref::TooBig();
		pool.push_back(std::make_pair(Sc(a.fsm), std::vector<size_t>(1, i))); refs.push_back(x); ds.push_back(a.desc);
	}
	while (pool.size() > 1) {
		size_t i = rng.below(pool.size()), j = rng.below(pool.size() - 1); if (j >= i) ++j;
		ds[i] = "Glue(" + ds[i] + ", " + ds[j] + ")";
		Sc g = Sc::Glue(pool[i].first, pool[j].first);
		if (g.Empty()) run.fail(k + ":empty-result", ds[i]);
		pool[i].first = g; pool[i].second.insert(pool[i].second.end(), pool[j].second.begin(), pool[j].second.end());
		pool.erase(pool.begin() + j); ds.erase(ds.begin() + j);
		run.count("gluings");
	}
	const Sc& sc = pool[0].first; const std::vector<size_t>& order = pool[0].second; d = ds[0];
	if (sc.RegexpsCount() != n) run.fail(k + ":regexps-count", d);
	struct Item { std::vector<int> q; typename Sc::State st; std::vector<unsigned> w; };
	std::deque<Item> items(1); for (size_t i = 0; i < n; ++i) items[0].q.push_back(refs[order[i]].start);
	sc.Initialize(items[0].st);
	std::set<std::pair<std::vector<int>, size_t> > seen;
	for (size_t i = 0; i < items.size() && items.size() < 2500; ++i) {
		Item it = items[i];
		bool dead = true; for (size_t r = 0; r < n; ++r) dead = dead && !refs[order[r]].live[it.q[r]];
		if (sc.Dead(it.st) && !dead) run.fail(k + ":dead-though-alive", d + " text \"" + ref::showWord(it.w) + "\"");
		for (unsigned s = 0; s < ref::NSYM; ++s) {
			Item nx; nx.st = it.st; Pire::Step(sc, nx.st, vw::letter(s));
			for (size_t r = 0; r < n; ++r) nx.q.push_back(refs[order[r]].step(it.q[r], s));
			if (s == ref::EM) {
				std::vector<size_t> want; for (size_t r = 0; r < n; ++r) if (refs[order[r]].fin[nx.q[r]]) want.push_back(r);
				std::vector<size_t> got = vw::accepted(sc, nx.st);
				if (got != want) run.fail(k + ":accepted-regexps", d + " text \"" + ref::showWord(it.w) + "<End>\": " + vw::showVec(got) + " expected " + vw::showVec(want));
				continue;
			}
			std::vector<int> key = nx.q; for (size_t r = 0; r < n; ++r) key.push_back(nx.st.Result(r) > 0);
			if (seen.insert(std::make_pair(key, sc.StateIndex(nx.st))).second) { nx.w = it.w; nx.w.push_back(s); items.push_back(nx); }
		}
	}
	run.count("pairs visited", items.size());
	run.nontrivial(k + d);
}

// A product too big for the lookup table, yet within the limit asked for: empty or right, never wrong
void huge(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	size_t p = run.thorough ? rng.range(500, 530) : 512, q = p + 1;
	auto cycle = [](size_t n) { Pire::Fsm f; f.Resize(n); f.ClearFinal(); for (size_t i = 0; i < n; ++i) f.Connect(i, (i + 1) % n, 'a'); f.SetInitial(0); f.SetFinal(n - 1, true); return f; };
	Pire::Scanner a = cycle(p).Compile<Pire::Scanner>(), b = cycle(q).Compile<Pire::Scanner>();
	Pire::Scanner g = Pire::Scanner::Glue(a, b, 1000000);
	std::string d = "cycles of " + vf::str(p) + " and " + vf::str(q);
	run.count(g.Empty() ? "huge products refused" : "huge products glued");
	if (!g.Empty()) {
		Pire::Scanner::State st; g.Initialize(st);
		for (size_t i = 0; i < p * q + 5; ++i) {
			bool wa = i % p == p - 1, wb = i % q == q - 1;
			std::vector<size_t> w; if (wa) w.push_back(0); if (wb) w.push_back(1);
			if (g.Final(st) != (wa || wb) || vw::accepted(g, st) != w) run.fail("huge-product", d + " after " + vf::str(i) + " letters");
			Pire::Step(g, st, 'a');
		}
	}
	run.nontrivial(d);
}

// Many patterns: each is found where its word ends
std::vector<std::string> words(vf::Rng& rng, size_t n)
{
	std::vector<std::string> w;
	for (size_t i = 0; i < n; ++i) { if (i && rng.chance(2)) { w.push_back(w[rng.below(i)]); continue; } std::string s; for (int k = rng.range(1, 3); k > 0; --k) s += "abcdef"[rng.below(6)]; w.push_back(s); }
	return w;
}

template<class Sc> Sc glueAll(vf::Rng& rng, std::vector<Sc> v)
{
	if (rng.chance(50)) { Sc r = v[0]; for (size_t i = 1; i < v.size(); ++i) r = Sc::Glue(r, v[i]); return r; }
	while (v.size() > 1) { std::vector<Sc> n; for (size_t i = 0; i < v.size(); i += 2) n.push_back(i + 1 < v.size() ? Sc::Glue(v[i], v[i + 1]) : v[i]); v.swap(n); }
	return v[0];
}

template<class Sc> void crowd(vf::Run& run, const char* kind)
{
	vf::Rng& rng = run.rng; std::string k = std::string(kind) + ":many";
	static const size_t sizes[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
	size_t n = rng.chance(80) ? sizes[rng.below(run.thorough ? 13 : 12)] : rng.range(20, 300);
	std::vector<std::string> w = words(rng, n); std::vector<Sc> parts; std::vector<std::vector<char> > keep;
	for (size_t i = 0; i < n; ++i) { Pire::Fsm f; f.AppendDot(); f.Iterate(); f += Pire::Fsm().Append(w[i]); parts.push_back(Sc(f)); }
	Sc sc = Via<Sc>::go(run, glueAll(rng, parts), keep);
	std::string d = vf::str(n) + " words"; for (size_t i = 0; i < n; ++i) d += " " + w[i];
	if (sc.Empty()) run.fail(k + ":empty-result", d);
	if (sc.RegexpsCount() != n) run.fail(k + ":regexps-count", d + ": " + vf::str(sc.RegexpsCount()));
	typename Sc::State st; sc.Initialize(st); std::string t;
	for (int i = 0; i < 250; ++i) {
		std::vector<size_t> want; for (size_t j = 0; j < n; ++j) if (t.size() >= w[j].size() && !t.compare(t.size() - w[j].size(), std::string::npos, w[j])) want.push_back(j);
		std::vector<size_t> got = vw::accepted(sc, st);
		if (got != want) run.fail(k + ":accepted-regexps", d + " text \"" + t + "\": " + vw::showVec(got) + " expected " + vw::showVec(want));
		if (sc.Final(st) != !want.empty()) run.fail(k + ":final", d + " text \"" + t + "\"");
		if (sc.Dead(st)) run.fail(k + ":dead", d + " text \"" + t + "\"");
		std::string add = rng.chance(60) ? w[rng.below(n)] : std::string(1, "abcdefg"[rng.below(7)]);
		for (char c : add) { t += c; Pire::Step(sc, st, (unsigned char) c); }
	}
	run.count("crowds of patterns"); run.seen("patterns in one scanner", n); run.nontrivial(k + d);
}

} // namespace

void vf_case(vf::Run& run)
{
	int k = run.rng.below(100);
	if (run.idx % 500 == 7) { huge(run); return; }
	if (run.idx % 200 == 11) { int c = run.rng.below(5); if (c < 2) crowd<Pire::Scanner>(run, "multi"); else if (c == 2) crowd<Pire::ScannerNoMask>(run, "multi-nomask"); else if (c == 3) crowd<Pire::NonrelocScanner>(run, "nonreloc"); else crowd<Pire::NonrelocScannerNoMask>(run, "nonreloc-nomask"); return; }
	if (k < 40) multi<Pire::Scanner>(run, "multi");
	else if (k < 52) multi<Pire::ScannerNoMask>(run, "multi-nomask");
	else if (k < 68) multi<Pire::NonrelocScanner>(run, "nonreloc");
	else if (k < 78) multi<Pire::NonrelocScannerNoMask>(run, "nonreloc-nomask");
	else if (k < 88) half<Pire::HalfFinalScanner>(run, "half-final");
	else if (k < 92) half<Pire::HalfFinalScannerNoMask>(run, "half-final-nomask");
	else if (k < 97) half<Pire::NonrelocHalfFinalScanner>(run, "half-final-nonreloc");
	else half<Pire::NonrelocHalfFinalScannerNoMask>(run, "half-final-nonreloc-nomask");
}
