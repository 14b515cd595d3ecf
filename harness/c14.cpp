// C14: half-final counters.
// Oracle: all substrings of the text are matched against the expression's language, and from that table the documented
// counts are computed by definition:
//   E  the number of positions at which a match ends (exact counter with overlaps),
//   N  non-overlapping matches, each ending as early as possible (non-greedy counter without overlaps),
//   L  non-overlapping matches, each starting leftmost and as long as possible (greedy counter).
// The simplified counters are documented to be wrong for some expressions: they never count more than there is, and they are
// right when no match continues another one and the first letters of a match occur nowhere else in it.
#include "cexpr.h"
const char* vf_prop = "C14";

namespace {
using namespace cx;

enum Mode { Exact, NonOverlap, SimpleOverlap, Greedy, SimpleGreedy, MODES };
const char* const modeNames[] = {"exact", "non-overlapping", "simplified-overlapping", "greedy", "simplified-greedy"};

struct Oracle {
	size_t exact, nonOverlap, greedy, depth; // depth: how many longest matches may have to be kept undecided
	Oracle(const ref::Dfa& d, const Text& t): exact(0), nonOverlap(0), greedy(0), depth(0) {
		size_t n = t.size(); Matrix m = matrix(d, t);
		for (size_t j = 0; j <= n; ++j) for (size_t i = 0; i <= j; ++i) if (m[i][j]) { ++exact; break; }
		for (size_t j = 1, s = 0; j <= n; ++j) for (size_t i = s; i < j; ++i) if (m[i][j]) { ++nonOverlap; s = j; break; }
		greedy = leftLongest(m, 0, n);
		for (size_t i = 0; i < n; ++i) { int q = d.start; size_t j = i; for (; j < n; ++j) { q = d.step(q, t[j]); if (!d.live[q]) break; } depth = std::max(depth, leftLongest(m, i, std::min(n, j + 1))); }
	}
	static size_t leftLongest(const Matrix& m, size_t from, size_t to) {
		size_t c = 0;
		for (size_t i = from; i < to;) { size_t best = 0; for (size_t j = to; j > i; --j) if (m[i][j]) { best = j; break; } if (best) { ++c; i = best; } else ++i; }
		return c;
	}
};

struct Item {
	std::string s; Pire::Fsm fsm; ref::Dfa d; bool nullable, simple; Mode mode; bool flag;
	Item(): fsm(Pire::Fsm::MakeFalse()), nullable(false), simple(false), mode(Exact), flag(false) {}
	std::string desc() const { return "/" + s + "/ " + modeNames[mode]; }
};

Item makeItem(vf::Rng& r, bool small)
{
	for (;;) {
		Item it; Expr e;
		if (r.chance(25)) { // a unique first letter: the simplified counters are right
			e.s = "a"; e.n = ref::sym(ref::one('a')); Expr f = expr(r, "bcd", 1, true);
			if (f.s.find('|') != std::string::npos) f.s = "(" + f.s + ")";
			e.s += f.s; e.n = ref::cat(e.n, f.n);
		} else e = expr(r, "abc", small ? 1 : 2, true);
		if (e.s.find('|') == std::string::npos) {
			if (r.chance(4)) { e.s = "^" + e.s; e.n = ref::cat(ref::sym(ref::one(ref::BM)), e.n); }
			if (r.chance(4)) { e.s += "$"; e.n = ref::cat(e.n, ref::sym(ref::one(ref::EM))); }
		}
		if (r.below(60) == 0) { e.s = r.chance(50) ? "[]" : e.s + "[]"; if (e.s.find('|') != std::string::npos) continue; e.n = ref::nothing(); } // no match at all
		it.s = e.s; it.d = ref::minimize(ref::determinize(e.n, 300));
		if (it.d.size() > (small ? 6 : 25)) continue;
		it.nullable = it.d.fin[it.d.start];
		if (it.nullable && !r.chance(25)) continue;
		it.simple = prefixFree(it.d) && firstLettersUnique(it.d);
		it.mode = it.nullable ? Exact : (Mode) r.below(MODES); it.flag = r.chance(50);
		it.fsm = compile(it.s);
		return it;
	}
}

Pire::HalfFinalFsm half(const Item& it)
{
	Pire::HalfFinalFsm h(it.fsm);
	switch (it.mode) {
	case Exact: h.MakeNonGreedyCounter(true, false); break;
	case NonOverlap: h.MakeNonGreedyCounter(false, it.flag); break;
	case SimpleOverlap: h.MakeNonGreedyCounter(); break; // the default: overlapping and simplified
	case Greedy: h.MakeGreedyCounter(false); break;
	default: h.MakeGreedyCounter();
	}
	return h;
}

Text makeText(vf::Rng& r, const std::vector<Item>& items, bool endMark)
{
	Text t; if (r.chance(70)) t.push_back(ref::BM);
	int n = r.below(12);
	for (int i = 0; i < n; ++i) {
		int k = r.below(10);
		if (k < 5) { Text w = ref::randomWord(items[r.below(items.size())].d, r, 8, false); t.insert(t.end(), w.begin(), w.end()); }
		else if (k < 8) t.push_back("abcd_, x1"[r.below(r.chance(70) ? 4 : 9)]);
		else if (k < 9) { unsigned c = "abc_"[r.below(4)]; for (int j = r.below(r.chance(10) ? 30 : 6); j > 0; --j) t.push_back(c); }
		else t.push_back(r.below(256));
		if (t.size() > 60) break;
	}
	if (endMark) t.push_back(ref::EM);
	return t;
}

// What the counter must report; empty string: fine
void judge(vf::Run& run, const Item& it, const Text& t, size_t got)
{
	Oracle o(it.d, t);
	auto what = [&](size_t want, const char* rel) { return it.desc() + " text \"" + ref::showWord(t) + "\": " + vf::str(got) + ", expected " + rel + " " + vf::str(want); };
	std::string k = modeNames[it.mode];
	switch (it.mode) {
	case Exact: if (got != o.exact) run.fail(k, what(o.exact, "")); break;
	case NonOverlap: if (got != o.nonOverlap) run.fail(k, what(o.nonOverlap, "")); break;
	case SimpleOverlap:
		if (got > o.exact) run.fail(k + ":more", what(o.exact, "at most"));
		if (got < o.nonOverlap) run.fail(k + ":less", what(o.nonOverlap, "at least"));
		if (it.simple && got != o.exact) run.fail(k + ":wrong", what(o.exact, ""));
		break;
	case Greedy:
		if (got > o.greedy) run.fail(k + ":more", what(o.greedy, "at most"));
		if (o.depth < Pire::HalfFinalFsm::MaxCountDepth) { run.count("greedy counts within the depth limit"); if (got != o.greedy) run.fail(k, what(o.greedy, "")); }
		else run.count("greedy counts beyond the depth limit");
		break;
	default:
		if (got > o.greedy) run.fail(k + ":more", what(o.greedy, "at most"));
		if (it.simple && got != o.greedy) run.fail(k + ":wrong", what(o.greedy, ""));
	}
	run.count("texts"); run.seen("counts seen", got); run.count(std::string("texts ") + k);
	if (it.simple) run.count(std::string("texts where the simplified kind is exact"));
}

template<class Sc> std::vector<size_t> listed(const Sc& sc, typename Sc::State& st) { auto p = sc.AcceptedRegexps(st); return std::vector<size_t>(p.first, p.second); }

void defaults(vf::Run& run, const Item& it);

template<class Sc> void kind(vf::Run& run, const std::string& name)
{
	vf::Rng& r = run.rng; std::vector<zoo::Keep> keep;
	size_t n = r.chance(45) ? 1 : r.range(2, 5);
	std::vector<Item> items; std::list<Part<Sc> > parts; std::string desc = name;
	for (size_t i = 0; i < n; ++i) {
		items.push_back(makeItem(r, n > 1)); desc += (i ? ", " : ": ") + items[i].desc();
		Pire::HalfFinalFsm h = half(items[i]);
		Part<Sc> p; p.sc = reload(r, r.chance(15) ? h.Compile<Sc>() : Sc(h), keep); p.which.push_back(i);
		if (p.sc.RegexpsCount() != 1) run.fail("regexps-count", desc);
		parts.push_back(p);
	}
	if (r.chance(30)) defaults(run, items[0]);
	std::vector<Sc> alone; for (auto& p : parts) alone.push_back(p.sc);
	for (int k = r.below(4) ? 0 : 1; k > 0; --k) { Part<Sc> e; e.sc = reload(r, Sc(), keep); auto it = parts.begin(); std::advance(it, r.below(parts.size() + 1)); parts.insert(it, e); }
	while (parts.size() > 1) {
		auto i = parts.begin(); std::advance(i, r.below(parts.size())); auto j = parts.begin(); std::advance(j, r.below(parts.size()));
		if (i == j) continue;
		Part<Sc> g; g.sc = Sc::Glue(i->sc, j->sc, 4000);
		g.which = i->which; g.which.insert(g.which.end(), j->which.begin(), j->which.end());
		if (g.sc.Empty() && !g.which.empty()) { if (i->which.empty() || j->which.empty()) run.fail("glue-with-empty-fails", desc); run.count("too big to glue"); return; }
		if (g.sc.RegexpsCount() != g.which.size()) run.fail("glued-regexps-count", desc + ": " + vf::str(g.sc.RegexpsCount()));
		Part<Sc> h; h.sc = reload(r, g.sc, keep); h.which = g.which;
		parts.erase(i); parts.erase(j); parts.push_back(h);
	}
	Part<Sc>& g = parts.front();
	bool some = false;
	for (int k = 0; k < 25; ++k) {
		bool end = r.chance(85);
		Text t = makeText(r, items, end);
		typename Sc::State st; g.sc.Initialize(st);
		std::vector<size_t> before(g.which.size(), 0);
		for (size_t x = 0; x <= t.size(); ++x) {
			if (x) Pire::Step(g.sc, st, vw::letter(t[x - 1]));
			// a count never falls, and a pattern is listed when its count has left zero
			std::vector<size_t> now, list; for (size_t i = 0; i < g.which.size(); ++i) { now.push_back(st.Result(i)); if (now[i]) list.push_back(i); if (now[i] < before[i]) run.fail("count-falls", desc); }
			if (listed(g.sc, st) != list) run.fail("accepted-regexps", desc + " text \"" + ref::showWord(t) + "\" after " + vf::str(x) + ": listed " + show(listed(g.sc, st)) + " counts " + show(now));
			before = now;
		}
		for (size_t i = 0; i < g.which.size(); ++i) {
			size_t got = st.Result(i); const Item& it = items[g.which[i]];
			if (g.which.size() > 1) { size_t a = counts(alone[g.which[i]], t, 1)[0]; if (a != got) run.fail("glued-count", desc + " order " + show(g.which) + " text \"" + ref::showWord(t) + "\": pattern " + vf::str(i) + " counts " + vf::str(got) + ", alone " + vf::str(a)); run.count("glued counts compared"); }
			if (end) judge(run, it, t, got);
			if (got > 1) some = true;
		}
		// runs over a buffer, in two parts
		std::string s; for (unsigned x : t) if (x < 256) s += (char) x;
		typename Sc::State a, b; g.sc.Initialize(a); g.sc.Initialize(b); size_t cut = r.below(s.size() + 1); bool marks = r.chance(50);
		if (marks) { Pire::Step(g.sc, a, Pire::BeginMark); Pire::Step(g.sc, b, Pire::BeginMark); }
		Pire::Run(g.sc, a, s.data(), s.data() + cut); Pire::Run(g.sc, a, s.data() + cut, s.data() + s.size());
		for (char c : s) Pire::Step(g.sc, b, (unsigned char) c);
		if (marks) { Pire::Step(g.sc, a, Pire::EndMark); Pire::Step(g.sc, b, Pire::EndMark); }
		for (size_t i = 0; i < g.which.size(); ++i) if (a.Result(i) != b.Result(i)) run.fail("run-differs-from-steps", desc + " text \"" + vf::show(s) + "\"");
		if (a != b) run.fail("run-differs-from-steps", desc + " text \"" + vf::show(s) + "\": states differ");
		run.count("buffer runs");
	}
	run.count(n > 1 ? "glued scanners" : "single scanners");
	if (some) run.nontrivial(desc);
	run.sample(desc);
}

// What an omitted argument means: both kinds are simplified, and the plain one counts overlapping matches
void defaults(vf::Run& run, const Item& it)
{
	Pire::HalfFinalFsm a(it.fsm), b(it.fsm); bool greedy = run.rng.chance(50); int args = run.rng.below(2);
	if (greedy) { a.MakeGreedyCounter(); b.MakeGreedyCounter(true); }
	else if (args) { a.MakeNonGreedyCounter(); b.MakeNonGreedyCounter(true, true); }
	else { a.MakeNonGreedyCounter(false); b.MakeNonGreedyCounter(false, true); }
	if (a.GetFsm().Size() != b.GetFsm().Size() || a.GetTotalCount() != b.GetTotalCount())
		run.fail("default-arguments", it.desc() + (greedy ? " greedy" : " non-greedy") + ": " + vf::str(a.GetFsm().Size()) + " states, total " + vf::str(a.GetTotalCount()) + "; with the documented defaults " + vf::str(b.GetFsm().Size()) + ", " + vf::str(b.GetTotalCount()));
	if (!greedy && args) { // the total is what the states add up to
		size_t sum = 0; for (size_t i = 0; i < a.GetFsm().Size(); ++i) sum += a.GetCount(i);
		if (sum != a.GetTotalCount()) run.fail("total-count", it.desc() + ": " + vf::str(a.GetTotalCount()) + ", states add up to " + vf::str(sum));
	}
	run.count("default arguments compared");
}

// Many words counted over a long text: every counter is right for a word whose first letter occurs only once in it
void crowd(vf::Run& run)
{
	vf::Rng& r = run.rng; typedef Pire::HalfFinalScanner Sc; std::vector<zoo::Keep> keep;
	static const size_t sizes[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
	size_t n = r.chance(40) ? r.range(1, 5) : sizes[r.below(12)]; bool longText = n <= 5;
	std::vector<std::string> w; std::vector<Sc> v; std::string desc = vf::str(n) + " words";
	for (size_t i = 0; i < n; ++i) {
		std::string s(1, "abcdef"[r.below(6)]); for (int k = r.below(3); k > 0; --k) { char c = "abcdef"[r.below(6)]; if (c != s[0]) s += c; }
		w.push_back(s); desc += " " + s; int mode = longText ? r.below(MODES) : r.below(2) ? Exact : NonOverlap;
		Pire::HalfFinalFsm h(compile(s));
		switch (mode) {
		case Exact: h.MakeNonGreedyCounter(true, false); break;
		case NonOverlap: h.MakeNonGreedyCounter(false); break;
		case SimpleOverlap: h.MakeNonGreedyCounter(true, true); break;
		case Greedy: h.MakeGreedyCounter(false); break;
		default: h.MakeGreedyCounter(true);
		}
		v.push_back(Sc(h)); desc += std::string("/") + modeNames[mode];
	}
	while (v.size() > 1) { std::vector<Sc> g; for (size_t i = 0; i < v.size(); i += 2) { g.push_back(i + 1 < v.size() ? Sc::Glue(v[i], v[i + 1]) : v[i]); if (g.back().Empty()) { run.count("too big to glue"); return; } } v.swap(g); }
	Sc sc = reload(r, v[0], keep);
	if (sc.RegexpsCount() != n) run.fail("regexps-count", desc + ": " + vf::str(sc.RegexpsCount()));
	std::string t; size_t len = longText ? (r.chance(50) ? 100 : 140000) : 600;
	while (t.size() < len) { if (r.chance(70)) t += w[r.below(n)]; else t += "abcdefg"[r.below(7)]; }
	Sc::State st; sc.Initialize(st); Pire::Run(sc, st, t.data(), t.data() + t.size()); Pire::Step(sc, st, Pire::EndMark);
	std::vector<size_t> list;
	for (size_t i = 0; i < n; ++i) {
		size_t want = 0; for (size_t p = t.find(w[i]); p != std::string::npos; p = t.find(w[i], p + 1)) ++want;
		if (want) list.push_back(i);
		if (st.Result(i) != want) run.fail("many-wrong-count", desc + " text of " + vf::str(t.size()) + " letters: word " + vf::str(i) + " (" + w[i] + ") counted " + vf::str(st.Result(i)) + " times, occurs " + vf::str(want));
		run.seen("counts seen", want);
	}
	if (listed(sc, st) != list) run.fail("accepted-regexps", desc);
	run.count(longText ? "long texts" : "crowds of patterns"); run.nontrivial(desc);
}

} // namespace

void vf_case(vf::Run& run)
{
	if (run.idx % 100 == 13) { crowd(run); return; }
	switch (run.rng.below(6)) {
	case 0: kind<Pire::HalfFinalScannerNoMask>(run, "nomask"); break;
	case 1: kind<Pire::NonrelocHalfFinalScanner>(run, "nonreloc"); break;
	case 2: kind<Pire::NonrelocHalfFinalScannerNoMask>(run, "nonreloc-nomask"); break;
	default: kind<Pire::HalfFinalScanner>(run, "half-final");
	}
}
