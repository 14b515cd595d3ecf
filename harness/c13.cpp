// C13: counting scanners report the longest run of separated matches.
// Oracle: the counted expression and the separator as languages; the longest chain of matches joined by separators is found
// in each text by dynamic programming over all its substrings.  No scanner may ever report more.  Where the chain can be
// read in one way only (the conditions below), the report must be the chain's length.
#include "cexpr.h"
const char* vf_prop = "C13";

namespace {
using namespace cx;

// The longest m1 s1 m2 s2 ... mk in the text
size_t longestChain(const Matrix& re, const Matrix& sep, size_t n)
{
	std::vector<size_t> before(n + 1, 0); size_t r = 0; // before[j]: the longest chain followed by a separator that ends at j
	for (size_t j = 0; j <= n; ++j) {
		size_t best = 0;
		for (size_t i = 0; i < j; ++i) if (re[i][j]) best = std::max(best, before[i] + 1);
		r = std::max(r, best);
		if (best) for (size_t k = j; k <= n; ++k) if (sep[j][k]) before[k] = std::max(before[k], best);
		// an empty separator makes the chain continue at once
	}
	return r;
}
// The same where the first match has a separator before it as well (what CountingScanner looks for)
size_t longestSeparated(const Matrix& re, const Matrix& sep, size_t n)
{
	std::vector<size_t> best(n + 1, 0); size_t r = 0;
	for (size_t j = 0; j <= n; ++j) {
		for (size_t m = 0; m < j; ++m) if (re[m][j]) for (size_t i = 0; i <= m; ++i) if (sep[i][m]) best[j] = std::max(best[j], best[i] + 1);
		r = std::max(r, best[j]);
	}
	return r;
}

// Any letters of one set, any number of times (not counting the empty word)
bool classStar(const ref::Dfa& d)
{
	std::set<unsigned> f; for (unsigned c = 0; c < ref::NSYM; ++c) if (d.live[d.step(d.start, c)]) f.insert(c);
	for (size_t q = 0; q < d.size(); ++q) if (d.live[q]) for (unsigned c = 0; c < ref::NSYM; ++c) { int t = d.step(q, c); if (!!f.count(c) != (bool) d.live[t]) return false; if (d.live[t] && !d.fin[t]) return false; }
	return true;
}
bool anyBytes(const ref::Dfa& d)
{
	if (!d.fin[d.start]) return false;
	for (unsigned c = 0; c < 256; ++c) if (d.step(d.start, c) != d.start) return false;
	return true;
}

struct Pair {
	std::string re, sep; Pire::Fsm a, b; ref::Dfa da, db;
	bool exact, exactSeparated; // the chain can be read in one way only
	bool disjoint; // no letter belongs to both
	Pair(): a(Pire::Fsm::MakeFalse()), b(Pire::Fsm::MakeFalse()), exact(false), exactSeparated(false), disjoint(false) {}
	std::string desc() const { return "/" + re + "/ separated by /" + sep + "/"; }
	void classify() {
		std::set<unsigned> ua = usedLetters(da), ub = usedLetters(db);
		disjoint = true; for (unsigned c : ua) if (ub.count(c)) disjoint = false;
		bool pf = prefixFree(da), fu = firstLettersUnique(da), all = anyBytes(db);
		bool marks = ua.count(ref::BM) || ua.count(ref::EM);
		exact = (disjoint && (!db.fin[db.start] || fu)) || (all && !marks && (pf || fu));
		exactSeparated = fu && !marks && ((disjoint && (firstLettersUnique(db) || classStar(db))) || (all && !marks));
	}
};

// So many states that the scanner is built by the simplified algorithm
Pair heavyPair(vf::Rng& r)
{
	Pair p; int n = r.range(11, 13); std::string k = vf::str(n);
	p.re = "a.{" + k + "}b"; ref::Nfa any = ref::sym(ref::anyByte());
	p.da = ref::minimize(ref::determinize(ref::cat(ref::cat(ref::word("a"), ref::repeat(any, n, n)), ref::word("b")), 300));
	if (r.chance(50)) { p.sep = "x*"; p.db = ref::minimize(ref::determinize(ref::star(ref::word("x")), 300)); } else { p.sep = "x.?"; p.db = ref::minimize(ref::determinize(ref::cat(ref::word("x"), ref::opt(any)), 300)); }
	p.a = compile(p.re); p.b = compile(p.sep);
	return p;
}

Pair makePair(vf::Rng& r)
{
	for (;;) {
		Pair p; Expr e, s;
		int family = r.below(10);
		if (family < 4) { e = expr(r, "abc", 2, true); s = expr(r, r.chance(50) ? "_, " : "abc_", 1, true); }
		else if (family < 7) { // a unique first letter
			Expr f; f.s = r.chance(70) ? "a" : "[ax]"; f.n = ref::sym(f.s == "a" ? ref::one('a') : (ref::one('a') | ref::one('x')));
			if (r.chance(25)) e.n = ref::empty(); else { e = expr(r, "bcd", 1, true); e.s = "(" + e.s + ")"; if (r.chance(30)) { e.s += "?"; e.n = ref::opt(e.n); } }
			e.s = f.s + e.s; e.n = ref::cat(f.n, e.n);
			s = expr(r, "_, ", 1, true);
		} else { e = expr(r, "abc", 1, true); s = expr(r, "abc", 1, true); }
		int k = r.below(12);
		if (k == 0) { s.s = ".*"; s.n = ref::star(ref::sym(ref::anyByte())); }
		else if (k == 1) { s.s = ""; s.n = ref::empty(); }
		else if (k == 2) { s.s = "[_ ,]*"; s.n = ref::star(ref::sym(ref::one(0x5f) | ref::one(' ') | ref::one(','))); }
		else if (k == 3) { s.s = "[_ ,]+"; ref::Nfa c = ref::sym(ref::one(0x5f) | ref::one(' ') | ref::one(',')); s.n = ref::cat(c, ref::star(c)); }
		else if (k == 4) { s.s = "[^a-c]*"; ref::Set x = ref::anyByte(); x.reset('a'); x.reset('b'); x.reset('c'); s.n = ref::star(ref::sym(x)); }
		else if (k == 5) { s.s = "(.|^|$)*"; s.n = ref::star(ref::sym(ref::anySym())); }
		if (r.chance(4)) { e.s = "^" + e.s; if (e.s.find('|') != std::string::npos) continue; e.n = ref::cat(ref::sym(ref::one(ref::BM)), e.n); }
		if (r.chance(4)) { if (e.s.find('|') != std::string::npos) continue; e.s += "$"; e.n = ref::cat(e.n, ref::sym(ref::one(ref::EM))); }
		p.re = e.s; p.sep = s.s;
		p.da = ref::minimize(ref::determinize(e.n, 300)); p.db = ref::minimize(ref::determinize(s.n, 300));
		// an empty match could be counted any number of times
		if (p.da.fin[p.da.start] || !p.da.live[p.da.start] || p.da.size() > 25 || p.db.size() > 20) continue;
		try { p.a = compile(p.re); p.b = compile(p.sep); } catch (const Pire::Error& e) { throw std::runtime_error(p.desc() + ": " + e.what()); }
		p.classify();
		return p;
	}
}

Text makeText(vf::Rng& r, const Pair& p, bool endMark)
{
	Text t; size_t n = r.below(12);
	if (r.chance(70)) t.push_back(ref::BM);
	for (size_t i = 0; i < n; ++i) {
		int k = r.below(10);
		if (k < 4) { Text w = ref::randomWord(p.da, r, 8, false); t.insert(t.end(), w.begin(), w.end()); if (r.chance(70)) { w = ref::randomWord(p.db, r, 6, false); t.insert(t.end(), w.begin(), w.end()); } }
		else if (k < 8) t.push_back("abcd_, x1"[r.below(r.chance(60) ? 4 : 9)]);
		else if (k < 9) { unsigned c = "ab_ "[r.below(4)]; for (int j = r.below(6); j > 0; --j) t.push_back(c); }
		else t.push_back(r.chance(97) ? r.below(256) : ref::BM);
		if (t.size() > 60) break;
	}
	if (endMark) t.push_back(ref::EM);
	return t;
}

// A chain of very many matches, all alike
void longChain(vf::Run& run, const Pair& p, const Pire::AdvancedCountingScanner& adv, const Pire::NoGlueLimitCountingScanner& nol, const Pire::CountingScanner& cnt, bool simple)
{
	vf::Rng& r = run.rng; Text w = ref::randomWord(p.da, r, 8, false), s = ref::randomWord(p.db, r, 6, false);
	for (const Text* x : {&w, &s}) for (unsigned c : *x) if (c >= 256) return;
	if (w.empty() || !p.da.accepts(w) || !p.db.accepts(s)) return;
	size_t k = r.chance(50) ? r.range(65530, 65545) : r.range(256, 150000);
	Text t(s); for (size_t i = 0; i < k; ++i) { t.insert(t.end(), w.begin(), w.end()); t.insert(t.end(), s.begin(), s.end()); }
	t.push_back(ref::EM);
	size_t a = counts(adv, t, 1)[0], n = counts(nol, t, 1)[0], c = counts(cnt, t, 1)[0];
	auto what = [&]() { return p.desc() + " \"" + ref::showWord(s) + "\" and " + vf::str(k) + " times \"" + ref::showWord(w) + "\" \"" + ref::showWord(s) + "\": advanced " + vf::str(a) + ", no-glue-limit " + vf::str(n) + ", simple counting " + vf::str(c); };
	if (a > k || (!simple && a != k)) run.fail("advanced:wrong-count-of-long-chain", what());
	if (n != a) run.fail("no-glue-limit:differs-on-long-chain", what());
	if (c > k || (p.exactSeparated && c != k)) run.fail("counting:wrong-count-of-long-chain", what());
	run.count("chains of hundreds to many thousands of matches");
}

void single(vf::Run& run)
{
	vf::Rng& r = run.rng;
#ifdef __SANITIZE_ADDRESS__
	bool heavy = false; // takes too much memory and time
#else
	bool heavy = r.below(300) == 0;
#endif
	Pair p = heavy ? heavyPair(r) : makePair(r);
	bool simple = false, simple2 = false;
	Pire::AdvancedCountingScanner adv(p.a, p.b, &simple);
	Pire::NoGlueLimitCountingScanner nol(p.a, p.b, &simple2);
	Pire::CountingScanner cnt(p.a, p.b);
	if (simple != simple2) run.fail("simple-differs", p.desc());
	if (simple) run.count("simplified scanners");
	if (adv.RegexpsCount() != 1 || nol.RegexpsCount() != 1 || cnt.RegexpsCount() != 1) run.fail("regexps-count", p.desc());
	run.count(p.exact ? "pairs with one reading" : "pairs with many readings");
	bool some = false;
	for (int k = 0; k < 25; ++k) {
		bool end = r.chance(75);
		Text t = makeText(r, p, end);
		Matrix mr = matrix(p.da, t), ms = matrix(p.db, t);
		size_t most = longestChain(mr, ms, t.size()), sepd = longestSeparated(mr, ms, t.size());
		size_t a = counts(adv, t, 1)[0], n = counts(nol, t, 1)[0], c = counts(cnt, t, 1)[0];
		auto what = [&]() { return p.desc() + " text \"" + ref::showWord(t) + "\": advanced " + vf::str(a) + ", no-glue-limit " + vf::str(n) + ", simple counting " + vf::str(c) + ", chain " + vf::str(most) + ", separated chain " + vf::str(sepd); };
		if (a > most) run.fail("advanced:more-than-there-is", what());
		if (n > most) run.fail("no-glue-limit:more-than-there-is", what());
		if (c > most) run.fail("counting:more-than-there-is", what());
		if (a != n) run.fail("no-glue-limit:differs-from-advanced", what());
		if (!simple && (a > 0) != (most > 0)) run.fail("advanced:misses-a-match", what());
		if (!simple && p.exact && a != most) run.fail("advanced:wrong-count", what());
		if (p.exactSeparated && end && c != sepd) run.fail("counting:wrong-count", what());
		run.count("texts"); if (p.exact) run.count("texts with one reading"); if (p.exactSeparated && end) run.count("texts exact for the simple kind");
		if (most > 1) some = true;
		run.seen("counts seen", most);
		// runs over a buffer give the same
		if (r.chance(20)) {
			std::string s; for (unsigned x : t) if (x < 256) s += (char) x;
			Text t2; for (char x : s) t2.push_back((unsigned char) x);
			Pire::AdvancedCountingScanner::State sa; adv.Initialize(sa); Pire::Run(adv, sa, s.data(), s.data() + s.size());
			Pire::CountingScanner::State sc; cnt.Initialize(sc); Pire::Run(cnt, sc, s.data(), s.data() + s.size());
			if (sa.Result(0) != counts(adv, t2, 1)[0] || sc.Result(0) != counts(cnt, t2, 1)[0]) run.fail("run-differs-from-steps", what());
		}
	}
	if (p.disjoint && p.exact && r.chance(12)) longChain(run, p, adv, nol, cnt, simple);
	if (some) run.nontrivial(p.desc());
	run.sample(p.desc());
}

// --- gluing ---------------------------------------------------------------------------------------------------

template<class Sc> const char* nameOf();
template<> const char* nameOf<Pire::CountingScanner>() { return "counting"; }
template<> const char* nameOf<Pire::AdvancedCountingScanner>() { return "advanced"; }
template<> const char* nameOf<Pire::NoGlueLimitCountingScanner>() { return "no-glue-limit"; }

template<class Sc> void glue(vf::Run& run, bool limited)
{
	vf::Rng& r = run.rng; std::string kind = nameOf<Sc>();
	std::vector<zoo::Keep> keep;
	size_t n = r.range(2, 4);
	bool many = r.chance(limited ? 15 : 25); if (many) n = limited ? r.range(12, 18) : r.range(17, 40);
	std::vector<Pair> pairs; std::vector<Sc> alone; std::string desc;
	std::list<Part<Sc> > parts;
	// many patterns: few different ones, with small automata, so that the product stays small
	size_t different = many ? r.range(2, 3) : n;
	for (size_t i = 0; i < n; ++i) {
		if (i < different) { Pair p; do p = makePair(r); while (many && p.da.size() + p.db.size() > 8); pairs.push_back(p); } else { Pair p = pairs[r.below(different)]; pairs.push_back(p); }
		alone.push_back(Sc(pairs[i].a, pairs[i].b)); desc += (i ? ", " : "") + pairs[i].desc();
		Part<Sc> q; q.sc = reload(r, alone[i], keep); q.which.push_back(i); parts.push_back(q);
	}
	for (int k = r.below(3); k > 0; --k) { Part<Sc> e; e.sc = reload(r, Sc(), keep); auto it = parts.begin(); std::advance(it, r.below(parts.size() + 1)); parts.insert(it, e); }
	while (parts.size() > 1) {
		auto i = parts.begin(); std::advance(i, r.below(parts.size())); auto j = parts.begin(); std::advance(j, r.below(parts.size()));
		if (i == j) continue;
		Part<Sc> g; g.sc = Sc::Glue(i->sc, j->sc, many ? 20000 : 4000);
		size_t total = i->which.size() + j->which.size();
		if (g.sc.Empty()) {
			if (total == 0) { g.which.clear(); }
			else if (limited && total > 16) { run.count("too many patterns refused"); parts.erase(i); continue; }
			else { run.count("too big to glue"); if (total == 1 || i->which.empty() || j->which.empty()) run.fail(kind + ":glue-with-empty-fails", desc); return; }
		} else {
			if (limited && total > 16) run.fail(kind + ":too-many-patterns-glued", desc);
			g.which = i->which; g.which.insert(g.which.end(), j->which.begin(), j->which.end());
		}
		if (g.sc.RegexpsCount() != g.which.size()) run.fail(kind + ":glued-regexps-count", desc + ": " + vf::str(g.sc.RegexpsCount()) + " of " + vf::str(g.which.size()));
		Part<Sc> h; h.sc = reload(r, g.sc, keep); h.which = g.which;
		parts.erase(i); parts.erase(j); parts.push_back(h);
	}
	Part<Sc>& g = parts.front();
	if (g.which.empty()) return;
	bool some = false;
	for (int k = 0; k < 20; ++k) {
		// texts with matches of several patterns
		Text t; for (int x = r.range(1, 3); x > 0; --x) { Text u = makeText(r, pairs[r.below(n)], x == 1); t.insert(t.end(), u.begin(), u.end()); }
		std::vector<size_t> got = counts(g.sc, t, g.which.size()), want;
		for (size_t i : g.which) want.push_back(counts(alone[i], t, 1)[0]);
		if (got != want) run.fail(kind + ":glued-counts", desc + " order " + show(g.which) + " text \"" + ref::showWord(t) + "\": " + show(got) + " alone " + show(want));
		for (size_t x : want) if (x > 1) some = true;
		run.count("glued texts");
	}
	run.count("patterns glued together", g.which.size());
	if (some) run.nontrivial(kind + desc);
	run.sample("glued " + kind + ": " + desc);
}

// An image of an AdvancedCountingScanner, glued or not, is a NoGlueLimitCountingScanner's as well
void formats(vf::Run& run)
{
	vf::Rng& r = run.rng; size_t n = r.range(1, 5); std::string desc; std::vector<Pair> pairs;
	Pire::AdvancedCountingScanner adv; Pire::NoGlueLimitCountingScanner nol;
	for (size_t i = 0; i < n; ++i) {
		Pair p = makePair(r); pairs.push_back(p);
		Pire::AdvancedCountingScanner a(p.a, p.b); Pire::NoGlueLimitCountingScanner b(p.a, p.b);
		if (!i) { adv = a; nol = b; desc = p.desc(); continue; }
		Pire::AdvancedCountingScanner ga = Pire::AdvancedCountingScanner::Glue(adv, a, 4000); Pire::NoGlueLimitCountingScanner gb = Pire::NoGlueLimitCountingScanner::Glue(nol, b, 4000);
		if (ga.Empty() != gb.Empty()) run.fail("glue-limits-differ", desc);
		if (ga.Empty()) break;
		adv = ga; nol = gb; desc += ", " + p.desc();
	}
	std::ostringstream o; adv.Save(&o); std::string img = o.str();
	if (r.chance(40)) {
		// the older version of the format: actions on their own behind the jumps (and nothing reads them)
		size_t head = 24 + 24 + Pire::MaxChar, jumps = adv.Size() * adv.LettersCount() * 8, acts = adv.Size() * adv.LettersCount() * 4;
		std::string v6 = img.substr(0, head + jumps); std::string a(acts, '\x42'); a.resize((acts + 7) / 8 * 8, '\0');
		v6[4] = 6; v6 += a + img.substr(head + jumps); img = v6; run.count("older images");
	}
	Pire::NoGlueLimitCountingScanner fromAdv; std::vector<zoo::Keep> keep;
	if (r.chance(50)) { std::istringstream i(img); fromAdv.Load(&i); } else { char* m = (char*) malloc(img.size()); memcpy(m, img.data(), img.size()); keep.push_back(zoo::Keep(m, free)); fromAdv.Mmap(m, img.size()); }
	Pire::NoGlueLimitCountingScanner re = reload(r, nol, keep), copy(fromAdv);
	size_t k = adv.RegexpsCount(); bool some = false;
	if (fromAdv.RegexpsCount() != k || nol.RegexpsCount() != k || re.RegexpsCount() != k) run.fail("regexps-count-after-loading", desc);
	for (int x = 0; x < 20; ++x) {
		Text t; for (int y = r.range(1, 3); y > 0; --y) { Text u = makeText(r, pairs[r.below(pairs.size())], y == 1); t.insert(t.end(), u.begin(), u.end()); }
		std::vector<size_t> a = counts(adv, t, k), b = counts(nol, t, k), c = counts(fromAdv, t, k), d = counts(re, t, k), e = counts(copy, t, k);
		if (b != a) run.fail("no-glue-limit:differs-from-advanced-when-glued", desc + " text \"" + ref::showWord(t) + "\": " + show(b) + " and " + show(a));
		if (c != a || e != a) run.fail("no-glue-limit:loaded-from-advanced", desc + " text \"" + ref::showWord(t) + "\": " + show(c) + ", copy " + show(e) + ", advanced " + show(a));
		if (d != a) run.fail("no-glue-limit:reloaded", desc + " text \"" + ref::showWord(t) + "\": " + show(d) + " and " + show(a));
		for (size_t v : a) if (v > 1) some = true;
		run.count("texts in both formats");
	}
	if (some) run.nontrivial("formats " + desc);
}

} // namespace

void vf_case(vf::Run& run)
{
	int k = run.rng.below(20);
	if (k < 12) single(run);
	else if (k < 14) glue<Pire::CountingScanner>(run, true);
	else if (k < 16) glue<Pire::AdvancedCountingScanner>(run, true);
	else if (k < 18) glue<Pire::NoGlueLimitCountingScanner>(run, false);
	else formats(run);
}
