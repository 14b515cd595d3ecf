// C17: the slow capturing scanner.
// Oracle: a backtracking matcher over the pattern's syntax tree that tries alternatives in their order, greedy repetitions
// with as many and non-greedy ones with as few iterations as possible, from the leftmost place: the first match it finds is
// the one to be reported.
#include "cexpr.h"
const char* vf_prop = "C17";

namespace {

typedef Pire::SlowCapturingScanner Sc;
typedef std::vector<unsigned> Text; // code points

struct Node; typedef std::shared_ptr<Node> P;
struct Node {
	enum Kind { Lit, Cat, Alt, Rep, Group, Begin, End } k;
	std::vector<unsigned> set; bool neg, any; std::string text; // Lit
	std::vector<P> c; int lo, hi; bool greedy, quest;
	explicit Node(Kind x): k(x), neg(false), any(false), lo(0), hi(0), greedy(true), quest(false) {}
};

bool nullable(const P& p)
{
	switch (p->k) {
	case Node::Lit: return false;
	case Node::Cat: for (auto& x : p->c) if (!nullable(x)) return false; return true;
	case Node::Alt: for (auto& x : p->c) if (nullable(x)) return true; return false;
	case Node::Rep: return p->lo == 0 || nullable(p->c[0]);
	case Node::Group: return nullable(p->c[0]);
	default: return true;
	}
}

std::string utf8(unsigned c)
{
	std::string s;
	if (c < 0x80) s += (char) c;
	else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	return s;
}

// The captured group is shown as "\1(...)"; the mark goes away and tells the group's number
std::string show(const P& p, int prec)
{
	switch (p->k) {
	case Node::Lit: return p->text;
	case Node::Begin: return "^";
	case Node::End: return "$";
	case Node::Cat: { std::string s; for (auto& x : p->c) s += show(x, 1); return prec > 1 ? "(" + s + ")" : s; }
	case Node::Alt: { std::string s; for (size_t i = 0; i < p->c.size(); ++i) s += (i ? "|" : "") + show(p->c[i], 1); return prec > 0 ? "(" + s + ")" : s; }
	case Node::Group: return "\1(" + show(p->c[0], 0) + ")";
	default: {
		std::string s = show(p->c[0], 3);
		if (p->lo == 0 && p->hi < 0) s += "*"; else if (p->lo == 1 && p->hi < 0) s += "+"; else if (p->lo == 0 && p->hi == 1 && !p->quest) s += "?";
		else { s += "{" + vf::str(p->lo); if (p->hi != p->lo) s += "," + (p->hi < 0 ? std::string() : vf::str(p->hi)); s += "}"; }
		if (!p->greedy) s += "?";
		return prec > 2 ? "(" + s + ")" : s; }
	}
}

struct Gen {
	vf::Rng& r; std::vector<unsigned> letters; bool utf, reps, nongreedy, counts, alts, marks, repeatedGroup; bool usedBegin, usedEnd; int inRep; bool groupDone;
	explicit Gen(vf::Rng& x): r(x), usedBegin(false), usedEnd(false), inRep(0), groupDone(false) {}
	P lit() {
		P p(new Node(Node::Lit)); int k = r.below(10);
		if (k < 6) { p->set.push_back(r.pick(letters)); p->text = utf ? utf8(p->set[0]) : std::string(1, (char) p->set[0]); return p; }
		if (k < 7) { p->any = true; p->text = "."; return p; }
		p->neg = k == 9;
		std::set<unsigned> s; for (int i = r.range(1, 3); i > 0; --i) s.insert(r.pick(letters));
		p->set.assign(s.begin(), s.end()); p->text = p->neg ? "[^" : "["; for (unsigned c : s) p->text += utf ? utf8(c) : std::string(1, (char) c); p->text += "]";
		return p;
	}
	P item(int depth) {
		P p;
		bool rep = reps && r.chance(35);
		if (rep) ++inRep;
		if (depth > 0 && r.chance(30)) p = alt(depth - 1); else p = lit();
		if (rep) {
			--inRep;
			if (!nullable(p)) p = repeat(p);
		}
		return p;
	}
	P repeat(const P& p) {
		P q(new Node(Node::Rep)); q->c.push_back(p);
		int k = r.below(counts ? 4 : 3); q->lo = k == 1; q->hi = k == 2 ? 1 : -1;
		if (k == 3) { q->quest = true; q->lo = r.below(3); q->hi = r.chance(20) ? -1 : std::max(1, q->lo + (int) r.below(3)); if (q->hi < 0 && q->lo < 2) q->lo = 2; }
		q->greedy = k == 3 || !(nongreedy && r.chance(40));
		return q;
	}
	P cat(int depth) {
		P p(new Node(Node::Cat));
		if (marks && !inRep && !usedBegin && r.chance(12)) { usedBegin = true; p->c.push_back(P(new Node(Node::Begin))); }
		for (int i = r.range(1, 3); i > 0; --i) p->c.push_back(item(depth));
		if (marks && !inRep && !usedEnd && r.chance(12)) { usedEnd = true; p->c.push_back(P(new Node(Node::End))); }
		return p;
	}
	P alt(int depth) {
		if (!alts || !r.chance(35)) return cat(depth);
		P p(new Node(Node::Alt)); for (int i = r.range(2, 3); i > 0; --i) p->c.push_back(cat(depth)); return p;
	}
	// A concatenation with the group somewhere in it
	P withGroup(int depth) {
		P p(new Node(Node::Cat));
		for (int i = r.below(3); i > 0; --i) p->c.push_back(item(1));
		P g;
		bool rep = reps && repeatedGroup && r.chance(20); if (rep) ++inRep;
		if (depth > 0 && r.chance(25)) { g = withGroup(depth - 1); if (alts && r.chance(50)) { P a(new Node(Node::Alt)); a->c.push_back(g); a->c.insert(a->c.begin() + r.below(2), cat(1)); g = a; } }
		else { g.reset(new Node(Node::Group)); g->c.push_back(alt(1)); }
		if (rep) { --inRep; if (!nullable(g)) g = repeat(g); }
		p->c.push_back(g);
		for (int i = r.below(3); i > 0; --i) p->c.push_back(item(1));
		return p;
	}
};

struct Match {
	const Text& t; bool icase; long b, e; long budget;
	typedef std::function<bool(size_t)> K;
	Match(const Text& x, bool i): t(x), icase(i), b(-1), e(-1), budget(300000) {}
	static unsigned low(unsigned c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
	bool in(const Node& n, unsigned c) const {
		if (n.any) return true;
		bool f = false; for (unsigned x : n.set) if (x == c || (icase && low(x) == low(c))) f = true;
		return f != n.neg;
	}
	bool m(const P& p, size_t i, const K& k) {
		if (--budget < 0) throw vf::SkipCase("too many ways to match");
		switch (p->k) {
		case Node::Lit: return i < t.size() && in(*p, t[i]) && k(i + 1);
		case Node::Begin: return i == 0 && k(i);
		case Node::End: return i == t.size() && k(i);
		case Node::Cat: return seq(p, 0, i, k);
		case Node::Alt: for (auto& x : p->c) if (m(x, i, k)) return true; return false;
		case Node::Group: { // the first time counts
			long ob = b, oe = e; if (b < 0) b = i;
			if (m(p->c[0], i, [&](size_t j) { long pe = e; if (e < 0) e = j; if (k(j)) return true; e = pe; return false; })) return true;
			b = ob; e = oe; return false; }
		default: return rep(p, 0, i, k);
		}
	}
	bool seq(const P& p, size_t n, size_t i, const K& k) { if (n == p->c.size()) return k(i); return m(p->c[n], i, [&, n](size_t j) { return seq(p, n + 1, j, k); }); }
	bool rep(const P& p, int n, size_t i, const K& k) {
		bool more = p->hi < 0 || n < p->hi, stop = n >= p->lo;
		auto go = [&] { return more && m(p->c[0], i, [&, n](size_t j) { return rep(p, n + 1, j, k); }); };
		return p->greedy ? go() || (stop && k(i)) : (stop && k(i)) || go();
	}
};

// A text the pattern may match
void produce(vf::Rng& r, const P& p, Text& t, const std::vector<unsigned>& letters)
{
	switch (p->k) {
	case Node::Lit: if (!p->neg && !p->set.empty() && r.chance(96)) t.push_back(r.pick(p->set)); else t.push_back(r.pick(letters)); break;
	case Node::Cat: for (auto& x : p->c) produce(r, x, t, letters); break;
	case Node::Alt: produce(r, p->c[r.below(p->c.size())], t, letters); break;
	case Node::Group: produce(r, p->c[0], t, letters); break;
	case Node::Rep: { int n = p->lo + r.below((p->hi < 0 ? p->lo + 3 : p->hi) - p->lo + 1); for (; n > 0; --n) produce(r, p->c[0], t, letters); break; }
	default: ;
	}
}


std::unique_ptr<Sc> variant(vf::Rng& r, const Sc& sc, std::vector<zoo::Keep>& keep, std::string& how)
{
	std::unique_ptr<Sc> s;
	switch (r.below(5)) {
	case 0: { how = " loaded"; std::ostringstream o; sc.Save(&o); std::istringstream i(o.str()); s.reset(new Sc); s->Load(&i); break; }
	case 1: { how = " mapped"; std::ostringstream o; sc.Save(&o); std::string b = o.str(); char* m = (char*) malloc(b.size()); memcpy(m, b.data(), b.size()); keep.push_back(zoo::Keep(m, free)); s.reset(new Sc); s->Mmap(m, b.size()); if (r.chance(40)) { how += " copied"; s.reset(new Sc(*s)); } break; }
	default: how = " copied"; s.reset(new Sc(sc));
	}
	return s;
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& r = run.rng; Gen g(r);
	g.utf = r.chance(25); bool icase = r.chance(12);
	static const unsigned uni[] = {'a', 'b', 0x436, 0x44F, 0x20AC, 0x1F600, 0xFF};
	if (g.utf) for (int i = r.range(2, 4); i > 0; --i) g.letters.push_back(uni[r.below(7)]); else for (int i = r.range(1, 3); i > 0; --i) g.letters.push_back("abc"[r.below(3)]);
	if (icase) g.letters.assign({'a', 'B', 'c'});
	g.reps = r.chance(85); g.nongreedy = r.chance(65); g.counts = r.chance(50); g.alts = r.chance(65); g.marks = r.chance(40); g.repeatedGroup = r.chance(25);
	P root(new Node(Node::Cat)); bool search = r.chance(85);
	if (!search || (g.marks && r.chance(25))) { root->c.push_back(P(new Node(Node::Begin))); g.usedBegin = true; }
	bool last = g.marks && r.chance(35); if (last) g.usedEnd = true;
	P body = g.withGroup(2);
	if (g.alts && r.chance(20)) { P a(new Node(Node::Alt)); a->c.push_back(body); a->c.insert(a->c.begin() + r.below(2), g.cat(1)); body = a; }
	root->c.push_back(body); if (last) root->c.push_back(P(new Node(Node::End)));
	std::string s = show(root, 0); size_t at = s.find('\1'), number = std::count(s.begin(), s.begin() + at, '(') + 1; s.erase(at, 1);
	std::string desc = "/" + vf::show(s) + "/ group " + vf::str(number) + (g.utf ? " utf8" : "") + (icase ? " icase" : "") + (search ? "" : " not surrounded");

	Pire::Lexer lexer; const Pire::Encoding& enc = g.utf ? Pire::Encodings::Utf8() : Pire::Encodings::Latin1();
	lexer.SetEncoding(enc); std::vector<Pire::wchar32> ucs; enc.FromLocal(s.data(), s.data() + s.size(), std::back_inserter(ucs)); lexer.Assign(ucs.begin(), ucs.end());
	if (icase) lexer.AddFeature(Pire::Features::CaseInsensitive());
	lexer.AddFeature(Pire::Features::Capture(number));
	Pire::Fsm f = lexer.Parse(); if (search) f.Surround();
	Sc base = f.Compile<Sc>(); std::vector<zoo::Keep> keep; std::string how; std::unique_ptr<Sc> other = variant(r, base, keep, how);
	bool longPrefix = search && !nullable(root) && s.find_first_of(".^$") == std::string::npos && r.chance(8);
	Sc::State st; size_t matched = 0, captured = 0, ambiguous = 0; std::set<std::pair<long, long> > where;
	for (int k = 0; k < 25; ++k) {
		Text t; int n = r.below(9);
		if (r.chance(60)) { for (int i = r.below(3); i > 0; --i) t.push_back(r.pick(g.letters)); produce(r, root, t, g.letters); for (int i = r.below(3); i > 0; --i) t.push_back(r.pick(g.letters)); }
		else for (; n > 0; --n) t.push_back(r.chance(90) ? r.pick(g.letters) : g.utf ? uni[r.below(7)] : 'a' + r.below(4));
		if (t.size() > 14) t.resize(14);
		if (icase) for (unsigned& c : t) if (r.chance(40) && c < 128 && isalpha(c)) c ^= 32;
		const Sc& sc = r.chance(50) ? base : *other; bool alt = &sc != &base;
		// A search may come to the text after long stretches of letters the pattern does not know
		size_t before = k == 0 && longPrefix ? r.chance(50) ? r.range(65520, 65560) : r.range(65536, 150000) : 0;
		// the state was used before, as a rule; the text is fed letter by letter or in runs, and asked for captures on the way
		sc.Initialize(st); std::string fed; size_t i = 0;
		if (before) { std::string fill(before, '#'); Pire::Run(sc, st, fill.data(), fill.data() + fill.size()); run.count("texts with a long prefix"); }
		for (;;) {
			if (i == t.size() || r.chance(30)) {
				Text prefix(t.begin(), t.begin() + i); Match m(prefix, icase); bool ok = false;
				for (size_t from = 0; from <= (search ? prefix.size() : 0) && !ok; ++from) { m.b = m.e = -1; ok = m.m(root, from, [](size_t) { return true; }); }
				std::vector<long> off(1, before); for (unsigned c : prefix) off.push_back(off.back() + (g.utf ? utf8(c).size() : 1));
				bool want = ok && m.b >= 0 && m.e >= 0; long wb = want ? off[m.b] : -1, we = want ? off[m.e] : -1;
				Sc::SingleState x; bool got = sc.GetCapture(st, x);
				std::string d = desc + (alt ? how : "") + (before ? " after " + vf::str(before) + " other letters" : std::string()) + " text \"" + vf::show(fed) + "\": ";
				if (got != want) run.fail(got ? ok ? "captures-untaken-group" : "captures-without-match" : "misses-capture", d + (got ? vf::str(x.Begin()) + ".." + vf::str(x.End()) : std::string("none")) + " instead of " + (want ? vf::str(wb) + ".." + vf::str(we) : std::string("none")));
				if (got && !(x.Begin() <= x.End() && x.End() <= before + fed.size())) run.fail("bounds-out-of-text", d + vf::str(x.Begin()) + ".." + vf::str(x.End()));
				if (got && ((long) x.Begin() != wb || (long) x.End() != we || x.GetBegin() != x.Begin() || x.GetEnd() != x.End() || !x.Captured())) run.fail((long) x.Begin() != wb ? "wrong-begin" : "wrong-end", d + vf::str(x.Begin()) + ".." + vf::str(x.End()) + " instead of " + vf::str(wb) + ".." + vf::str(we));
				run.count("texts"); matched += ok; captured += want; ambiguous += ok && !want; if (want) where.insert(std::make_pair(wb, we));
				if (i == t.size()) break;
			}
			std::string chunk; for (int c = r.chance(50) ? 1 : r.range(1, 5); c > 0 && i < t.size(); --c, ++i) chunk += g.utf ? utf8(t[i]) : std::string(1, (char) t[i]);
			if (r.chance(50)) Pire::Run(sc, st, chunk.data(), chunk.data() + chunk.size()); else for (char c : chunk) Pire::Step(sc, st, (unsigned char) c);
			if (r.chance(20)) { Sc::State copy(st); st = copy; }
			fed += chunk;
		}
	}
	run.count("texts matched", matched); run.count("texts with a capture", captured); run.count("texts matched past the group", ambiguous);
	run.seen("captured ranges per pattern", where.size());
	if (where.size() > 1) run.nontrivial(desc);
	run.sample(desc);
}
