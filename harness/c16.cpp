// C16: the capturing scanner.
// Language: product walk.  Capture: an automaton whose empty moves enter and leave the group says which letters can be the
// first one of the group or the first one behind it.  The class sees these moments, not the group, so that it cannot choose
// between several of them.  Where only one moment for each border remains, the capture must be exact.
#include "cexpr.h"
const char* vf_prop = "C16";

namespace {

// An automaton whose empty moves may enter (1) or leave (2) the group
struct Tagged {
	ref::Nfa n; std::map<std::pair<int, int>, int> label;
	int labelOf(int a, int b) const { std::map<std::pair<int, int>, int>::const_iterator i = label.find(std::make_pair(a, b)); return i == label.end() ? 0 : i->second; }
	// Adds a part behind the states cur, which become its ends
	void follow(const ref::Nfa& part, std::vector<int>& cur) {
		int off = n.import(part); for (int q : cur) n.epsEdge(q, off + part.start); cur.clear();
		for (size_t i = 0; i < part.size(); ++i) if (part.fin[i]) { n.fin[off + i] = false; cur.push_back(off + i); }
	}
	void border(int l, std::vector<int>& cur) { int s = n.add(); for (int q : cur) { n.epsEdge(q, s); label[std::make_pair(q, s)] |= l; } cur.assign(1, s); }
};

struct Pat { std::string text; Tagged t; std::string desc; size_t number; ref::Dfa group; bool groupNullable; Pat(): number(1), groupNullable(false) {} };

size_t parens(const std::string& s) { return std::count(s.begin(), s.end(), '('); }

cx::Expr part(vf::Rng& r, const std::string& al, unsigned emptyChance, int depth)
{
	if (r.chance(emptyChance)) { cx::Expr e; e.n = ref::empty(); return e; }
	return cx::expr(r, al, depth, false);
}

cx::Expr quoted(vf::Rng& r, const std::string& al) // the usual kind: everything up to a closing letter
{
	cx::Expr e; std::set<char> c; for (int i = r.range(1, 3); i > 0; --i) c.insert(al[r.below(al.size())]);
	ref::Set s; bool neg = r.chance(40); e.s = neg ? "[^" : "["; for (char x : c) { e.s += x; s.set((unsigned char) x); } e.s += "]";
	if (neg) s = ref::anyByte() & ~s;
	e.n = ref::sym(s);
	if (r.chance(75)) { e.s += "+"; e.n = ref::cat(e.n, ref::star(e.n)); } else { e.s += "*"; e.n = ref::star(e.n); }
	return e;
}

Pat pattern(vf::Rng& r, bool& surround)
{
	static const char* const als[] = {"ab", "abc", "abcdef", "x=0;"};
	std::string al = als[r.below(4)], al2 = r.chance(60) ? al : als[r.below(4)], al3 = r.chance(60) ? al : als[r.below(4)];
	Pat p; cx::Expr a = part(r, al, 15, 1), g = r.chance(35) ? quoted(r, al2) : cx::expr(r, al2, 1, r.chance(30)), b = part(r, al3, 15, 1), c;
	bool begin = r.chance(25), end = r.chance(20), beside = r.chance(15), optional = !beside && r.chance(10), wrap = beside || optional || r.chance(10);
	if (beside) c = cx::expr(r, al, 1, false);
	cx::Expr pre = wrap ? part(r, al, 50, 0) : cx::Expr(), post = wrap ? part(r, al, 50, 0) : cx::Expr();
	surround = r.chance(55);
	p.text = (begin ? "^" : "") + pre.s + (wrap ? "(" : "") + a.s; p.number = parens(p.text) + 1;
	p.text += "(" + g.s + ")" + b.s + (beside ? "|" + c.s : "") + (wrap ? ")" : "") + (optional ? "?" : "") + post.s + (end ? "$" : "");
	// The same with phases
	Tagged& t = p.t; std::vector<int> cur(1, 0);
	if (surround) t.follow(ref::star(ref::sym(ref::anySym())), cur);
	if (begin) t.follow(ref::sym(ref::one(ref::BM)), cur);
	if (wrap) t.follow(pre.n, cur);
	std::vector<int> fork = cur;
	t.follow(a.n, cur); t.border(1, cur); t.follow(g.n, cur); t.border(2, cur); t.follow(b.n, cur);
	if (beside) t.follow(c.n, fork);
	if (beside || optional) cur.insert(cur.end(), fork.begin(), fork.end());
	if (wrap) t.follow(post.n, cur);
	if (end) t.follow(ref::sym(ref::one(ref::EM)), cur);
	if (surround) t.follow(ref::star(ref::sym(ref::anySym())), cur);
	for (int q : cur) t.n.fin[q] = true;
	p.group = ref::determinize(g.n, 300); p.groupNullable = p.group.fin[p.group.start];
	p.desc = "/" + p.text + "/ group " + vf::str(p.number) + (surround ? " surrounded" : "");
	return p;
}

// All moments at which a border can be seen.  The scanner knows the set of places of the pattern reached before and after
// a letter, but its actions belong to the pair of these sets whatever the letter was; once any continuation is accepted,
// it does not tell sets apart any more.
struct Model {
	typedef std::set<int> Set;
	const Tagged& t; std::vector<std::set<std::pair<int, int> > > clo; // by empty moves: state, borders crossed
	std::map<Set, int> ids; std::vector<Set> sets; std::vector<std::vector<int> > next; std::map<std::pair<int, int>, int> act; bool complete;
	Model(const Tagged& x, const ref::Dfa& d, size_t limit): t(x), clo(x.n.size()), complete(true) {
		for (size_t q = 0; q < t.n.size(); ++q) {
			std::vector<std::pair<int, int> > todo(1, std::make_pair((int) q, 0)); clo[q].insert(todo[0]);
			while (!todo.empty()) { std::pair<int, int> s = todo.back(); todo.pop_back(); for (int to : t.n.eps[s.first]) { std::pair<int, int> y(to, s.second | t.labelOf(s.first, to)); if (clo[q].insert(y).second) todo.push_back(y); } }
		}
		std::vector<unsigned> rep(d.ncls); for (unsigned c = ref::NSYM; c-- > 0;) rep[d.cls[c]] = c;
		std::vector<int> state; // of the language's automaton
		auto universal = [&](int q) { if (!d.fin[q]) return false; for (int c = 0; c < d.ncls; ++c) if (d.next[q * d.ncls + c] != q) return false; return true; };
		Set s0; s0.insert(t.n.start); ids[s0] = 0; sets.push_back(s0); state.push_back(d.start);
		for (size_t i = 0; i < sets.size(); ++i) {
			next.push_back(std::vector<int>(d.ncls, i));
			if (universal(state[i])) { act[std::make_pair((int) i, (int) i)] = 3; continue; }
			for (int c = 0; c < d.ncls; ++c) {
				Set n; int a = 0;
				for (int s : sets[i]) for (auto& x : clo[s]) for (auto& e : t.n.tr[x.first]) if (e.set[rep[c]]) { n.insert(e.to); a |= x.second; }
				int q = d.next[state[i] * d.ncls + c]; if (universal(q)) { n.clear(); n.insert(-1); }
				auto k = ids.insert(std::make_pair(n, (int) sets.size())); if (k.second) { sets.push_back(n); state.push_back(q); }
				next[i][c] = k.first->second; act[std::make_pair((int) i, next[i][c])] |= a;
				if (sets.size() > limit) { complete = false; return; }
			}
		}
	}
};

// How many different ways to place the group's borders lead to acceptance, and one of them (letters before begin, before end)
struct Parses { std::set<std::pair<int, int> > borders; bool without; };
Parses parses(const Tagged& t, const std::vector<unsigned>& w)
{
	// (state, begin, end): sets are small for the texts used
	typedef std::pair<int, std::pair<int, int> > S; std::set<S> cur; Parses r; r.without = false;
	auto close = [&](std::set<S>& s, int pos) { std::vector<S> q(s.begin(), s.end()); while (!q.empty()) { S x = q.back(); q.pop_back(); for (int to : t.n.eps[x.first]) { S y = x; y.first = to; int l = t.labelOf(x.first, to); if (l & 1) y.second.first = pos; if (l & 2) y.second.second = pos; if (s.insert(y).second) q.push_back(y); } } };
	cur.insert(S(t.n.start, std::make_pair(-1, -1))); close(cur, 0);
	for (size_t i = 0; i < w.size(); ++i) {
		std::set<S> n; for (const S& s : cur) for (auto& e : t.n.tr[s.first]) if (e.set[w[i]]) n.insert(S(e.to, s.second));
		close(n, i + 1); cur.swap(n);
	}
	for (const S& s : cur) if (t.n.fin[s.first]) { if (s.second.first < 0) r.without = true; else r.borders.insert(s.second); }
	return r;
}

typedef Pire::CapturingScanner Sc;

std::vector<unsigned> text(vf::Rng& r, const ref::Dfa& d, bool marks)
{
	std::vector<unsigned> w; int q = d.start; size_t n = r.range(0, 14);
	if (marks) { w.push_back(ref::BM); q = d.step(q, ref::BM); }
	for (size_t i = 0; i < n; ++i) {
		unsigned c = 0; for (int k = 0; k < 4; ++k) { c = r.chance(85) ? "abcdefx=0;"[r.below(10)] : r.below(256); if (d.live[d.step(q, c)] && d.step(q, c) != q) break; }
		w.push_back(c); q = d.step(q, c);
	}
	// finish it with a shortest way to acceptance if there is one
	if (r.chance(80) && d.live[q]) {
		std::map<int, std::pair<int, unsigned> > from; std::deque<int> b(1, q); from[q] = std::make_pair(-1, 0u); int hit = -1;
		while (!b.empty() && hit < 0) { int x = b.front(); b.pop_front(); if (d.fin[x]) { hit = x; break; } for (unsigned c = 0; c < ref::NSYM; ++c) { if (c == ref::BM) continue; int t = d.step(x, c); if (!from.count(t)) { from[t] = std::make_pair(x, c); b.push_back(t); } } }
		if (hit >= 0) { std::vector<unsigned> tail; for (int x = hit; from[x].first >= 0; x = from[x].first) tail.push_back(from[x].second); w.insert(w.end(), tail.rbegin(), tail.rend()); }
	}
	if (r.chance(40)) for (int i = r.range(1, 5); i > 0; --i) if (w.empty() || w.back() != ref::EM) w.push_back("abcdefx=0;"[r.below(10)]);
	if (marks && (w.empty() || w.back() != ref::EM)) w.push_back(ref::EM);
	return w;
}

size_t language(vf::Run& run, const Sc& sc, const ref::Dfa& d, const std::string& desc)
{
	struct Item { int q; Sc::State st; int parent; unsigned sym; };
	std::deque<Item> items; std::set<std::pair<int, size_t> > seen; Item i0; i0.q = d.start; i0.parent = -1; i0.sym = 0; sc.Initialize(i0.st);
	items.push_back(i0); seen.insert(std::make_pair(i0.q, sc.StateIndex(i0.st)));
	auto path = [&](size_t i) { std::vector<unsigned> w; for (int k = i; items[k].parent >= 0; k = items[k].parent) w.push_back(items[k].sym); std::reverse(w.begin(), w.end()); return ref::showWord(w); };
	for (size_t i = 0; i < items.size() && items.size() < 3000; ++i) {
		Item it = items[i];
		if (sc.StateIndex(it.st) >= sc.Size()) run.fail("state-index-out-of-range", desc + " after \"" + path(i) + "\"");
		if (sc.Final(it.st) != (bool) d.fin[it.q] || sc.CanStop(it.st) != (bool) d.fin[it.q]) run.fail(d.fin[it.q] ? "rejects-member" : "accepts-nonmember", desc + " text \"" + path(i) + "\"");
		if (sc.Dead(it.st) && d.live[it.q]) run.fail("dead-though-alive", desc + " after \"" + path(i) + "\"");
		for (unsigned c = 0; c < ref::NSYM; ++c) {
			Item n; n.st = it.st; Pire::Step(sc, n.st, vw::letter(c)); n.q = d.step(it.q, c); n.parent = i; n.sym = c; run.count("transitions checked");
			if (seen.insert(std::make_pair(n.q, sc.StateIndex(n.st))).second) items.push_back(n);
		}
	}
	run.count("pairs visited", items.size());
	return items.size();
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& r = run.rng; bool surround; Pat p = pattern(r, surround);
	ref::Dfa d = ref::minimize(ref::determinize(p.t.n, 800));
	Pire::Lexer lexer(p.text); lexer.AddFeature(Pire::Features::Capture(p.number));
	Pire::Fsm f = lexer.Parse(); if (surround) f.Surround();
	Sc base = f.Compile<Sc>();
	std::vector<zoo::Keep> keep; Sc sc = cx::reload(r, base, keep);
	size_t pairs = language(run, sc, d, p.desc);
	Model m(p.t, d, 3000);
	if (!m.complete) { run.count("too many states for the model"); return; }
	size_t exact = 0, none = 0, both = 0;
	for (int k = 0; k < 30; ++k) {
		bool marks = surround ? r.chance(85) : r.chance(50);
		std::vector<unsigned> w = text(r, d, marks); std::string desc = p.desc + " text \"" + ref::showWord(w) + "\"";
		std::vector<int> b, e; int q = d.start, x = 0;
		// Where the automaton waits without seeing a border it may wait for long: the positions behind that move by as much
		size_t wait = w.size(), waits = 0; unsigned filler = 0; bool wantWait = k == 0 && r.chance(4);
		for (size_t i = 0; i < w.size(); ++i) {
			if (wantWait && w[i] != ref::BM && (wait == w.size() || r.chance(30))) {
				unsigned c = r.below(256); std::map<std::pair<int, int>, int>::const_iterator self = m.act.find(std::make_pair(x, x));
				for (unsigned t = 0; t < 256; ++t, c = (c + 1) & 255) if (d.step(q, c) == q && m.next[x][d.cls[c]] == x && self != m.act.end() && !self->second) { wait = i; filler = c; waits = r.chance(50) ? r.range(65520, 65560) : r.range(65536, 200000); break; }
			}
			int y = m.next[x][d.cls[w[i]]], a = m.act[std::make_pair(x, y)]; if (a & 1) b.push_back(i); if (a & 2) e.push_back(i); x = y; q = d.step(q, w[i]);
		}
		if (waits) { run.count("texts with a long wait"); desc += " with " + vf::str(waits) + " times " + vf::str(filler) + " before letter " + vf::str(wait); }
		auto moved = [&](size_t pos) { return pos + (pos >= wait ? waits : 0); };
		// The real thing, letter by letter or as one run
		Sc::State st; sc.Initialize(st); bool was = false; size_t wb = 0, we = 0;
		for (size_t i = 0; i < w.size(); ++i) {
			if (i == wait && waits) { std::string chunk(waits, (char) filler); Pire::Run(sc, st, chunk.data(), chunk.data() + chunk.size()); }
			if (w[i] < 256 && r.chance(30)) { // several letters at once
				std::string chunk; do { chunk += (char) w[i++]; } while (i < w.size() && i != wait && w[i] < 256 && chunk.size() < 9);
				--i; Pire::Run(sc, st, chunk.data(), chunk.data() + chunk.size());
			} else Pire::Step(sc, st, vw::letter(w[i]));
			bool now = st.Captured();
			if (was && (!now || st.Begin() != wb || st.End() != we)) run.fail("capture-changed", desc + " after " + vf::str(i + 1) + " letters: was " + vf::str(wb) + ".." + vf::str(we));
			if (now) {
				wb = st.Begin(); we = st.End();
				if (!(wb < we && we <= i + (i >= wait ? waits : 0))) run.fail("bounds-out-of-text", desc + " after " + vf::str(i + 1) + " letters: " + vf::str(wb) + ".." + vf::str(we));
			}
			was = now;
			if (r.chance(10)) { Sc::State copy(st); st = copy; }
		}
		bool acc = d.fin[q];
		if (sc.Final(st) != acc) run.fail(acc ? "rejects-member" : "accepts-nonmember", desc);
		run.count("texts"); if (!acc) continue;
		run.count("texts accepted");
		Parses ps = parses(p.t, w); bool got = st.Captured();
		if (b.empty() || e.empty()) { ++none; if (got) run.fail("captured-nothing", desc + ": " + vf::str(st.Begin()) + ".." + vf::str(st.End()) + " where the group has no place"); continue; }
		if (ps.without || ps.borders.size() != 1) { ++both; continue; }
		int wantB = ps.borders.begin()->first, wantE = ps.borders.begin()->second;
		// only moments up to the group's end count
		std::vector<int> e1; for (int x : e) if (x <= wantE) e1.push_back(x);
		std::vector<int> b1; for (int x : b) if (x <= wantE) b1.push_back(x);
		if (wantB == wantE || wantE >= (int) w.size() || b1.size() != 1 || e1.size() != 1) { ++both; continue; }
		if (b1[0] != wantB || e1[0] != wantE) run.fail("harness", desc + " model disagrees with parse");
		if (!got || st.Begin() != moved(wantB) || st.End() != moved(wantE))
			run.fail("wrong-capture", desc + ": " + (got ? vf::str(st.Begin()) + ".." + vf::str(st.End()) : std::string("none")) + " instead of " + vf::str(moved(wantB)) + ".." + vf::str(moved(wantE)));
		if (waits) run.count("definite captures with a long wait");
		++exact;
	}
	run.count("texts with a definite capture", exact); run.count("texts without the group", none); run.count("texts with an ambiguous capture", both);
	if (pairs > 2 && exact) run.nontrivial(p.desc);
	run.sample(p.desc);
}
