// C06: removing empty moves, pruning, determinising and minimising keep the language and do their job.
#include "rawfsm.h"
const char* vf_prop = "C06";

namespace {

// All letters the library knows, in place of which the marks and the unused values stand; the empty move apart
std::vector<Pire::Char> allLetters() { std::vector<Pire::Char> v; for (unsigned c = 0; c < Pire::MaxChar; ++c) if (c != Pire::Epsilon) v.push_back(c); return v; }
const std::vector<Pire::Char>& LETTERS() { static const std::vector<Pire::Char> v = allLetters(); return v; }
int symbol(Pire::Char c) { return c < 256 ? (int) c : c == Pire::BeginMark ? (int) ref::BM : c == Pire::EndMark ? (int) ref::EM : -1; }

// What the automaton's transition table shows
struct Table {
	size_t n, init;
	std::vector<char> fin;
	std::vector<std::vector<std::vector<size_t> > > tr; // state, letter index -> destinations
	std::vector<std::vector<size_t> > eps;
};
Table read(const Pire::Fsm& f)
{
	Table t; t.n = f.Size(); t.init = f.Initial();
	const std::vector<Pire::Char>& L = LETTERS();
	t.fin.resize(t.n); t.tr.resize(t.n); t.eps.resize(t.n);
	for (size_t i = 0; i < t.n; ++i) {
		t.fin[i] = f.IsFinal(i); t.tr[i].resize(L.size());
		for (size_t k = 0; k < L.size(); ++k) { const Pire::Fsm::StatesSet& s = f.Destinations(i, L[k]); t.tr[i][k].assign(s.begin(), s.end()); }
		const Pire::Fsm::StatesSet& s = f.Destinations(i, Pire::Epsilon); t.eps[i].assign(s.begin(), s.end());
	}
	return t;
}
ref::Nfa language(const Table& t)
{
	ref::Nfa n; n.fin.clear(); n.eps.clear(); n.tr.clear();
	for (size_t i = 0; i < t.n; ++i) n.add(t.fin[i]);
	n.start = t.init;
	for (size_t i = 0; i < t.n; ++i) {
		std::map<size_t, ref::Set> m;
		for (size_t k = 0; k < t.tr[i].size(); ++k) { int s = symbol(LETTERS()[k]); if (s >= 0) for (size_t j = 0; j < t.tr[i][k].size(); ++j) m[t.tr[i][k][j]].set(s); }
		for (auto& e : m) n.edge(i, e.second, e.first);
		for (size_t j = 0; j < t.eps[i].size(); ++j) n.epsEdge(i, t.eps[i][j]);
	}
	return n;
}
// A text on which two complete automata differ, or ""
bool differ(const ref::Dfa& a, const ref::Dfa& b, std::string& where)
{
	struct It { int p, q, parent, sym; };
	std::vector<It> q; std::set<std::pair<int,int> > seen;
	It s = {a.start, b.start, -1, -1}; q.push_back(s); seen.insert(std::make_pair(a.start, b.start));
	// joint letter classes
	std::map<std::pair<int,int>, unsigned> reps; for (unsigned c = 0; c < ref::NSYM; ++c) reps.insert(std::make_pair(std::make_pair((int) a.cls[c], (int) b.cls[c]), c));
	for (size_t i = 0; i < q.size(); ++i) {
		if (a.fin[q[i].p] != b.fin[q[i].q]) {
			std::vector<unsigned> w; for (int k = i; q[k].parent >= 0; k = q[k].parent) w.push_back(q[k].sym);
			std::reverse(w.begin(), w.end()); where = ref::showWord(w); return true;
		}
		for (auto& r : reps) {
			It n = {a.step(q[i].p, r.second), b.step(q[i].q, r.second), (int) i, (int) r.second};
			if (seen.insert(std::make_pair(n.p, n.q)).second) q.push_back(n);
		}
	}
	return false;
}
std::set<size_t> dead(const Table& t) // not on a path from the start to acceptance
{
	std::vector<std::vector<size_t> > fwd(t.n), bwd(t.n);
	for (size_t i = 0; i < t.n; ++i) {
		std::set<size_t> s(t.eps[i].begin(), t.eps[i].end());
		for (auto& k : t.tr[i]) s.insert(k.begin(), k.end());
		for (size_t j : s) { fwd[i].push_back(j); bwd[j].push_back(i); }
	}
	auto reach = [&](const std::vector<std::vector<size_t> >& g, std::vector<size_t> q) { std::vector<char> m(t.n, 0); for (size_t i : q) m[i] = 1; for (size_t i = 0; i < q.size(); ++i) for (size_t j : g[q[i]]) if (!m[j]) { m[j] = 1; q.push_back(j); } return m; };
	std::vector<size_t> fins; for (size_t i = 0; i < t.n; ++i) if (t.fin[i]) fins.push_back(i);
	std::vector<char> a = reach(fwd, std::vector<size_t>(1, t.init)), b = reach(bwd, fins);
	std::set<size_t> r; for (size_t i = 0; i < t.n; ++i) if (!a[i] || !b[i]) r.insert(i);
	return r;
}
// Number of distinguishable continuations of a deterministic complete table (partition refinement by definition)
size_t distinguishable(const Table& t, bool& unreachable)
{
	std::vector<size_t> order(1, t.init); std::vector<char> m(t.n, 0); m[t.init] = 1;
	for (size_t i = 0; i < order.size(); ++i) for (auto& k : t.tr[order[i]]) for (size_t j : k) if (!m[j]) { m[j] = 1; order.push_back(j); }
	unreachable = order.size() != t.n;
	// letters with equal columns
	std::map<std::vector<size_t>, size_t> cols;
	for (size_t k = 0; k < LETTERS().size(); ++k) { std::vector<size_t> c; for (size_t i : order) c.push_back(t.tr[i][k][0]); cols.insert(std::make_pair(c, k)); }
	std::vector<size_t> cl(t.n, 0); for (size_t i : order) cl[i] = t.fin[i];
	size_t classes = 0;
	for (;;) {
		std::map<std::vector<size_t>, size_t> ids; std::vector<size_t> nc(t.n, 0);
		for (size_t i : order) { std::vector<size_t> key(1, cl[i]); for (auto& c : cols) key.push_back(cl[t.tr[i][c.second][0]]); nc[i] = ids.insert(std::make_pair(key, ids.size())).first->second; }
		cl.swap(nc);
		if (ids.size() == classes) return classes;
		classes = ids.size();
	}
}

struct Mon {
	vf::Run& run; const ref::Dfa& want; std::string desc;
	Mon(vf::Run& r, const ref::Dfa& d, const std::string& s): run(r), want(d), desc(s) {}

	void same(const Table& t, const std::string& op) {
		std::string w;
		if (t.n == 0 || t.init >= t.n) run.fail(op + ":start-out-of-range", desc);
		if (differ(ref::determinize(language(t), 4000), want, w)) run.fail(op + ":language-changed", desc + " text \"" + w + "\"");
		run.count("languages compared");
	}
	void deadExact(const Pire::Fsm& f, const Table& t, const std::string& op) {
		Pire::TSet<size_t> got = f.DeadStates(); std::set<size_t> w = dead(t);
		std::set<size_t> g(got.begin(), got.end());
		if (g != w) run.fail("dead-states", desc + " after " + op + ": DeadStates()=" + vw::showVec(std::vector<size_t>(g.begin(), g.end())) + " expected " + vw::showVec(std::vector<size_t>(w.begin(), w.end())));
		run.count("dead state sets compared"); if (!w.empty()) run.count("dead states found", w.size());
	}
	void deterministic(const Pire::Fsm& f, const Table& t, const std::string& op, bool complete) {
		if (!f.IsDetermined()) run.fail(op + ":not-determined", desc + ": IsDetermined() is false");
		for (size_t i = 0; i < t.n; ++i) {
			if (!t.eps[i].empty()) run.fail(op + ":empty-move-left", desc + ": state " + vf::str(i));
			for (size_t k = 0; k < t.tr[i].size(); ++k)
				if (t.tr[i][k].size() > 1 || (complete && t.tr[i][k].empty())) run.fail(op + ":successors", desc + ": state " + vf::str(i) + " letter " + vf::str(LETTERS()[k]) + " has " + vf::str(t.tr[i][k].size()) + " successors");
		}
		run.count("deterministic tables checked");
	}
	void minimal(const Table& t, const std::string& op) {
		bool unreachable; size_t n = distinguishable(t, unreachable);
		if (n != t.n || unreachable) run.fail(op + ":not-minimal", desc + ": " + vf::str(t.n) + " states, " + vf::str(n) + " distinguishable" + (unreachable ? ", some unreachable" : ""));
		run.seen("minimal sizes", n); run.count("minimal tables checked");
	}
};

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	raw::Auto a;
	int k = rng.below(100);
	if (k < 45) a = raw::any(run);
	else if (k < 85) a = raw::random(rng, 30, rng.chance(40));
	else if (k < 93) a = raw::big(rng, rng.range(2, 60), rng.range(1, 40));
	else if (k < 97) a = raw::big(rng, rng.range(100, run.thorough ? 1500 : 400), rng.range(2, 4));
	else { // blow-up: the n-th letter from the end
		int n = rng.range(3, 9); pat::Text t; pat::add(t, ".*a"); for (int i = 0; i < n; ++i) pat::add(t, "."); pat::Features f; a.fsm = vu::parse(t, f);
		a.nfa = ref::cat(ref::star(ref::sym(ref::anyByte())), ref::cat(ref::word("a"), ref::repeat(ref::sym(ref::anyByte()), n, n))); a.desc = "/" + pat::showText(t) + "/";
	}
	if (rng.chance(15)) { a.fsm.Surround(); a.nfa = ref::surround(a.nfa); a.desc = "surrounded " + a.desc; }
	else if (rng.chance(6)) { a.fsm.Reverse(); a.nfa = ref::reverse(a.nfa); a.desc = "reversed " + a.desc; }
	ref::Dfa d = ref::minimize(ref::determinize(a.nfa, 2500));
	Mon m(run, d, a.desc);
	Pire::Fsm f(a.fsm);
	size_t before = f.Size();

	// the subset construction's own size, and limits around it
	size_t N;
	{
		Pire::Fsm g(f);
		if (!g.Determine()) run.fail("determine:failed", a.desc);
		Table t = read(g); m.deterministic(g, t, "determine", true); m.same(t, "determine"); m.deadExact(g, t, "determine");
		N = g.Size();
		if (N > 1500 && !run.thorough) { run.count("big subset constructions"); }
		run.seen("determinised sizes", N);
		g.Minimize(); t = read(g); m.deterministic(g, t, "minimize", true); m.same(t, "minimize"); m.minimal(t, "minimize"); m.deadExact(g, t, "minimize");
		if (g.Size() > N) run.fail("minimize:grew", a.desc);
		if (rng.chance(20)) { size_t s = g.Size(); g.Minimize(); if (g.Size() != s) run.fail("minimize:again", a.desc); m.same(read(g), "minimize-again"); }
	}
	for (int i = 0; i < 2; ++i) {
		size_t limit = rng.chance(70) ? (size_t) std::max<long>(1, (long) N - 3 + (long) rng.below(7)) : rng.range(1, N + 2);
		Pire::Fsm g(f);
		bool det0 = g.IsDetermined();
		if (det0) { run.count("already determined"); break; }
		bool canon = rng.chance(30), ok = true;
		if (canon) { try { g.Canonize(limit); } catch (const Pire::Error&) { ok = false; } } else ok = g.Determine(limit);
		std::string op = std::string(canon ? "canonize" : "determine") + "-limit";
		std::string dd = a.desc + " limit " + vf::str(limit);
		Mon ml(run, d, dd);
		if (ok && N > limit + 1) run.fail(op + ":exceeded", dd + ": needs " + vf::str(N) + " states, has " + vf::str(g.Size()));
		if (!ok && N <= limit) run.fail(op + ":failed-within-limit", dd + ": needs only " + vf::str(N));
		Table t = read(g);
		ml.same(t, op);
		if (ok) { ml.deterministic(g, t, op, true); if (canon) ml.minimal(t, op); run.count("size limits kept"); }
		else {
			if (g.IsDetermined()) run.fail(op + ":failed-but-determined", dd);
			run.count("size limits exceeded");
			g.Canonize(); t = read(g); ml.same(t, op + "-then-canonize"); ml.minimal(t, op + "-then-canonize");
		}
	}
	// a random order of transformations
	std::string ops;
	bool sparse = false;
	for (int i = rng.range(1, 6); i > 0; --i) {
		int op = rng.below(8);
		std::string name;
		switch (op) {
		case 0: f.RemoveEpsilons(); sparse = true; name = "remove-epsilons"; break;
		case 1: case 2: f.RemoveDeadEnds(); name = "remove-dead-ends"; break;
		case 3: if (!f.Determine()) run.fail("determine:failed", a.desc + ops); sparse = true; name = "determine"; break;
		case 4: if (!f.IsDetermined()) continue; f.Minimize(); name = "minimize"; break;
		case 5: f.Canonize(); sparse = true; name = "canonize"; break;
		case 6: if (sparse) { f.Unsparse(); sparse = false; name = "unsparse"; } else { f.Sparse(true); sparse = true; name = "sparse"; } 
			if (f.IsDetermined() && !sparse) { f.Sparse(); sparse = true; name = "unsparse-sparse"; } break;
		default: { Pire::Fsm g(f); Pire::Fsm h; h.Swap(g); f = h; name = "copy"; }
		}
		ops += " " + name;
		m.desc = a.desc + " after" + ops;
		Table t = read(f);
		m.same(t, name); m.deadExact(f, t, name);
		if (op == 0) for (size_t s = 0; s < t.n; ++s) if (!t.eps[s].empty()) run.fail(name + ":empty-move-left", m.desc);
		if (op == 1 || op == 2) {
			// what is dead has no transitions left
			std::set<size_t> x = dead(t);
			for (size_t s = 0; s < t.n; ++s) { for (size_t j : t.eps[s]) if (x.count(j) || x.count(s)) run.fail(name + ":dead-end-left", m.desc); for (auto& l : t.tr[s]) for (size_t j : l) if (x.count(j) || x.count(s)) run.fail(name + ":dead-end-left", m.desc); }
		}
		if (op == 3 || op == 4 || op == 5) m.deterministic(f, t, name, true);
		if (op == 4 || op == 5) m.minimal(t, name);
		run.count("operation " + name);
	}
	// and the scanner built in the end
	{ Pire::Fsm g(f); vw::walk1(run, g.Compile<Pire::SimpleScanner>(), d, "compiled", [&]() { return m.desc; }, false, 400); }
	if (N > 2) run.nontrivial(a.desc + ops);
	run.seen("states before", before);
	run.sample(a.desc.substr(0, 200) + ": " + vf::str(before) + " states, determinised " + vf::str(N) + ", minimal " + vf::str(d.size()) + ";" + ops);
}
