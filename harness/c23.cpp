// C23: automata edited state by state hold what was put into them, and states and transitions keep their flags.
#include "rawfsm.h"
const char* vf_prop = "C23";

namespace {

using Pire::Char;
const std::vector<Char>& LETTERS() { static std::vector<Char> v; if (v.empty()) for (unsigned c = 0; c < Pire::MaxChar; ++c) v.push_back(c); return v; }

// What an automaton holds
struct Model {
	size_t n, init;
	std::set<size_t> fin;
	std::map<std::pair<size_t, Char>, std::set<size_t> > tr;
	std::map<size_t, unsigned long> tag;
	std::map<std::pair<size_t, size_t>, unsigned long> out;
	Model(): n(1), init(0) { fin.insert(0); }
	bool has(size_t f, size_t t, Char c) const { auto i = tr.find(std::make_pair(f, c)); return i != tr.end() && i->second.count(t); }
	bool has(size_t f, size_t t) const { for (auto i = tr.lower_bound(std::make_pair(f, (Char) 0)); i != tr.end() && i->first.first == f; ++i) if (i->second.count(t)) return true; return false; }
	unsigned long output(size_t f, size_t t) const { auto i = out.find(std::make_pair(f, t)); return i == out.end() ? 0 : i->second; }
	unsigned long tagOf(size_t s) const { auto i = tag.find(s); return i == tag.end() ? 0 : i->second; }
	bool hasEpsilon() const { for (auto& x : tr) if (x.first.second == Pire::Epsilon && !x.second.empty()) return true; return false; }
	void import(const Model& m) {
		for (auto& x : m.tr) for (size_t t : x.second) tr[std::make_pair(x.first.first + n, x.first.second)].insert(t + n);
		for (auto& x : m.tag) tag[x.first + n] = x.second;
		for (auto& x : m.out) out[std::make_pair(x.first.first + n, x.first.second + n)] = x.second;
		n += m.n;
	}
	ref::Nfa nfa() const {
		ref::Nfa a; a.fin.clear(); a.eps.clear(); a.tr.clear();
		for (size_t i = 0; i < n; ++i) a.add(fin.count(i));
		a.start = init;
		std::map<std::pair<size_t, size_t>, ref::Set> m;
		for (auto& x : tr) for (size_t t : x.second) {
			Char c = x.first.second;
			if (c == Pire::Epsilon) { a.epsEdge(x.first.first, t); continue; }
			int s = c < 256 ? (int) c : c == Pire::BeginMark ? (int) ref::BM : c == Pire::EndMark ? (int) ref::EM : -1;
			if (s >= 0) m[std::make_pair(x.first.first, t)].set(s);
		}
		for (auto& x : m) a.edge(x.first.first, x.second, x.first.second);
		return a;
	}
};

Char letter(vf::Rng& r) { int k = r.below(20); return k < 12 ? 'a' + r.below(3) : k < 14 ? (Char) r.below(256) : k < 15 ? (Char) Pire::BeginMark : k < 16 ? (Char) Pire::EndMark : k < 18 ? (Char) Pire::Epsilon : "\xff" "z"[r.below(2)] & 0xFF; }

void compare(vf::Run& run, const Pire::Fsm& f, const Model& m, bool unpacked, const std::string& desc)
{
	if (f.Size() != m.n) run.fail("size", desc + ": " + vf::str(f.Size()) + ", expected " + vf::str(m.n));
	if (f.Initial() != m.init) run.fail("initial", desc);
	std::set<size_t> fin(f.Finals().begin(), f.Finals().end());
	if (fin != m.fin) run.fail("finals", desc);
	for (size_t s = 0; s < m.n; ++s) {
		if (f.IsFinal(s) != (bool) m.fin.count(s)) run.fail("finals", desc);
		if (f.Tag(s) != m.tagOf(s)) run.fail("tag", desc + ": state " + vf::str(s) + " has " + vf::str(f.Tag(s)) + ", expected " + vf::str(m.tagOf(s)));
		std::set<Char> letters;
		for (Char c : LETTERS()) {
			const Pire::Fsm::StatesSet& d = f.Destinations(s, c);
			auto i = m.tr.find(std::make_pair(s, c)); static const std::set<size_t> none; const std::set<size_t>& w = i == m.tr.end() ? none : i->second;
			if (d.size() != w.size() || !std::equal(w.begin(), w.end(), d.begin())) run.fail("destinations", desc + ": state " + vf::str(s) + " letter " + vf::str(c) + ": " + vw::showVec(std::vector<size_t>(d.begin(), d.end())) + " expected " + vw::showVec(std::vector<size_t>(w.begin(), w.end())));
			if (!w.empty()) letters.insert(c);
		}
		if (unpacked) {
			auto got = f.OutgoingLetters(s); std::set<Char> g(got.begin(), got.end());
			if (g != letters) run.fail("outgoing-letters", desc + ": state " + vf::str(s) + ": " + vw::showVec(std::vector<size_t>(g.begin(), g.end())) + " expected " + vw::showVec(std::vector<size_t>(letters.begin(), letters.end())));
		}
		for (size_t t = 0; t < m.n; ++t) {
			if (f.Connected(s, t) != m.has(s, t)) run.fail("connected", desc + ": " + vf::str(s) + " to " + vf::str(t));
			Char c = letter(run.rng); if (f.Connected(s, t, c) != m.has(s, t, c)) run.fail("connected", desc + ": " + vf::str(s) + " to " + vf::str(t) + " by " + vf::str(c));
			if (f.Output(s, t) != m.output(s, t)) run.fail("output", desc + ": " + vf::str(s) + " to " + vf::str(t) + ": " + vf::str(f.Output(s, t)) + ", expected " + vf::str(m.output(s, t)));
		}
	}
	run.count("automata compared"); run.seen("sizes", m.n);
}

// Flags of transitions that are no more do not count
void forget(Pire::Fsm& f, Model& m)
{
	for (auto i = m.out.begin(); i != m.out.end(); ) {
		if (m.has(i->first.first, i->first.second)) { ++i; continue; }
		f.SetOutput(i->first.first, i->first.second, 0); m.out.erase(i++);
	}
}

void edit(vf::Run& run, Pire::Fsm& f, Model& m, int steps, int depth, std::string& ops)
{
	vf::Rng& r = run.rng;
	for (int k = 0; k < steps; ++k) {
		size_t a = r.below(m.n), b = r.below(m.n), d = r.below(m.n); Char c = letter(r); std::ostringstream o;
		switch (r.below(depth ? 18 : 17)) {
		case 0: { size_t by = r.range(1, 3); if (m.n > 12) break; if (f.Resize(m.n + by) != m.n) run.fail("resize", ops); m.n += by; o << "resize " << m.n; break; }
		case 1: case 2: case 3: case 4: case 5: f.Connect(a, b, c); m.tr[std::make_pair(a, c)].insert(b); o << a << "-" << c << ">" << b; break;
		case 6: { Char lo = r.below(256), hi = r.below(256); for (Char x = lo; x <= hi; ++x) { f.Connect(a, b, x); m.tr[std::make_pair(a, x)].insert(b); } o << a << "-" << lo << ".." << hi << ">" << b; break; }
		case 7: f.Disconnect(a, b, c); m.tr[std::make_pair(a, c)].erase(b); forget(f, m); o << a << "/" << c << ">" << b; break;
		case 8: f.Disconnect(a, b); for (auto& x : m.tr) if (x.first.first == a) x.second.erase(b); forget(f, m); o << a << "/>" << b; break;
		case 9: { bool on = r.chance(70); f.SetFinal(a, on); if (on) m.fin.insert(a); else m.fin.erase(a); o << "final " << a << "=" << on; break; }
		case 10: if (r.chance(30)) { f.ClearFinal(); m.fin.clear(); o << "clear-final"; } else { f.SetInitial(a); m.init = a; o << "initial " << a; } break;
		case 11: { unsigned long t = r.chance(20) ? 0 : 1ul << r.below(32); f.SetTag(a, t); m.tag[a] = t; o << "tag " << a << "=" << t; break; }
		case 12: case 13: { // some transition
			std::vector<std::pair<size_t, size_t> > v; for (auto& x : m.tr) for (size_t t : x.second) v.push_back(std::make_pair(x.first.first, t));
			if (v.empty()) break; auto p = v[r.below(v.size())]; unsigned long w = r.chance(15) ? 0 : 1ul << r.below(32);
			f.SetOutput(p.first, p.second, w); m.out[p] = w; o << "output " << p.first << ">" << p.second << "=" << w; break; }
		case 14: { // all transitions between two states go elsewhere, with their flags
			f.Divert(a, b, d); o << "divert " << a << ">" << b << " to " << d;
			if (b != d) {
				bool some = false; for (auto& x : m.tr) if (x.first.first == a && x.second.erase(b)) { x.second.insert(d); some = true; }
				if (some) { unsigned long w = m.output(a, b); if (w) m.out[std::make_pair(a, d)] |= w; }
				m.out.erase(std::make_pair(a, b)); if (some) run.count("transitions diverted");
			}
			break; }
		case 15: f.ConnectFinal(b, c); for (size_t s : m.fin) m.tr[std::make_pair(s, c)].insert(b); o << "finals-" << c << ">" << b; break;
		case 16: {
			int way = r.below(5);
			if (way == 0) { Pire::Fsm g(f), h; h.Swap(g); f = h; o << "copy"; }
			else if (way == 1) { f.Sparse(true); compare(run, f, m, false, ops + " sparse"); f.Unsparse(); o << "sparse-unsparse"; run.count("letters packed and unpacked"); }
			else if (way == 2) { f.Unsparse(); o << "unsparse"; }
			else if (way == 3 && r.chance(30)) { f.ClearOutputs(); m.out.clear(); o << "clear-outputs"; }
			break; }
		default: {
			if (m.n > 14) break;
			Pire::Fsm g; Model gm; std::string gops; edit(run, g, gm, r.range(1, 12), depth - 1, gops);
			if (r.chance(30)) { g.Sparse(true); gops += " sparse"; }
			if (r.chance(20)) { f.Sparse(true); ops += " sparse;"; }
			f.Import(g); m.import(gm); o << "import{" << gops << " }"; run.count("automata imported"); }
		}
		if (!o.str().empty()) ops += " " + o.str() + ";";
		if (r.chance(10)) compare(run, f, m, true, ops);
	}
}

// The states a text may lead to
struct Walk {
	const Model& m;
	explicit Walk(const Model& x): m(x) {}
	std::set<size_t> close(std::set<size_t> s) const {
		std::vector<size_t> q(s.begin(), s.end());
		for (size_t i = 0; i < q.size(); ++i) { auto e = m.tr.find(std::make_pair(q[i], (Char) Pire::Epsilon)); if (e != m.tr.end()) for (size_t t : e->second) if (s.insert(t).second) q.push_back(t); }
		return s;
	}
	std::set<size_t> step(const std::set<size_t>& s, Char c) const { std::set<size_t> n; for (size_t a : s) { auto e = m.tr.find(std::make_pair(a, c)); if (e != m.tr.end()) n.insert(e->second.begin(), e->second.end()); } return close(n); }
	unsigned long tags(const std::set<size_t>& s) const { unsigned long t = 0; for (size_t a : s) t |= m.tagOf(a); return t; }
	// Once such a state is in, everything is accepted from here on
	bool terminal(size_t a) const {
		std::set<size_t> one; one.insert(a); one = close(one);
		bool fin = false; for (size_t x : one) if (m.fin.count(x)) fin = true;
		if (!fin) return false;
		for (unsigned s = 0; s < ref::NSYM; ++s) { bool loop = false; for (size_t x : one) if (m.has(x, a, vw::letter(s))) loop = true; if (!loop) return false; }
		return true;
	}
};

// Flags are united when states are
void flags(vf::Run& run, Pire::Fsm f, const Model& m, const std::string& desc)
{
	vf::Rng& r = run.rng; Walk w(m);
	bool outs = !m.hasEpsilon();
	unsigned long allTags = 0; for (auto& x : m.tag) if (x.first < m.n) allTags |= x.second;
	f.SetIsDetermined(false);
	Pire::Fsm det(f); if (r.chance(30)) det.RemoveEpsilons();
	if (!det.Determine()) run.fail("determine", desc);
	Pire::Fsm mini(det); mini.Minimize();
	{ ref::Dfa d = ref::minimize(ref::determinize(m.nfa(), 2500)); Pire::Fsm g(mini); for (size_t i = 0; i < g.Size(); ++i) g.SetTag(i, 0); /* tags are the scanner's own flags */ vw::walk1(run, g.Compile<Pire::SimpleScanner>(), d, "language", [&]() { return desc; }, false, 300); }
	std::vector<char> term(m.n); for (size_t i = 0; i < m.n; ++i) term[i] = w.terminal(i);
	std::vector<Char> used; for (auto& x : m.tr) if (!x.second.empty() && x.first.second != Pire::Epsilon) used.push_back(x.first.second);
	size_t united = 0;
	for (int k = 0; k < 12; ++k) {
		std::set<size_t> s; s.insert(m.init); s = w.close(s); size_t p = det.Initial(), q = mini.Initial(); std::string text;
		for (int len = 0; len < 14; ++len) {
			unsigned long want = w.tags(s);
			if (det.Tag(p) != want) run.fail("united-tags", desc + " after" + text + ": tag " + vf::str(det.Tag(p)) + ", of the states it stands for " + vf::str(want));
			if ((mini.Tag(q) & want) != want || (mini.Tag(q) & ~allTags)) run.fail("minimised-tags", desc + " after" + text + ": tag " + vf::str(mini.Tag(q)) + ", at least " + vf::str(want) + " expected");
			if (want) run.count("tags compared");
			bool stop = false; for (size_t a : s) if (term[a]) stop = true;
			if (stop || used.empty()) break;
			Char c = r.chance(90) ? used[r.below(used.size())] : (Char) r.below(256);
			std::set<size_t> n = w.step(s, c);
			auto& dp = det.Destinations(p, c); auto& dq = mini.Destinations(q, c);
			if (dp.size() != 1 || dq.size() != 1) run.fail("successors", desc);
			size_t np = *dp.begin(), nq = *dq.begin();
			if (outs) {
				unsigned long least = 0, most = 0; for (size_t a : s) for (size_t b : n) { most |= m.output(a, b); if (m.has(a, b, c)) least |= m.output(a, b); }
				unsigned long got = det.Output(p, np), got2 = mini.Output(q, nq);
				if ((got & least) != least || (got & ~most)) run.fail("united-outputs", desc + " after" + text + " letter " + vf::str(c) + ": output " + vf::str(got) + ", expected " + vf::str(least));
				if (got != got2) run.fail("minimised-outputs", desc + " after" + text + " letter " + vf::str(c) + ": output " + vf::str(got2) + ", before minimising " + vf::str(got));
				if (least) run.count("outputs compared");
			}
			if (n.size() > 1) ++united;
			s.swap(n); p = np; q = nq; text += " " + vf::str(c);
		}
	}
	if (united) run.count("walks through united states");
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& r = run.rng;
	Pire::Fsm f; Model m; std::string ops;
	edit(run, f, m, r.range(3, r.chance(30) ? 80 : 30), 2, ops);
	compare(run, f, m, true, ops);
	// used as it is, and again after being edited
	flags(run, f, m, ops);
	if (r.chance(40)) { ops += " || "; edit(run, f, m, r.range(1, 8), 1, ops); compare(run, f, m, true, ops); flags(run, f, m, ops); run.count("edited again"); }
	if (m.tr.size() > 2) run.nontrivial(ops);
	run.sample(ops.substr(0, 300));
}
