// Random automata built state by state through the raw construction interface, together with their reference.
#ifndef VERIF_RAWFSM_H
#define VERIF_RAWFSM_H
#include "walk.h"
#include "util.h"

namespace raw {

struct Auto {
	Pire::Fsm fsm;
	ref::Nfa nfa;
	std::string desc;
};

struct Edges {
	// from, to, letter (257: empty move; else reference symbols 0..257 shifted: 0..255 bytes, 256/257 marks)
	std::set<std::pair<std::pair<int,int>, int> > e; // letter -1: empty move
};

// Letters of an edge
inline std::vector<int> letters(vf::Rng& rng, int style)
{
	std::vector<int> r;
	switch (style) {
	case 0: r.push_back('a' + rng.below(2)); break;
	case 1: { int k = rng.below(10); r.push_back(k < 7 ? (int) ('a' + rng.below(4)) : k < 8 ? (int) ref::BM : k < 9 ? (int) ref::EM : (int) rng.below(256)); break; }
	case 2: { int a = rng.below(256), b = rng.below(256); if (a > b) std::swap(a, b); for (int c = a; c <= b; ++c) r.push_back(c); if (rng.chance(20)) r.push_back(ref::EM); break; }
	case 3: { // everything but a few
		std::set<int> ex; for (int i = rng.below(3); i >= 0; --i) ex.insert(rng.chance(60) ? (int) ('a' + rng.below(3)) : (int) rng.below(ref::NSYM));
		bool marks = rng.chance(50);
		for (int c = 0; c < (marks ? (int) ref::NSYM : 256); ++c) if (!ex.count(c)) r.push_back(c);
		break; }
	case 4: { int n = 1 + rng.below(5); for (int i = 0; i < n; ++i) r.push_back(rng.below(256)); break; }
	default: r.push_back(rng.below(256)); break;
	}
	return r;
}

inline Pire::Char toChar(int l) { return l < 0 ? (Pire::Char) Pire::Epsilon : vw::letter(l); }

// det: one successor per state and letter at most, no empty moves
inline Auto random(vf::Rng& rng, size_t maxStates, bool det, bool eps = true)
{
	Auto a;
	size_t n = rng.chance(60) ? rng.range(1, std::min<size_t>(maxStates, 6)) : rng.range(1, maxStates);
	int style = rng.below(7);
	std::set<std::pair<std::pair<int,int>, int> > edges; // ((from,letter),to)
	std::set<std::pair<int,int> > used;
	size_t cnt = n * rng.range(1, 4) / (rng.chance(50) ? 1 : 2) + 1;
	int epsPercent = (det || !eps) ? 0 : rng.chance(50) ? 0 : rng.range(5, 40);
	for (size_t i = 0; i < cnt; ++i) {
		int from = rng.below(n), to = rng.chance(10) ? from : rng.below(n);
		std::vector<int> ls;
		if (rng.chance(epsPercent)) ls.push_back(-1);
		else ls = letters(rng, style == 6 ? (int) rng.below(6) : style);
		for (size_t k = 0; k < ls.size(); ++k) {
			if (det && !used.insert(std::make_pair(from, ls[k])).second) continue;
			edges.insert(std::make_pair(std::make_pair(from, ls[k]), to));
		}
	}
	std::set<int> finals;
	switch (rng.below(8)) {
	case 0: break;                                                        // nothing accepted
	case 1: for (size_t i = 0; i < n; ++i) finals.insert(i); break;
	case 2: for (size_t i = 0; i < n; ++i) if (rng.chance(50)) finals.insert(i); break;
	default: finals.insert(rng.below(n)); if (rng.chance(40)) finals.insert(rng.below(n));
	}
	int initial = rng.chance(60) ? 0 : rng.below(n);

	// The automaton, with some edges added in excess and taken back
	a.fsm.Resize(n);
	a.fsm.ClearFinal();
	for (std::set<int>::iterator i = finals.begin(); i != finals.end(); ++i) a.fsm.SetFinal(*i, true);
	if (rng.chance(20)) { size_t x = rng.below(n); if (!finals.count(x)) { a.fsm.SetFinal(x, true); a.fsm.SetFinal(x, false); } }
	a.fsm.SetInitial(initial);
	std::vector<std::pair<std::pair<int,int>, int> > order(edges.begin(), edges.end());
	for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[rng.below(i)]);
	bool extra = rng.chance(20);
	for (size_t i = 0; i < order.size(); ++i) {
		int f = order[i].first.first, l = order[i].first.second, t = order[i].second;
		a.fsm.Connect(f, t, toChar(l));
		if (extra && rng.chance(10)) {
			int x = rng.below(n), y = rng.below(n), z = rng.below(4) + 'a';
			if (!edges.count(std::make_pair(std::make_pair(x, z), y))) { a.fsm.Connect(x, y, z); a.fsm.Disconnect(x, y, z); }
		}
	}
	// The reference
	a.nfa.fin.assign(n, 0); a.nfa.eps.assign(n, std::vector<int>()); a.nfa.tr.assign(n, std::vector<ref::Nfa::Edge>());
	a.nfa.start = initial;
	std::map<std::pair<int,int>, ref::Set> sets;
	for (size_t i = 0; i < order.size(); ++i) {
		int f = order[i].first.first, l = order[i].first.second, t = order[i].second;
		if (l < 0) a.nfa.epsEdge(f, t); else sets[std::make_pair(f, t)].set(l);
	}
	for (std::map<std::pair<int,int>, ref::Set>::iterator i = sets.begin(); i != sets.end(); ++i) a.nfa.edge(i->first.first, i->second, i->first.second);
	for (std::set<int>::iterator i = finals.begin(); i != finals.end(); ++i) a.nfa.fin[*i] = true;

	std::ostringstream o;
	o << "automaton{" << n << " states, initial " << initial << ", final";
	for (std::set<int>::iterator i = finals.begin(); i != finals.end(); ++i) o << " " << *i;
	o << ";";
	size_t shown = 0;
	for (std::map<std::pair<int,int>, ref::Set>::iterator i = sets.begin(); i != sets.end() && shown < 40; ++i, ++shown) {
		o << " " << i->first.first << "->" << i->first.second << ":";
		size_t c = i->second.count(); size_t k = 0;
		for (unsigned s = 0; s < ref::NSYM && k < 6; ++s) if (i->second[s]) { o << (k++ ? "," : "") << s; }
		if (c > 6) o << ",..(" << c << ")";
	}
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < a.nfa.eps[i].size(); ++j) o << " " << i << "->" << a.nfa.eps[i][j] << ":eps";
	o << "}";
	a.desc = o.str();
	return a;
}

// A big deterministic automaton with many letter classes, known minimal or not; states: random graph
inline Auto big(vf::Rng& rng, size_t states, size_t classes)
{
	Auto a;
	size_t n = states;
	std::vector<int> cls(ref::NSYM);
	for (size_t i = 0; i < ref::NSYM; ++i) cls[i] = i < classes ? i : rng.below(classes);
	for (size_t i = ref::NSYM; i > 1; --i) std::swap(cls[i - 1], cls[rng.below(i)]);
	std::vector<ref::Set> sets(classes);
	for (size_t i = 0; i < ref::NSYM; ++i) sets[cls[i]].set(i);
	a.fsm.Resize(n); a.fsm.ClearFinal();
	a.nfa.fin.assign(n, 0); a.nfa.eps.assign(n, std::vector<int>()); a.nfa.tr.assign(n, std::vector<ref::Nfa::Edge>());
	a.nfa.start = 0;
	for (size_t i = 0; i < n; ++i) {
		if (rng.chance(30)) { a.fsm.SetFinal(i, true); a.nfa.fin[i] = true; }
		for (size_t c = 0; c < classes; ++c) {
			if (rng.chance(5)) continue;
			size_t t = rng.below(n);
			a.nfa.edge(i, sets[c], t);
			for (unsigned s = 0; s < ref::NSYM; ++s) if (sets[c][s]) a.fsm.Connect(i, t, vw::letter(s));
		}
	}
	a.desc = "big automaton{" + vf::str(n) + " states, " + vf::str(classes) + " letter classes}";
	return a;
}

// From a pattern or raw; used wherever "some automaton" is needed
inline Auto any(vf::Run& run, size_t maxStates = 12, int patSize = 8)
{
	vf::Rng& rng = run.rng;
	if (rng.chance(50)) { run.count("raw automata"); return random(rng, maxStates, rng.chance(25)); }
	pat::Features f; f.random(rng);
	pat::Gen g(rng, f); g.smallAlphabet = rng.chance(50);
	pat::Pattern p = g.pattern(rng.range(1, patSize));
	Auto a; a.fsm = vu::parse(p.text, f); a.nfa = p.nfa; a.desc = "pattern /" + pat::showText(p.text) + "/ " + f.show();
	run.count("patterns");
	return a;
}

} // namespace raw
#endif
