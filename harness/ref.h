// Reference automata, written from the definitions and sharing no code with the library under test.
// The alphabet is the 256 bytes plus the begin mark (256) and the end mark (257).
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <bitset>
#include <deque>
#include <memory>
#include <unordered_map>
#include "common.h"

namespace ref {

enum { BM = 256, EM = 257, NSYM = 258 };
typedef std::bitset<NSYM> Set;

struct TooBig: public vf::SkipCase { TooBig(): vf::SkipCase("reference automaton too big") {} };

inline Set one(unsigned s) { Set r; r.set(s); return r; }
inline Set bytes(unsigned a, unsigned b) { Set r; for (unsigned i = a; i <= b; ++i) r.set(i); return r; } // inclusive
inline Set anyByte() { return bytes(0, 255); }
inline Set anySym() { Set r; r.set(); return r; }

struct Nfa {
	// One start state and any number of accepting ones; eps and labelled edges
	struct Edge { Set set; int to; Edge(const Set& s, int t): set(s), to(t) {} };
	int start;
	std::vector<char> fin;
	std::vector<std::vector<int> > eps;
	std::vector<std::vector<Edge> > tr;
	Nfa(): start(0) { add(); }
	int add(bool f = false) { fin.push_back(f); eps.push_back(std::vector<int>()); tr.push_back(std::vector<Edge>()); return fin.size() - 1; }
	size_t size() const { return fin.size(); }
	void edge(int a, const Set& s, int b) { tr[a].push_back(Edge(s, b)); }
	void epsEdge(int a, int b) { eps[a].push_back(b); }
	int import(const Nfa& o) {
		int off = size();
		for (size_t i = 0; i < o.size(); ++i) {
			add(o.fin[i]);
			for (size_t j = 0; j < o.eps[i].size(); ++j) eps[off + i].push_back(o.eps[i][j] + off);
			for (size_t j = 0; j < o.tr[i].size(); ++j) tr[off + i].push_back(Edge(o.tr[i][j].set, o.tr[i][j].to + off));
		}
		if (size() > 60000) throw TooBig();
		return off;
	}
};

inline Nfa empty() { Nfa n; n.fin[0] = true; return n; }        // { "" }
inline Nfa nothing() { Nfa n; return n; }                        // {}
inline Nfa sym(const Set& s) { Nfa n; int f = n.add(true); n.edge(0, s, f); return n; }
inline Nfa word(const std::string& s) {
	Nfa n; int cur = 0;
	for (size_t i = 0; i < s.size(); ++i) { int t = n.add(); n.edge(cur, one((unsigned char) s[i]), t); cur = t; }
	n.fin[cur] = true;
	return n;
}
inline Nfa cat(const Nfa& a, const Nfa& b) {
	Nfa n(a);
	int off = n.import(b);
	for (size_t i = 0; i < a.size(); ++i) if (a.fin[i]) { n.fin[i] = false; n.epsEdge(i, off + b.start); }
	return n;
}
inline Nfa alt(const Nfa& a, const Nfa& b) {
	Nfa n; n.fin[0] = false;
	int x = n.import(a), y = n.import(b);
	n.epsEdge(0, x + a.start); n.epsEdge(0, y + b.start);
	return n;
}
inline Nfa star(const Nfa& a) {
	Nfa n; n.fin[0] = true;
	int x = n.import(a);
	n.epsEdge(0, x + a.start);
	for (size_t i = 0; i < a.size(); ++i) if (a.fin[i]) n.epsEdge(x + i, 0);
	return n;
}
inline Nfa opt(const Nfa& a) { return alt(a, empty()); }
// hi < 0: unbounded
inline Nfa repeat(const Nfa& a, int lo, int hi) {
	Nfa n = empty();
	for (int i = 0; i < lo; ++i) n = cat(n, a);
	if (hi < 0) n = cat(n, star(a));
	else {
		Nfa tail = empty();
		for (int i = lo; i < hi; ++i) tail = opt(cat(a, tail));
		n = cat(n, tail);
	}
	return n;
}
inline Nfa reverse(const Nfa& a) {
	Nfa n; // state 0: new start
	for (size_t i = 0; i < a.size(); ++i) n.add(false);
	for (size_t i = 0; i < a.size(); ++i) {
		for (size_t j = 0; j < a.eps[i].size(); ++j) n.epsEdge(a.eps[i][j] + 1, i + 1);
		for (size_t j = 0; j < a.tr[i].size(); ++j) n.edge(a.tr[i][j].to + 1, a.tr[i][j].set, i + 1);
		if (a.fin[i]) n.epsEdge(0, i + 1);
	}
	n.fin[a.start + 1] = true;
	return n;
}
inline Nfa anything() { Nfa n; n.fin[0] = true; n.edge(0, anySym(), 0); return n; }
inline Nfa surround(const Nfa& a) { return cat(anything(), cat(a, anything())); }

typedef std::vector<int> States;

inline void closure(const Nfa& n, States& s, std::vector<char>& mark) {
	// s: list of distinct states, mark has them set; extended in place, sorted, marks cleared
	for (size_t i = 0; i < s.size(); ++i)
		for (size_t j = 0; j < n.eps[s[i]].size(); ++j) { int t = n.eps[s[i]][j]; if (!mark[t]) { mark[t] = 1; s.push_back(t); } }
	for (size_t i = 0; i < s.size(); ++i) mark[s[i]] = 0;
	std::sort(s.begin(), s.end());
}

struct Dfa {
	int start;
	int ncls;
	unsigned short cls[NSYM];
	std::vector<int> next; // [state * ncls + class]
	std::vector<char> fin;
	std::vector<char> live; // some accepting state is reachable
	size_t size() const { return fin.size(); }
	int step(int q, unsigned s) const { return next[q * ncls + cls[s]]; }
	bool final(int q) const { return fin[q]; }
	bool accepts(const std::vector<unsigned>& w) const { int q = start; for (size_t i = 0; i < w.size(); ++i) q = step(q, w[i]); return fin[q]; }
	bool accepts(const std::string& w) const { int q = start; for (size_t i = 0; i < w.size(); ++i) q = step(q, (unsigned char) w[i]); return fin[q]; }
	void computeLive() {
		std::vector<std::vector<int> > rev(size());
		for (size_t i = 0; i < size(); ++i) for (int c = 0; c < ncls; ++c) rev[next[i * ncls + c]].push_back(i);
		live.assign(size(), 0);
		std::vector<int> q;
		for (size_t i = 0; i < size(); ++i) if (fin[i]) { live[i] = 1; q.push_back(i); }
		while (!q.empty()) { int s = q.back(); q.pop_back(); for (size_t j = 0; j < rev[s].size(); ++j) if (!live[rev[s][j]]) { live[rev[s][j]] = 1; q.push_back(rev[s][j]); } }
	}
};

inline void partitionOf(const Nfa& n, unsigned short* cls, int& ncls, std::vector<unsigned>& rep) {
	std::vector<unsigned> id(NSYM, 0);
	unsigned cnt = 1;
	std::unordered_set<std::string> seenSets;
	for (size_t i = 0; i < n.size(); ++i) for (size_t j = 0; j < n.tr[i].size(); ++j) {
		const Set& s = n.tr[i][j].set;
		std::string key((const char*) &s, sizeof s);
		if (!seenSets.insert(key).second) continue;
		std::map<unsigned, unsigned> split; // old class -> new class for members in s
		std::map<unsigned, bool> hasOut;
		for (unsigned c = 0; c < NSYM; ++c) if (!s[c]) hasOut[id[c]] = true;
		for (unsigned c = 0; c < NSYM; ++c) if (s[c] && hasOut.count(id[c])) {
			std::map<unsigned, unsigned>::iterator k = split.find(id[c]);
			if (k == split.end()) k = split.insert(std::make_pair(id[c], cnt++)).first;
			id[c] = k->second;
		}
	}
	std::map<unsigned, unsigned> renum; rep.clear();
	for (unsigned c = 0; c < NSYM; ++c) {
		std::map<unsigned, unsigned>::iterator k = renum.find(id[c]);
		if (k == renum.end()) { k = renum.insert(std::make_pair(id[c], (unsigned) renum.size())).first; rep.push_back(c); }
		cls[c] = k->second;
	}
	ncls = rep.size();
}

struct VecHash { size_t operator()(const States& v) const { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < v.size(); ++i) { h ^= (uint64_t) v[i] + 0x9E3779B97F4A7C15ull; h *= 1099511628211ull; } return h; } };

inline Dfa determinize(const Nfa& n, size_t limit = 3000) {
	Dfa d; std::vector<unsigned> rep;
	partitionOf(n, d.cls, d.ncls, rep);
	// Per state and class targets
	std::vector<char> mark(n.size(), 0);
	std::unordered_map<States, int, VecHash> ids;
	std::vector<States> sets;
	States s0(1, n.start); mark[n.start] = 1; closure(n, s0, mark);
	ids[s0] = 0; sets.push_back(s0); d.start = 0;
	size_t work = 0;
	for (size_t q = 0; q < sets.size(); ++q) {
		bool f = false;
		for (size_t i = 0; i < sets[q].size(); ++i) f = f || n.fin[sets[q][i]];
		d.fin.push_back(f);
		for (int c = 0; c < d.ncls; ++c) {
			States t;
			for (size_t i = 0; i < sets[q].size(); ++i) {
				const std::vector<Nfa::Edge>& es = n.tr[sets[q][i]];
				for (size_t j = 0; j < es.size(); ++j) if (es[j].set[rep[c]] && !mark[es[j].to]) { mark[es[j].to] = 1; t.push_back(es[j].to); }
				work += es.size() + 1;
			}
			closure(n, t, mark);
			work += t.size();
			std::unordered_map<States, int, VecHash>::iterator k = ids.find(t);
			if (k == ids.end()) {
				if (sets.size() >= limit) throw TooBig();
				k = ids.insert(std::make_pair(t, (int) sets.size())).first;
				sets.push_back(t);
			}
			d.next.push_back(k->second);
		}
		if (work > 30000000) throw TooBig();
	}
	d.computeLive();
	return d;
}

// Moore's refinement; also drops unreachable states
inline Dfa minimize(const Dfa& d) {
	std::vector<int> order, pos(d.size(), -1);
	order.push_back(d.start); pos[d.start] = 0;
	for (size_t i = 0; i < order.size(); ++i) for (int c = 0; c < d.ncls; ++c) { int t = d.next[order[i] * d.ncls + c]; if (pos[t] < 0) { pos[t] = order.size(); order.push_back(t); } }
	size_t n = order.size();
	std::vector<int> cl(n);
	for (size_t i = 0; i < n; ++i) cl[i] = d.fin[order[i]];
	size_t classes = 0;
	for (;;) {
		std::unordered_map<States, int, VecHash> m;
		std::vector<int> nc(n);
		for (size_t i = 0; i < n; ++i) {
			States k(1, cl[i]);
			for (int c = 0; c < d.ncls; ++c) k.push_back(cl[pos[d.next[order[i] * d.ncls + c]]]);
			nc[i] = m.insert(std::make_pair(k, (int) m.size())).first->second;
		}
		cl.swap(nc);
		if (m.size() == classes) break;
		classes = m.size();
	}
	Dfa r; r.ncls = d.ncls; memcpy(r.cls, d.cls, sizeof r.cls);
	r.start = cl[0]; r.fin.assign(classes, 0); r.next.assign(classes * d.ncls, 0);
	for (size_t i = 0; i < n; ++i) {
		r.fin[cl[i]] = d.fin[order[i]];
		for (int c = 0; c < d.ncls; ++c) r.next[cl[i] * d.ncls + c] = cl[pos[d.next[order[i] * d.ncls + c]]];
	}
	r.computeLive();
	return r;
}

inline Nfa toNfa(const Dfa& d) {
	Nfa n; n.fin.clear(); n.eps.clear(); n.tr.clear();
	for (size_t i = 0; i < d.size(); ++i) n.add(d.fin[i]);
	n.start = d.start;
	std::vector<Set> sets(d.ncls);
	for (unsigned c = 0; c < NSYM; ++c) sets[d.cls[c]].set(c);
	for (size_t i = 0; i < d.size(); ++i) {
		std::map<int, Set> m;
		for (int c = 0; c < d.ncls; ++c) m[d.next[i * d.ncls + c]] |= sets[c];
		for (std::map<int, Set>::iterator k = m.begin(); k != m.end(); ++k) if (d.live[k->first]) n.edge(i, k->second, k->first);
	}
	return n;
}
inline Nfa complement(const Nfa& a) {
	Dfa d = minimize(determinize(a));
	for (size_t i = 0; i < d.size(); ++i) d.fin[i] = !d.fin[i];
	d.computeLive();
	return toNfa(d);
}
inline Nfa conj(const Nfa& a, const Nfa& b) { // direct product of the two NFAs
	Nfa n; n.fin.clear(); n.eps.clear(); n.tr.clear();
	std::map<std::pair<int,int>, int> ids; std::vector<std::pair<int,int> > q;
	q.push_back(std::make_pair(a.start, b.start)); ids[q[0]] = n.add(a.fin[a.start] && b.fin[b.start]); n.start = 0;
	for (size_t i = 0; i < q.size(); ++i) {
		int x = q[i].first, y = q[i].second;
		auto get = [&](int u, int v) -> int {
			std::pair<int,int> k(u, v);
			auto it = ids.find(k);
			if (it != ids.end()) return it->second;
			int r = n.add(a.fin[u] && b.fin[v]);
			if (n.size() > 20000) throw TooBig();
			ids[k] = r; q.push_back(k); return r;
		};
		for (size_t j = 0; j < a.eps[x].size(); ++j) { int t = get(a.eps[x][j], y); n.epsEdge(i, t); }
		for (size_t j = 0; j < b.eps[y].size(); ++j) { int t = get(x, b.eps[y][j]); n.epsEdge(i, t); }
		for (size_t j = 0; j < a.tr[x].size(); ++j) for (size_t k = 0; k < b.tr[y].size(); ++k) {
			Set s = a.tr[x][j].set & b.tr[y][k].set;
			if (s.any()) { int t = get(a.tr[x][j].to, b.tr[y][k].to); n.edge(i, s, t); }
		}
	}
	return n;
}
// All prefixes / suffixes of the language
inline Nfa prefixes(const Nfa& a) {
	Nfa n(a);
	// co-reachable states become final
	std::vector<std::vector<int> > rev(n.size());
	for (size_t i = 0; i < n.size(); ++i) {
		for (size_t j = 0; j < n.eps[i].size(); ++j) rev[n.eps[i][j]].push_back(i);
		for (size_t j = 0; j < n.tr[i].size(); ++j) if (n.tr[i][j].set.any()) rev[n.tr[i][j].to].push_back(i);
	}
	std::vector<int> q; std::vector<char> live(n.size(), 0);
	for (size_t i = 0; i < n.size(); ++i) if (n.fin[i]) { live[i] = 1; q.push_back(i); }
	while (!q.empty()) { int s = q.back(); q.pop_back(); for (size_t j = 0; j < rev[s].size(); ++j) if (!live[rev[s][j]]) { live[rev[s][j]] = 1; q.push_back(rev[s][j]); } }
	for (size_t i = 0; i < n.size(); ++i) n.fin[i] = live[i];
	return n;
}
inline Nfa suffixes(const Nfa& a) { return reverse(prefixes(reverse(a))); }

// A random word of the language-ish: walks towards acceptance with some noise
inline std::vector<unsigned> randomWord(const Dfa& d, vf::Rng& rng, size_t maxLen, bool marks = true) {
	std::vector<unsigned> w; int q = d.start;
	std::vector<std::vector<unsigned> > members(d.ncls);
	for (unsigned c = 0; c < NSYM; ++c) if (marks || c < 256) members[d.cls[c]].push_back(c);
	for (size_t i = 0; i < maxLen; ++i) {
		if (d.fin[q] && rng.chance(20)) break;
		int c = -1;
		for (int tries = 0; tries < 6; ++tries) {
			int k = rng.below(d.ncls);
			if (members[k].empty()) continue;
			c = k;
			if (d.live[d.next[q * d.ncls + k]]) break;
		}
		if (c < 0) continue;
		w.push_back(members[c][rng.below(members[c].size())]);
		q = d.step(q, w.back());
	}
	return w;
}

inline std::string showWord(const std::vector<unsigned>& w) {
	std::string r;
	for (size_t i = 0; i < w.size(); ++i) { if (w[i] == BM) r += "<Begin>"; else if (w[i] == EM) r += "<End>"; else r += vf::show(std::string(1, (char) w[i])); }
	return r;
}

} // namespace ref
#endif
