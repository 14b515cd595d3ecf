// Small random expressions with their languages, and helpers for scanners that count.
#ifndef VERIF_CEXPR_H
#define VERIF_CEXPR_H
#include <list>
#include "zoo.h"

namespace cx {

typedef std::vector<unsigned> Text;
typedef std::vector<std::vector<char> > Matrix; // [i][j]: the letters i..j-1 belong to the language

inline Matrix matrix(const ref::Dfa& d, const Text& t)
{
	size_t n = t.size(); Matrix m(n + 1, std::vector<char>(n + 1, 0));
	for (size_t i = 0; i <= n; ++i) { int q = d.start; for (size_t j = i; ; ++j) { m[i][j] = d.fin[q]; if (j == n) break; q = d.step(q, t[j]); if (!d.live[q]) break; } }
	return m;
}

inline std::set<unsigned> usedLetters(const ref::Dfa& d)
{
	std::set<unsigned> s; std::vector<char> seen(d.size(), 0); std::vector<int> q(1, d.start); seen[d.start] = 1;
	while (!q.empty()) { int x = q.back(); q.pop_back(); for (unsigned c = 0; c < ref::NSYM; ++c) { int t = d.step(x, c); if (d.live[t]) s.insert(c); if (!seen[t]) { seen[t] = 1; q.push_back(t); } } }
	return s;
}

// No word continues another one
inline bool prefixFree(const ref::Dfa& d)
{
	for (size_t q = 0; q < d.size(); ++q) if (d.fin[q]) for (unsigned c = 0; c < ref::NSYM; ++c) if (d.live[d.step(q, c)]) return false;
	return true;
}

// Letters that begin a word appear nowhere else in words
inline bool firstLettersUnique(const ref::Dfa& d)
{
	std::set<unsigned> first, other; std::vector<char> seen(d.size(), 0); std::vector<int> q(1, d.start); seen[d.start] = 1;
	while (!q.empty()) {
		int x = q.back(); q.pop_back();
		for (unsigned c = 0; c < ref::NSYM; ++c) { int t = d.step(x, c); if (!d.live[t]) continue; if (t == d.start) return false; (x == d.start ? first : other).insert(c); if (!seen[t]) { seen[t] = 1; q.push_back(t); } }
	}
	for (unsigned c : first) if (other.count(c)) return false;
	return true;
}

// A random small expression over the given letters, with its language built by the reference
struct Expr { std::string s; ref::Nfa n; };
inline Expr expr(vf::Rng& r, const std::string& letters, int depth, bool alternation)
{
	Expr e; e.n = ref::empty();
	auto cls = [&](std::string& s) { std::set<char> c; for (int i = r.range(2, 3); i > 0; --i) c.insert(letters[r.below(letters.size())]); ref::Set set; s = "["; for (char x : c) { s += x; set.set((unsigned char) x); } s += "]"; return set; };
	for (int i = r.range(1, 3); i > 0; --i) {
		Expr u;
		if (depth > 0 && r.chance(25)) { u = expr(r, letters, depth - 1, true); u.s = "(" + u.s + ")"; }
		else if (r.chance(25)) { u.n = ref::sym(cls(u.s)); }
		else if (r.chance(4)) { u.s = "."; u.n = ref::sym(ref::anyByte()); }
		else { char c = letters[r.below(letters.size())]; u.s = std::string(1, c); u.n = ref::sym(ref::one((unsigned char) c)); }
		if (r.chance(22)) switch (r.below(4)) {
			case 0: u.s += "*"; u.n = ref::star(u.n); break;
			case 1: u.s += "+"; u.n = ref::cat(u.n, ref::star(u.n)); break;
			case 2: u.s += "?"; u.n = ref::opt(u.n); break;
			default: { int lo = r.below(3), hi = lo + 1 + r.below(2); u.s += "{" + vf::str(lo) + "," + vf::str(hi) + "}"; u.n = ref::repeat(u.n, lo, hi); }
		}
		e.s += u.s; e.n = ref::cat(e.n, u.n);
	}
	if (alternation && r.chance(22)) { Expr o = expr(r, letters, 0, false); e.s += "|" + o.s; e.n = ref::alt(e.n, o.n); }
	return e;
}

// Latin-1, so that the dot is one byte
inline Pire::Fsm compile(const std::string& p) { return Pire::Lexer(p).Parse(); }

template<class Sc> std::vector<size_t> counts(const Sc& sc, const Text& t, size_t n)
{
	typename Sc::State st; sc.Initialize(st);
	for (unsigned s : t) Pire::Step(sc, st, vw::letter(s));
	std::vector<size_t> r; for (size_t i = 0; i < n; ++i) r.push_back(st.Result(i));
	return r;
}
inline std::string show(const std::vector<size_t>& v) { return vw::showVec(v); }

template<class Sc> struct Part { Sc sc; std::vector<size_t> which; };

template<class Sc> Sc reload(vf::Rng& r, const Sc& sc, std::vector<zoo::Keep>& keep)
{
	switch (r.below(5)) {
	case 0: { std::ostringstream o; sc.Save(&o); std::istringstream i(o.str()); Sc l; l.Load(&i); return l; }
	case 1: { if (!zoo::Tr<Sc>::map) return sc; std::ostringstream o; sc.Save(&o); std::string s = o.str(); char* m = (char*) malloc(s.size() ? s.size() : 1); memcpy(m, s.data(), s.size()); keep.push_back(zoo::Keep(m, free)); Sc l; zoo::doMap(l, m, s.size(), std::integral_constant<bool, zoo::Tr<Sc>::map>()); return l; }
	case 2: { Sc c(sc), d; d = c; return d; }
	default: return sc;
	}
}

} // namespace cx
#endif
