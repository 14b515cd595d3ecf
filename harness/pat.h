// Random patterns together with the language their syntax denotes (built from the generated syntax tree).
#ifndef VERIF_PAT_H
#define VERIF_PAT_H
#include "ref.h"
#include "casetab.h"

namespace pat {

typedef std::vector<uint32_t> Text; // code points

inline void add(Text& t, const char* s) { for (; *s; ++s) t.push_back((unsigned char) *s); }
inline void add(Text& t, const Text& o) { t.insert(t.end(), o.begin(), o.end()); }

inline std::string utf8(uint32_t c) { // by the definition of UTF-8
	std::string r;
	if (c < 0x80) r += (char) c;
	else if (c < 0x800) { r += (char) (0xC0 | (c >> 6)); r += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { r += (char) (0xE0 | (c >> 12)); r += (char) (0x80 | ((c >> 6) & 63)); r += (char) (0x80 | (c & 63)); }
	else { r += (char) (0xF0 | (c >> 18)); r += (char) (0x80 | ((c >> 12) & 63)); r += (char) (0x80 | ((c >> 6) & 63)); r += (char) (0x80 | (c & 63)); }
	return r;
}
inline std::string toUtf8(const Text& t) { std::string r; for (size_t i = 0; i < t.size(); ++i) r += utf8(t[i]); return r; }
inline std::string showText(const Text& t) {
	std::string r; char b[16];
	for (size_t i = 0; i < t.size(); ++i) { if (t[i] >= 32 && t[i] < 127) r += (char) t[i]; else { snprintf(b, sizeof b, "<U+%04X>", t[i]); r += b; } }
	return r;
}

inline const uint32_t* caseEntry(uint32_t c) {
	unsigned lo = 0, hi = caseTableSize;
	while (lo < hi) { unsigned m = (lo + hi) / 2; if (caseTable[m][0] < c) lo = m + 1; else hi = m; }
	return lo < caseTableSize && caseTable[lo][0] == c ? caseTable[lo] : 0;
}
inline uint32_t upper(uint32_t c) { const uint32_t* e = caseEntry(c); return e ? e[1] : c; }
inline uint32_t lower(uint32_t c) { const uint32_t* e = caseEntry(c); return e ? e[2] : c; }

inline const std::vector<std::vector<uint32_t> >& glyphClasses() {
	static const std::vector<std::vector<uint32_t> > g = {
		{'A', 0x0410}, {'B', 0x0412}, {'C', 0x0421}, {'E', 0x0415, 0x0401}, {'H', 0x041D}, {'K', 0x041A}, {'M', 0x041C}, {'O', 0x041E}, {'P', 0x0420},
		{'T', 0x0422}, {'X', 0x0425}, {'a', 0x0430}, {'c', 0x0441}, {'e', 0x0435, 0x0451}, {'m', 0x0442}, {'o', 0x043E}, {'p', 0x0440}, {'u', 0x0438},
		{'x', 0x0445}, {'y', 0x0443} };
	return g;
}

struct Features {
	bool utf8, ci, andnot, glyphs;
	Features(): utf8(false), ci(false), andnot(false), glyphs(false) {}
	std::string show() const { return std::string(utf8 ? "utf8" : "latin1") + (ci ? "+i" : "") + (andnot ? "+andnot" : "") + (glyphs ? "+glyphs" : ""); }
	void random(vf::Rng& r) { utf8 = r.chance(50); ci = r.chance(25); andnot = r.chance(35); glyphs = r.chance(15); }
};

// Set of characters, after features, as an automaton over bytes
inline std::set<uint32_t> featured(const std::set<uint32_t>& in, const Features& f) {
	std::set<uint32_t> s(in);
	// documented order of Alter(): the higher the priority value the earlier, so case first, then classes, then glyphs
	if (f.ci) {
		std::set<uint32_t> t;
		for (std::set<uint32_t>::iterator i = s.begin(); i != s.end(); ++i) { t.insert(*i); t.insert(upper(*i)); t.insert(lower(*i)); }
		s.swap(t);
	}
	if (f.glyphs) {
		std::set<uint32_t> t(s);
		for (size_t i = 0; i < glyphClasses().size(); ++i) for (size_t j = 0; j < glyphClasses()[i].size(); ++j)
			if (s.count(glyphClasses()[i][j])) t.insert(glyphClasses()[i].begin(), glyphClasses()[i].end());
		s.swap(t);
	}
	return s;
}
inline ref::Nfa charSet(const std::set<uint32_t>& in, const Features& f) {
	std::set<uint32_t> s = featured(in, f);
	if (!f.utf8) {
		ref::Set b;
		for (std::set<uint32_t>::iterator i = s.begin(); i != s.end(); ++i) if (*i < 0x80) b.set(*i);
		return b.any() ? ref::sym(b) : ref::nothing();
	}
	// trie of byte sequences
	ref::Nfa n; int fin = n.add(true);
	std::map<std::string, int> nodes; nodes[""] = 0;
	std::map<std::pair<int,int>, ref::Set> edges;
	for (std::set<uint32_t>::iterator i = s.begin(); i != s.end(); ++i) {
		std::string u = utf8(*i);
		int cur = 0;
		for (size_t k = 0; k < u.size(); ++k) {
			int to;
			if (k + 1 == u.size()) to = fin;
			else {
				std::string p = u.substr(0, k + 1);
				std::map<std::string, int>::iterator it = nodes.find(p);
				if (it == nodes.end()) it = nodes.insert(std::make_pair(p, n.add())).first;
				to = it->second;
			}
			edges[std::make_pair(cur, to)].set((unsigned char) u[k]);
			cur = to;
		}
	}
	for (std::map<std::pair<int,int>, ref::Set>::iterator i = edges.begin(); i != edges.end(); ++i) n.edge(i->first.first, i->second, i->first.second);
	return n;
}
inline ref::Nfa dot(const Features& f) {
	if (!f.utf8) return ref::sym(ref::anyByte());
	ref::Nfa n; int fin = n.add(true), c1 = n.add(), c2 = n.add(), c3 = n.add();
	n.edge(0, ref::bytes(0, 0x7F), fin);
	n.edge(0, ref::bytes(0xC0, 0xDF), c1); n.edge(0, ref::bytes(0xE0, 0xEF), c2); n.edge(0, ref::bytes(0xF0, 0xF7), c3);
	n.edge(c3, ref::bytes(0x80, 0xBF), c2); n.edge(c2, ref::bytes(0x80, 0xBF), c1); n.edge(c1, ref::bytes(0x80, 0xBF), fin);
	return n;
}
inline ref::Nfa negSet(const std::set<uint32_t>& in, const Features& f) { return ref::conj(dot(f), ref::complement(charSet(in, f))); }

struct Pattern { Text text; ref::Nfa nfa; int prec; }; // prec: 0 alternation, 1 conjunction, 2 negation/concatenation, 3 iteration (needs parens before another count), 4 atom

struct Gen {
	vf::Rng& rng; Features f;
	int budget;
	int pool;         // which characters are drawn
	bool marks;       // ^ and $ allowed
	bool counts, classes;
	bool smallAlphabet;
	std::map<std::string, int> shapes;

	Gen(vf::Rng& r, const Features& ft): rng(r), f(ft), budget(12), pool(r.below(4)), marks(true), counts(true), classes(true), smallAlphabet(false) {}

	void shape(const char* s) { ++shapes[s]; }

	uint32_t ch() {
		if (smallAlphabet) return 'a' + rng.below(3);
		if (f.ci && f.utf8 && rng.chance(25)) return caseTable[rng.below(caseTableSize)][0];
		if (f.ci && f.utf8 && rng.chance(4)) return rng.chance(50) ? 0xB5 : 0xFF;
		static const uint32_t ascii[] = {'a','b','c','A','B','C','e','E','x','X','0','1','9',' ','\t','\n','-','_','/','<','>','=','!','"','#','%','\'',',',':',';','@','`',']','}',0x7F,0x01};
		static const uint32_t wide[] = {0x80,0xA0,0xE9,0xC9,0xFF - 0x20,0x7FF,0x800,0x410,0x430,0x44F,0x451,0x401,0x2116,0x3B1,0x391,0x4E2D,0x20AC,0xFFFD,0xFFFF,0x10000,0x1F600,0x10FFFF,0xD7FF,0xE000};
		switch (pool) {
		case 0: return 'a' + rng.below(4);
		case 1: return ascii[rng.below(sizeof ascii / sizeof *ascii)];
		case 2: return rng.chance(50) ? ascii[rng.below(sizeof ascii / sizeof *ascii)] : wide[rng.below(sizeof wide / sizeof *wide)];
		default: {
			if (rng.chance(60)) return 'a' + rng.below(6);
			if (rng.chance(30)) return 0x410 + rng.below(64);
			uint32_t c = rng.chance(50) ? 1 + rng.below(127) : wide[rng.below(sizeof wide / sizeof *wide)];
			return c;
		}
		}
	}
	void hex(Text& t, uint32_t c) {
		char b[32];
		if (c < 256 && rng.chance(50)) snprintf(b, sizeof b, rng.chance(50) ? "\\x%02X" : "\\x%02x", c);
		else snprintf(b, sizeof b, rng.chance(50) ? "\\x{%X}" : "\\x{%06x}", c);
		add(t, b); shape("hex escape");
	}
	// how a character may be written outside of brackets
	Text literal(uint32_t c) {
		Text t;
		bool special = c < 128 && strchr("|().*+?^$\\[{", (int) c) && c;
		bool an = f.andnot && (c == '&' || c == '~');
		if (c == 0 || rng.chance(6)) { hex(t, c); return t; }
		if (special || an || ((c == ']' || c == '}') && rng.chance(50))) { t.push_back('\\'); shape("escaped literal"); }
		else if (c == '\n' && rng.chance(50)) { add(t, "\\n"); return t; }
		else if (c == '\t' && rng.chance(50)) { add(t, "\\t"); return t; }
		t.push_back(c);
		return t;
	}
	// how a character may be written inside brackets
	Text member(uint32_t c, bool alwaysEscape) {
		Text t;
		if (c == 0 || rng.chance(8)) { hex(t, c); return t; }
		if (c < 128 && strchr("^[]-\\", (int) c)) { t.push_back('\\'); t.push_back(c); return t; }
		if (c < 128 && strchr("*+{}()$?.&~", (int) c) && (rng.chance(40)) && !alwaysEscape) { t.push_back('\\'); t.push_back(c); shape("escaped in brackets"); return t; }
		if (c == '\n' && rng.chance(50) && !alwaysEscape) { add(t, "\\n"); return t; }
		t.push_back(c);
		return t;
	}
	static void addClass(std::set<uint32_t>& s, char c) {
		switch (c) {
		case 'd': for (uint32_t i = '0'; i <= '9'; ++i) s.insert(i); break;
		case 's': s.insert(' '); s.insert('\t'); s.insert('\r'); s.insert('\n'); s.insert(0xA0); break;
		case 'n': s.insert('\n'); break; case 'r': s.insert('\r'); break; case 't': s.insert('\t'); break;
		case 'w': addClass(s, 'l'); addClass(s, 'c'); break;
		case 'l': for (uint32_t i = 'a'; i <= 'z'; ++i) { s.insert(i); s.insert(i - 32); } break;
		case 'c': for (uint32_t i = 0x410; i <= 0x44F; ++i) s.insert(i); s.insert(0x401); s.insert(0x451); break;
		}
	}
	Pattern brackets() {
		Pattern p; p.prec = 4; std::set<uint32_t> s;
		bool neg = rng.chance(30);
		p.text.push_back('[');
		if (neg) { p.text.push_back('^'); shape("negated brackets"); } else shape("brackets");
		int n = rng.chance(4) ? 0 : rng.range(1, 4);
		if (n == 0) shape("empty brackets");
		bool negClass = false;
		if (n && !neg && classes && rng.chance(6)) { // a lone negated class inside of brackets
			const char* cl = "dswlc"; char c = cl[rng.below(5)];
			addClass(s, c); p.text.push_back('\\'); p.text.push_back(toupper(c)); n = 0; negClass = true; shape("negated class in brackets");
		}
		if (n && rng.chance(12)) { p.text.push_back('-'); s.insert('-'); shape("leading dash"); }
		for (int i = 0; i < n; ++i) {
			int k = rng.below(10);
			if (k < 5) { uint32_t c = ch(); add(p.text, member(c, false)); s.insert(c); }
			else if (k < 8) { // range within a block with plain case pairs
				uint32_t a, b;
				static const uint32_t blocks[][2] = {{'a','z'},{'A','Z'},{'0','9'},{0x20,0x40},{0x430,0x44F},{0x410,0x42F},{0x3B1,0x3C1},{0x4E00,0x4E60},{0x7D0,0x830},{0xFFE0,0x10020},{0x1F600,0x1F640},{0x00,0x1F},{0x5B,0x60},{0x1,0x7F}};
				const uint32_t* bl = blocks[smallAlphabet ? 0 : pool == 0 ? rng.below(3) : rng.below(sizeof blocks / sizeof *blocks)];
				a = rng.range(bl[0], bl[1]); b = rng.range(bl[0], bl[1]);
				if (a > b && !rng.chance(10)) std::swap(a, b);
				if (smallAlphabet) { a = 'a' + rng.below(3); b = a + rng.below(2); }
				if (a > b) shape("reversed range"); else shape("range");
				add(p.text, member(a, true)); p.text.push_back('-'); add(p.text, member(b, true));
				for (uint32_t c = a; c <= b; ++c) s.insert(c);
			} else if (k < 9 && classes && !smallAlphabet) {
				const char* cl = "dswlcnrt"; char c = cl[rng.below(8)];
				addClass(s, c); p.text.push_back('\\'); p.text.push_back(c); shape("class in brackets");
			} else { uint32_t c = "[]^-\\*+{}()$?.&~"[rng.below(16)]; if (smallAlphabet) c = 'b'; add(p.text, member(c, false)); s.insert(c); }
		}
		p.text.push_back(']');
		p.nfa = (neg || negClass) ? negSet(s, f) : charSet(s, f);
		return p;
	}
	Pattern atom(int depth) {
		--budget;
		Pattern p; p.prec = 4;
		int k = rng.below(100);
		if (depth > 0 && budget > 0 && k < 22) {
			Pattern in = alternation(depth - 1);
			p.text.push_back('('); add(p.text, in.text); p.text.push_back(')'); p.nfa = in.nfa; shape("group");
			return p;
		}
		if (k < 58) { uint32_t c = ch(); p.text = literal(c); std::set<uint32_t> s; s.insert(c); p.nfa = charSet(s, f); return p; }
		if (k < 62) { uint32_t c = "|().*+?^$\\[]{}&~"[rng.below(16)]; if (smallAlphabet) c = 'c'; if (!f.andnot && (c == '&' || c == '~')) p.text.push_back(c); else { p.text = literal(c); } std::set<uint32_t> s; s.insert(c); p.nfa = charSet(s, f); return p; }
		if (k < 70) { p.text.push_back('.'); p.nfa = dot(f); shape("dot"); return p; }
		if (k < 76 && marks) { bool b = rng.chance(50); p.text.push_back(b ? '^' : '$'); p.nfa = ref::sym(ref::one(b ? ref::BM : ref::EM)); shape(b ? "begin anchor" : "end anchor"); return p; }
		if (k < 84 && classes && !smallAlphabet) {
			const char* cl = "dswlcnrt"; char c = cl[rng.below(8)]; bool neg = c != 'n' && c != 'r' && c != 't' && rng.chance(30);
			std::set<uint32_t> s; addClass(s, c);
			p.text.push_back('\\'); p.text.push_back(neg ? toupper(c) : c);
			p.nfa = neg ? negSet(s, f) : charSet(s, f); shape(neg ? "negated class" : "class");
			return p;
		}
		if (k < 96) return brackets();
		p.text.push_back('('); p.text.push_back(')'); p.nfa = ref::empty(); shape("empty group");
		return p;
	}
	Pattern iteration(int depth) {
		Pattern p = atom(depth);
		if (!counts || !rng.chance(35)) return p;
		char b[64]; int lo, hi;
		switch (rng.below(7)) {
		case 0: add(p.text, "*"); lo = 0; hi = -1; shape("star"); break;
		case 1: add(p.text, "+"); lo = 1; hi = -1; shape("plus"); break;
		case 2: add(p.text, "?"); lo = 0; hi = 1; shape("question"); break;
		case 3: lo = hi = rng.below(4); snprintf(b, sizeof b, "{%d}", lo); add(p.text, b); shape("{n}"); break;
		case 4: lo = rng.below(4); hi = -1; snprintf(b, sizeof b, "{%d,}", lo); add(p.text, b); shape("{n,}"); break;
		default: lo = rng.below(4); hi = lo + rng.below(3); snprintf(b, sizeof b, "{%d,%d}", lo, hi); add(p.text, b); shape("{n,m}"); break;
		}
		p.nfa = ref::repeat(p.nfa, lo, hi); p.prec = 3;
		if (p.nfa.size() > 4000) throw ref::TooBig();
		return p;
	}
	Pattern concatenation(int depth) {
		Pattern p; p.prec = 2; p.nfa = ref::empty();
		int n = rng.chance(8) ? 0 : rng.range(1, 4);
		if (!n) shape("empty branch");
		for (int i = 0; i < n; ++i) {
			Pattern q = iteration(depth);
			add(p.text, q.text); p.nfa = ref::cat(p.nfa, q.nfa);
			if (budget <= 0) break;
		}
		return p;
	}
	Pattern negation(int depth) {
		if (!f.andnot || !rng.chance(12)) return concatenation(depth);
		Pattern p = concatenation(depth);
		p.text.insert(p.text.begin(), '~');
		p.nfa = bounded(ref::complement(p.nfa)); shape("not");
		return p;
	}
	ref::Nfa bounded(const ref::Nfa& n) { if (n.size() > 400) throw ref::TooBig(); return n; }
	Pattern conjunction(int depth) {
		Pattern p = negation(depth);
		while (f.andnot && budget > 0 && rng.chance(14)) {
			Pattern q = negation(depth);
			p.text.push_back('&'); add(p.text, q.text); shape("and");
			ref::Dfa a = ref::minimize(ref::determinize(p.nfa, 600)), b = ref::minimize(ref::determinize(q.nfa, 600));
			if (a.size() * b.size() > 2000) throw ref::TooBig();
			p.nfa = ref::conj(ref::toNfa(a), ref::toNfa(b)); p.prec = 1;
		}
		return p;
	}
	Pattern alternation(int depth) {
		Pattern p = conjunction(depth);
		while (budget > 0 && rng.chance(25)) {
			Pattern q = conjunction(depth);
			p.text.push_back('|'); add(p.text, q.text); p.nfa = ref::alt(p.nfa, q.nfa); p.prec = 0; shape("or");
		}
		return p;
	}
	Pattern pattern(int size) { budget = size; return alternation(3); }
};

} // namespace pat
#endif
