// C02: any pattern text either compiles or is rejected with the library's error; malformed syntax is rejected.
#include "rawfsm.h"
const char* vf_prop = "C02";

namespace {

enum Type { Atom, Count, Open, Close, Or, And, Not, Bad };
struct Token { pat::Text text; Type type; ref::Nfa nfa; int lo, hi; Token(): type(Atom), lo(0), hi(0) {} };
typedef std::vector<Token> Tokens;

struct Malformed {};

// The documented grammar over tokens: alternatives of conjunctions of (negated) concatenations of counted terms
struct Grammar {
	const Tokens& t; size_t pos;
	explicit Grammar(const Tokens& x): t(x), pos(0) {}
	bool at(Type k) const { return pos < t.size() && t[pos].type == k; }
	ref::Nfa bounded(const ref::Nfa& n) { if (n.size() > 300) throw ref::TooBig(); return n; }
	ref::Nfa whole() { ref::Nfa n = alternation(); if (pos != t.size()) throw Malformed(); return n; }
	ref::Nfa alternation() { ref::Nfa n = conjunction(); while (at(Or)) { ++pos; n = ref::alt(n, conjunction()); } return n; }
	ref::Nfa conjunction() {
		ref::Nfa n = negation();
		while (at(And)) {
			++pos; ref::Nfa m = negation();
			n = ref::conj(ref::toNfa(ref::minimize(ref::determinize(bounded(n), 500))), ref::toNfa(ref::minimize(ref::determinize(bounded(m), 500))));
		}
		return n;
	}
	ref::Nfa negation() { if (at(Not)) { ++pos; return ref::complement(bounded(concatenation())); } return concatenation(); }
	ref::Nfa concatenation() {
		ref::Nfa n = ref::empty();
		while (at(Atom) || at(Open)) n = ref::cat(n, iteration());
		return n;
	}
	ref::Nfa iteration() {
		ref::Nfa n;
		if (at(Open)) { ++pos; n = alternation(); if (!at(Close)) throw Malformed(); ++pos; }
		else n = t[pos++].nfa;
		if (at(Count)) { n = ref::repeat(n, t[pos].lo, t[pos].hi); ++pos; if (n.size() > 3000) throw ref::TooBig(); }
		return n;
	}
};

pat::Text text(const std::string& s) { pat::Text t; pat::add(t, s.c_str()); return t; }

struct Soup {
	vf::Rng& rng; pat::Features f; pat::Gen g;
	Soup(vf::Rng& r, const pat::Features& x): rng(r), f(x), g(r, x) { g.pool = rng.chance(70) ? 0 : rng.below(4); }
	Token tok(Type k, const std::string& s) { Token t; t.type = k; t.text = text(s); if (k == And || k == Not) if (!f.andnot) { t.type = Atom; std::set<uint32_t> c; c.insert(t.text[0]); t.nfa = pat::charSet(c, f); } return t; }
	Token atom() {
		Token t; int k = rng.below(20);
		if (k == 0) return special('^'); if (k == 1) return special('$');
		if (k == 2) { t.text = text("."); t.nfa = pat::dot(f); return t; }
		if (k < 6) { pat::Pattern p = g.brackets(); t.text = p.text; t.nfa = p.nfa; return t; }
		uint32_t c = k < 8 ? "|().*+?^$\\[]{}"[rng.below(14)] : g.ch();
		t.text = g.literal(c); std::set<uint32_t> s; s.insert(c); t.nfa = pat::charSet(s, f); return t;
	}
	Token special(char c) { Token t; t.text = text(std::string(1, c)); t.nfa = ref::sym(ref::one(c == '^' ? ref::BM : ref::EM)); return t; }
	Token count() {
		Token t; t.type = Count; char b[64];
		switch (rng.below(7)) {
		case 0: t.text = text("*"); t.lo = 0; t.hi = -1; break;
		case 1: t.text = text("+"); t.lo = 1; t.hi = -1; break;
		case 2: t.text = text("?"); t.lo = 0; t.hi = 1; break;
		case 3: t.lo = t.hi = rng.below(4); snprintf(b, sizeof b, rng.chance(20) ? "{%03d}" : "{%d}", t.lo); t.text = text(b); break;
		case 4: t.lo = rng.below(4); t.hi = -1; snprintf(b, sizeof b, "{%d,}", t.lo); t.text = text(b); break;
		default: t.lo = rng.below(4); t.hi = t.lo + rng.below(3); snprintf(b, sizeof b, "{%d,%d}", t.lo, t.hi); t.text = text(b);
		}
		return t;
	}
	Token bad() { // malformed wherever it stands
		static const char* anywhere[] = { "{}", "{,}", "{,2}", "{a}", "{ 1}", "{1 }", "{-1}", "{+1}", "{1,0}", "{3,1}", "{2,1}", "{1;2}", "{1,2,3}", "{1,2a}", "{99999999999}", "{2147483648}", "{4294967297}",
			"{0,2147483648}", "{1,4294967298}", "{18446744073709551617}", "{00000000000000000000000000000000000099999999999999999999}", "{1,x}", "{1.5}", "{*}", "{(}",
			"\\xg0", "\\x0g", "\\x{}", "\\x{g}", "\\x{110000}", "\\x{FFFFFFFF}", "\\x{100000000}", "\\x{10000000000000041}", "\\x{41 }", "\\x{-1}", "\\x{0x41}", "\\x{4,1}", "[\\x]", "[\\xg1]", "[\\x{110000}]",
			"\\Z", "\\-", "\\a", "\\1", "\\\"", "\\<", "\\/", "\\e", "\\b", "\\\x01",
			"[a-]", "[\\|]", "[\\Z]", "[\\D\\S]", "[a\\D]", "[\\Da]", "[^\\Da]", "[a-\\d]", "[0-\\x]", "[a-[]", "[a-\\x{110000}]", "[a-^]" };
		Token t; t.type = Bad; t.text = text(anywhere[rng.below(sizeof anywhere / sizeof *anywhere)]);
		if (rng.chance(10)) { static const uint32_t wide[] = {0x100, 0x430, 0x7FF, 0xFFFF, 0x10000, 0x10FFFF, 0xF028, 0xF05B}; t.text.clear(); t.text.push_back('\\'); t.text.push_back(wide[rng.below(8)]); }
		return t;
	}
	Token badEnd() { // malformed when nothing follows
		static const char* end[] = { "\\", "[", "[a", "[^", "[^a", "[a-", "[a-z", "[\\]", "[\\", "{", "{1", "{1,", "{1,2", "\\x", "\\x4", "\\x{", "\\x{41", "[\\x41", "[\\x{41]", "(", "((", "(a", "(a|", "[a-\\]", "[-", "x{", "\\x{4g" };
		Token t; t.type = Bad; t.text = text(end[rng.below(sizeof end / sizeof *end)]);
		return t;
	}
	void valid(Tokens& t, int& budget, int depth) {
		int n = rng.chance(10) ? 0 : rng.range(1, 4);
		if (f.andnot && rng.chance(10)) t.push_back(tok(Not, "~"));
		for (int i = 0; i < n; ++i) {
			if (--budget < 0) break;
			if (depth > 0 && rng.chance(20)) { t.push_back(tok(Open, "(")); valid(t, budget, depth - 1); t.push_back(tok(Close, ")")); }
			else t.push_back(atom());
			if (rng.chance(30)) t.push_back(count());
		}
		if (budget > 0 && rng.chance(20)) { t.push_back(tok(f.andnot && rng.chance(30) ? And : Or, "|")); if (t.back().type == And) t.back().text = text("&"); valid(t, budget, depth); }
	}
	Token any() {
		switch (rng.below(12)) {
		case 0: return tok(Open, "("); case 1: return tok(Close, ")"); case 2: return tok(Or, "|"); case 3: return tok(And, "&"); case 4: return tok(Not, "~");
		case 5: case 6: case 7: return count();
		case 8: return bad();
		default: return atom();
		}
	}
};

// The parsed automaton can be compiled and run
void use(vf::Run& run, Pire::Fsm& f, const std::string& what)
{
	vf::Rng& rng = run.rng;
	if (f.Size() == 0) run.fail("unusable-automaton", what + ": no states");
	if (f.Initial() >= f.Size()) run.fail("unusable-automaton", what + ": start state out of range");
	try {
		std::string t; for (int i = rng.below(20); i > 0; --i) t += rng.chance(70) ? (char) ('a' + rng.below(4)) : (char) rng.below(256);
		bool r1, r2;
		if (rng.chance(20)) { Pire::Fsm g(f); Pire::SlowScanner s = g.Compile<Pire::SlowScanner>(); r1 = Pire::Runner(s).Begin().Run(t).End(); run.count("slow scanners"); }
		else { Pire::Fsm g(f); Pire::SimpleScanner s = g.Compile<Pire::SimpleScanner>(); r1 = Pire::Runner(s).Begin().Run(t).End(); }
		Pire::Scanner s = f.Compile<Pire::Scanner>();
		r2 = Pire::Runner(s).Begin().Run(t).End();
		if (r1 != r2) run.fail("unusable-automaton", what + ": scanners disagree on \"" + vf::show(t) + "\"");
		run.count("parsed and compiled");
	} catch (const Pire::Error& e) { run.count("parsed, too complicated to compile"); run.seen("messages", vf::hashStr(e.what())); }
}

void features(Pire::Lexer& lexer, vf::Rng& rng, const pat::Features& f, bool extra, std::string& shown)
{
	if (f.utf8) lexer.SetEncoding(Pire::Encodings::Utf8());
	if (f.ci) lexer.AddFeature(Pire::Features::CaseInsensitive());
	if (f.andnot) lexer.AddFeature(Pire::Features::AndNotSupport());
	if (f.glyphs) lexer.AddFeature(Pire::Features::GlueSimilarGlyphs());
	shown = f.show();
	if (extra && rng.chance(30)) { size_t n = rng.below(5); lexer.AddFeature(Pire::Features::Capture(n)); shown += "+capture" + vf::str(n); }
	if (extra && rng.chance(5)) { lexer.AddFeature(Pire::Features::CaseInsensitive()); lexer.AddFeature(Pire::Features::GlueSimilarGlyphs()); shown += "+twice"; }
}

void valueOrError(vf::Run& run, const std::vector<Pire::wchar32>& w, const pat::Features& f, const std::string& what)
{
	std::string shown; pat::Text t(w.begin(), w.end());
	Pire::Lexer lexer(w.begin(), w.end());
	features(lexer, run.rng, f, true, shown);
	std::string d = what + " /" + (t.size() > 400 ? pat::showText(pat::Text(t.begin(), t.begin() + 400)) + "..." : pat::showText(t)) + "/ " + shown;
	try {
		Pire::Fsm fsm = lexer.Parse();
		use(run, fsm, d);
		run.count("accepted: " + what);
	} catch (const Pire::Error& e) {
		run.count("rejected: " + what);
		run.seen("messages", vf::hashStr(e.what()));
		if (!*e.what()) run.fail("error-without-message", d);
	}
	run.nontrivial(d);
	if (run.rng.chance(20)) run.sample(d);
}

std::vector<Pire::wchar32> wide(const pat::Text& t) { return std::vector<Pire::wchar32>(t.begin(), t.end()); }

void soup(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	pat::Features f; f.random(rng);
	Soup s(rng, f); Tokens t; int budget = 12;
	s.valid(t, budget, 4);
	int edits = rng.below(4);
	for (int i = 0; i < edits; ++i) {
		size_t p = rng.below(t.size() + 1);
		switch (rng.below(6)) {
		case 0: case 1: t.insert(t.begin() + p, s.any()); break;
		case 2: if (p < t.size()) t.erase(t.begin() + p); break;
		case 3: if (p < t.size()) t.insert(t.begin() + rng.below(t.size() + 1), t[p]); break;
		case 4: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); break;
		default: if (p < t.size()) t[p] = s.any();
		}
	}
	if (rng.chance(6)) t.push_back(s.badEnd());
	pat::Text p; bool bad = false;
	for (size_t i = 0; i < t.size(); ++i) { pat::add(p, t[i].text); bad = bad || t[i].type == Bad; }
	ref::Nfa n;
	bool wellFormed = !bad;
	if (!bad) try { n = Grammar(t).whole(); } catch (const Malformed&) { wellFormed = false; }
	std::string d = "/" + pat::showText(p) + "/ " + f.show();
	std::vector<Pire::wchar32> w = wide(p);
	std::string shown;
	Pire::Lexer lexer(w.begin(), w.end());
	features(lexer, rng, f, false, shown);
	Pire::Fsm fsm; bool parsed = true; std::string message;
	try { fsm = lexer.Parse(); } catch (const Pire::Error& e) { parsed = false; message = e.what(); run.seen("messages", vf::hashStr(message)); }
	if (parsed != wellFormed) {
		if (message.find("complicated") != std::string::npos) { run.count("too complicated to parse"); return; }
		run.fail(parsed ? "malformed-accepted" : "well-formed-rejected", d + " " + message);
	}
	run.count(parsed ? "well-formed token sequences" : "malformed token sequences");
	if (!parsed && message.empty()) run.fail("error-without-message", d);
	if (parsed) {
		ref::Dfa dfa = ref::minimize(ref::determinize(n, 600));
		if (dfa.size() > 150) throw ref::TooBig();
		Pire::Scanner sc = fsm.Compile<Pire::Scanner>();
		vw::walk1(run, sc, dfa, "parsed", [&]() { return d; });
	}
	if (!parsed || rng.chance(30)) {
		// the same lexer, and a new one, parse something else as if nothing had happened
		pat::Gen g(rng, f); pat::Pattern q = g.pattern(5);
		ref::Dfa dfa = ref::minimize(ref::determinize(q.nfa, 400));
		if (dfa.size() < 100) {
			std::vector<Pire::wchar32> v = wide(q.text);
			auto desc = [&]() { return "/" + pat::showText(q.text) + "/ after " + (parsed ? "" : "rejected ") + d; };
			try {
				lexer.Assign(v.begin(), v.end());
				Pire::Fsm again = lexer.Parse();
				vw::walk1(run, again.Compile<Pire::Scanner>(), dfa, "parse-after-error", desc);
				Pire::Fsm fresh = vu::parse(q.text, f);
				vw::walk1(run, fresh.Compile<Pire::Scanner>(), dfa, "fresh-parse-after-error", desc);
			} catch (const Pire::Error& e) { run.fail("rejected-after-error", desc() + ": " + e.what()); }
			run.count("parses after another parse");
		}
	}
	run.nontrivial(d);
	if (!parsed && rng.chance(10)) run.sample("rejected " + d);
}

void noise(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	pat::Features f; f.random(rng);
	std::vector<Pire::wchar32> w;
	if (rng.chance(60)) { // a well-formed pattern with random damage
		pat::Gen g(rng, f); g.pool = rng.below(4); w = wide(g.pattern(rng.range(1, 10)).text);
		for (int i = rng.range(1, 4); i > 0; --i) {
			static const char sp[] = "|().*+?^$\\[]{}&~-,^xdDwSn01a";
			Pire::wchar32 c = rng.chance(85) ? sp[rng.below(sizeof sp)] : rng.below(0x110000);
			size_t p = rng.below(w.size() + 1);
			switch (rng.below(4)) {
			case 0: w.insert(w.begin() + p, c); break;
			case 1: if (p < w.size()) w.erase(w.begin() + p); break;
			case 2: if (p < w.size()) w[p] = c; break;
			default: w.resize(p);
			}
		}
		// keep counts and ranges moderate: their cost is not the subject
		for (size_t i = 0; i + 2 < w.size(); ++i) if (w[i] == '-' && w[i+1] > 0x3000) w[i+1] = 0x450;
		valueOrError(run, w, f, "damaged pattern");
		return;
	}
	static const uint32_t odd[] = {0, 1, 0x7F, 0x80, 0xFF, 0x100, 0xD800, 0xDFFF, 0xE000, 0xF000, 0xF028, 0xF05B, 0xF05C, 0xF078, 0xF0FF, 0xF100, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xEFFFFFFF,
		0xF0000000, 0xF0000028, 0xF000005B, 0xF000005D, 0xF0000078, 0xF000007B, 0xF00000FE, 0xF0000100, 0xFFFFFF80, 0xFFFFFFFF};
	static const char sp[] = "|().*+?^$\\[]{}&~-,^xdDwScnrt012a";
	bool oddOnes = rng.chance(40);
	size_t n = rng.below(rng.chance(80) ? 14 : 40);
	int ops = 0;
	for (size_t i = 0; i < n; ++i) {
		Pire::wchar32 c = rng.chance(65) ? (Pire::wchar32) sp[rng.below(sizeof sp - 1)] : rng.chance(70) ? 'a' + rng.below(4) : oddOnes ? odd[rng.below(sizeof odd / sizeof *odd)] : rng.below(0x500);
		if (c >= '0' && c <= '9' && i && w[i-1] >= '0' && w[i-1] <= '9') c = ','; // counts of one digit
		if (c == '{' || c == '&' || c == '~') if (++ops > 3) c = 'b';
		w.push_back(c);
	}
	valueOrError(run, w, f, oddOnes ? "noise with odd values" : "noise");
}

void big(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	pat::Features f; f.random(rng);
	std::string s; int n; std::string what;
	switch (rng.below(9)) {
	case 0: n = rng.chance(50) ? rng.range(60, 400) : rng.range(400, 12000); s = std::string(n, '(') + "a" + std::string(rng.chance(60) ? n : rng.below(n), ')'); what = "deep nesting"; break;
	case 1: n = rng.range(50, 400); for (int i = 0; i < n; ++i) s += std::string(1, 'a' + i % 26) + "|"; what = "many alternatives"; break;
	case 2: n = rng.range(100, 1500); for (int i = 0; i < n; ++i) s += 'a' + rng.below(26); what = "long literal"; break;
	case 3: n = rng.range(100, 3000); s = "["; for (int i = 0; i < n; ++i) s += 'a' + rng.below(26); if (rng.chance(70)) s += "]"; what = "long brackets"; break;
	case 4: n = rng.range(10, 300); s = "a{" + vf::str(n) + "," + vf::str(n + rng.below(40)) + "}"; what = "large counts"; break;
	case 5: n = rng.range(20, 60); for (int i = 0; i < n; ++i) s += "(a?"; s += std::string(n, ')'); what = "nested optional groups"; break;
	case 6: f.andnot = true; n = rng.range(4, 8); for (int i = 0; i < n; ++i) s += (i ? "&.*" : ".*") + std::string(1, 'a' + i) + ".*"; what = "conjunction of many"; break;
	case 7: s = "\\x{" + std::string(rng.range(1, 5000), rng.chance(50) ? '0' : 'F') + "41}"; what = "long code point"; break;
	default: s = "a{" + std::string(rng.range(1, 3000), '0') + "3}"; what = "long count";
	}
	std::vector<Pire::wchar32> w(s.begin(), s.end());
	valueOrError(run, w, f, what);
}

void bytes(vf::Run& run)
{
	// patterns as byte strings, as most users give them
	vf::Rng& rng = run.rng;
	std::string s; for (int i = rng.below(12); i > 0; --i) s += rng.chance(70) ? "|().*+?^$\\[]{}-,xa"[rng.below(18)] : (char) rng.range(1, 255);
	for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i] == '{' && isdigit((unsigned char) s[i+1])) s[i+1] = '2';
	bool utf = rng.chance(50);
	std::string d = "bytes /" + vf::show(s) + "/ " + (utf ? "utf8" : "latin1");
	try {
		Pire::Fsm f;
		if (rng.chance(50)) { std::vector<Pire::wchar32> w; (utf ? Pire::Encodings::Utf8() : Pire::Encodings::Latin1()).FromLocal(s.data(), s.data() + s.size(), std::back_inserter(w)); Pire::Lexer l(w); if (utf) l.SetEncoding(Pire::Encodings::Utf8()); f = l.Parse(); }
		else if (rng.chance(50)) { Pire::Lexer l(s.c_str()); if (utf) l.SetEncoding(Pire::Encodings::Utf8()); f = l.Parse(); }
		else { Pire::Lexer l(s); if (utf) l.SetEncoding(Pire::Encodings::Utf8()); f = l.Parse(); }
		use(run, f, d); run.count("accepted: bytes");
	} catch (const Pire::Error& e) { run.count("rejected: bytes"); run.seen("messages", vf::hashStr(e.what())); }
	run.nontrivial(d);
}

} // namespace

void vf_case(vf::Run& run)
{
	int k = run.rng.below(100);
	if (k < 55) soup(run);
	else if (k < 88) noise(run);
	else if (k < 94) bytes(run);
	else if (k < 96) big(run);
	else noise(run);
}
