// C21: text encodings.
// Oracle: the definition of UTF-8 written down here; every code point, every sequence of up to three bytes, and the dot on all texts.
#include "walk.h"
#include "util.h"
#include "rawfsm.h"
#include <pire/encoding.h>
const char* vf_prop = "C21";

namespace {

typedef Pire::wchar32 Wc;

std::string enc(unsigned c)
{
	std::string s;
	if (c < 0x80) s += (char) c;
	else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	return s;
}

enum Kind { Good, Lax, Bad }; // Lax: right structure, but not the shortest form, a surrogate, or above 10FFFF
struct Read { Kind kind; unsigned c; size_t len; };

Read decode(const unsigned char* s, size_t n)
{
	Read r = {Bad, 0, 0}; unsigned b = s[0];
	r.len = b < 0x80 ? 1 : b >= 0xC0 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3 : b >= 0xF0 && b < 0xF8 ? 4 : 0;
	if (!r.len || r.len > n) return r;
	r.c = r.len == 1 ? b : r.len == 2 ? b & 31 : r.len == 3 ? b & 15 : b & 7;
	for (size_t i = 1; i < r.len; ++i) { if ((s[i] & 0xC0) != 0x80) return r; r.c = r.c << 6 | (s[i] & 63); }
	static const unsigned low[] = {0, 0, 0x80, 0x800, 0x10000};
	r.kind = r.c < low[r.len] || (r.c >= 0xD800 && r.c < 0xE000) || r.c > 0x10FFFF ? Lax : Good;
	return r;
}

// A buffer nothing may be read beyond
struct Exact {
	char* p; size_t n;
	explicit Exact(size_t len): p((char*) malloc(len ? len : 1)), n(len) {}
	explicit Exact(const std::string& s): p((char*) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
	~Exact() { free(p); }
};

void one(vf::Run& run, const Exact& b)
{
	Read w = decode((const unsigned char*) b.p, b.n);
	const char* at = b.p; bool threw = false; Wc c = 0;
	try { c = Pire::Encodings::Utf8().FromLocal(at, b.p + b.n); } catch (const Pire::Error&) { threw = true; }
	auto where = [&]() { return "bytes " + vf::show(std::string(b.p, b.n)); };
	if (w.kind == Bad) { if (!threw) run.fail("ill-formed-accepted", where() + " read as " + vf::str((unsigned) c)); return; }
	if (threw) { if (w.kind == Good) run.fail("well-formed-refused", where()); return; }
	if ((unsigned) c != w.c) run.fail("read-wrong", where() + " read as " + vf::str((unsigned) c) + " not " + vf::str(w.c));
	if (at != b.p + w.len) run.fail("read-wrong-length", where() + ": " + vf::str(at - b.p) + " bytes consumed, not " + vf::str(w.len));
}

void points(vf::Run& run, unsigned from, unsigned to)
{
	vf::Rng& r = run.rng; const Pire::Encoding& u = Pire::Encodings::Utf8(); const Pire::Encoding& l = Pire::Encodings::Latin1(); size_t n = 0;
	for (unsigned c = from; c < to; ++c) {
		if (c >= 0xD800 && c < 0xE000) continue;
		std::string e = enc(c), g = u.ToLocal(c);
		if (e != g) run.fail("written-wrong", "U+" + vf::str(c) + " written as " + vf::show(g) + " not " + vf::show(e));
		one(run, Exact(g));
		if (r.chance(10)) one(run, Exact(g + (char) r.below(256)));
		std::string x = l.ToLocal(c);
		if (c < 0x80 ? x != std::string(1, (char) c) : !x.empty()) run.fail("single-byte-written-wrong", "U+" + vf::str(c) + " written as " + vf::show(x));
		++n;
	}
	run.count("code points", n);
	// a pattern that is just this character
	for (int k = run.thorough ? 600 : 200; k > 0; --k) {
		unsigned c = r.range(from, to - 1); if (c >= 0xD800 && c < 0xE000) continue;
		if (c < 0x80 && strchr("|().*+?^$\\[]{}&~", (int) c)) continue;
		bool cls = r.chance(30); ref::Dfa d = ref::minimize(ref::determinize(ref::word(enc(c)), 100));
		std::vector<Wc> t; if (cls) { if (c < 0x80) continue; t.push_back('['); t.push_back(c); t.push_back(']'); } else t.push_back(c);
		Pire::Lexer lexer(t); lexer.SetEncoding(u);
		vw::walk1(run, lexer.Parse().Compile<Pire::Scanner>(), d, "character-pattern", [&]() { return "the pattern of U+" + vf::str(c) + (cls ? " in brackets" : ""); });
		run.count("characters as patterns");
	}
	run.nontrivial("points " + vf::str(from)); run.sample("code points " + vf::str(from) + " to " + vf::str(to - 1));
}

void sequences(vf::Run& run, unsigned b0)
{
	size_t n = 0;
#ifdef __SANITIZE_ADDRESS__
	unsigned step = 7;
#else
	unsigned step = 1;
#endif
	{ Exact b(1); b.p[0] = (char) b0; one(run, b); ++n;
	  const char* at = b.p; bool threw = false; Wc c = 0; try { c = Pire::Encodings::Latin1().FromLocal(at, b.p + 1); } catch (const Pire::Error&) { threw = true; }
	  if (threw != (b0 >= 0x80) || (!threw && ((unsigned) c != b0 || at != b.p + 1))) run.fail("single-byte-read-wrong", "byte " + vf::str(b0)); }
	{ Exact b(2); b.p[0] = (char) b0; for (unsigned i = 0; i < 256; ++i) { b.p[1] = (char) i; one(run, b); ++n; } }
	{ Exact b(3); b.p[0] = (char) b0; for (unsigned i = 0; i < 65536; i += b0 < 0x80 ? step * 5 : step) { b.p[1] = (char) (i >> 8); b.p[2] = (char) i; one(run, b); ++n; } }
	if (b0 >= 0xE0) { static const unsigned char last[] = {0x00, 0x3F, 0x7F, 0x80, 0xA5, 0xBF, 0xC0, 0xFF};
		Exact b(4); b.p[0] = (char) b0; for (unsigned i = 0; i < 65536; i += step * (run.thorough ? 1 : 3)) { b.p[1] = (char) (i >> 8); b.p[2] = (char) i; b.p[3] = (char) last[run.rng.below(8)]; one(run, b); ++n; } }
	run.count("byte sequences", n); run.nontrivial("sequences " + vf::str(b0));
}

void texts(vf::Run& run)
{
	vf::Rng& r = run.rng; std::string s; std::vector<unsigned> want; bool latin = r.chance(20);
	bool many = r.chance(1) && r.chance(15); if (many) run.count("very long texts");
	for (int i = many ? r.range(65530, 80000) : r.range(0, 12); i > 0; --i) {
		unsigned c = r.chance(35) ? r.below(128) : r.chance(30) ? r.range(0x80, 0x7FF) : r.chance(50) ? r.range(0x800, 0xFFFF) : r.chance(20) ? (unsigned) 0x10FFFF - r.below(3) : r.range(0x10000, 0x10FFFF);
		if (latin) c &= 0x7F;
		if (c >= 0xD800 && c < 0xE000) c = 0xFFFD;
		s += enc(c);
	}
	if (!s.empty() && r.chance(60)) for (int k = r.range(1, 2); k > 0; --k) switch (r.below(4)) { // damage it
	case 0: s[r.below(s.size())] = (char) r.below(256); break;
	case 1: s.resize(r.below(s.size()) + 1); break;
	case 2: s.insert(s.begin() + r.below(s.size() + 1), (char) r.range(0x80, 0xFF)); break;
	default: s.erase(s.begin() + r.below(s.size())); if (s.empty()) s = "x";
	}
	Kind k = Good; size_t at = 0;
	while (at < s.size()) {
		if (latin) { if ((unsigned char) s[at] >= 0x80) { k = Bad; break; } want.push_back(s[at++]); continue; }
		Read w = decode((const unsigned char*) s.data() + at, s.size() - at);
		if (w.kind == Lax) throw vf::SkipCase("lax sequence");
		if (w.kind == Bad) { k = Bad; break; }
		want.push_back(w.c); at += w.len;
	}
	Exact b(s); const Pire::Encoding& e = latin ? Pire::Encodings::Latin1() : Pire::Encodings::Utf8(); std::vector<Wc> got; bool threw = false;
	try { e.FromLocal(b.p, b.p + b.n, std::back_inserter(got)); } catch (const Pire::Error&) { threw = true; }
	std::string desc = (latin ? "latin1 text " : "text ") + vf::show(s);
	if (threw != (k == Bad)) run.fail(threw ? "text-refused" : "damaged-text-accepted", desc);
	if (std::vector<unsigned>(got.begin(), got.end()) != want) run.fail("text-read-wrong", desc + ": " + vf::str(got.size()) + " characters read");
	std::string back; for (Wc c : got) back += e.ToLocal(c);
	if (back != s.substr(0, at)) run.fail("text-written-back-wrong", desc);
	run.count(threw ? "damaged texts" : "texts"); run.nontrivial(desc); run.sample(desc.substr(0, 200));
}

// The dot after a random automaton: between "certainly a character" and "has a character's structure"
void dot(vf::Run& run)
{
	vf::Rng& r = run.rng; bool utf = r.chance(75); using namespace ref;
	Nfa lo, hi;
	if (utf) {
		Set t = ref::bytes(0x80, 0xBF);
		hi = alt(alt(sym(ref::bytes(0, 0x7F)), cat(sym(ref::bytes(0xC0, 0xDF)), sym(t))), alt(cat(sym(ref::bytes(0xE0, 0xEF)), cat(sym(t), sym(t))), cat(cat(sym(ref::bytes(0xF0, 0xF7)), sym(t)), cat(sym(t), sym(t)))));
		lo = alt(sym(ref::bytes(0, 0x7F)), cat(sym(ref::bytes(0xC2, 0xDF)), sym(t)));
		lo = alt(lo, cat(sym(ref::bytes(0xE0, 0xE0)), cat(sym(ref::bytes(0xA0, 0xBF)), sym(t))));
		lo = alt(lo, cat(sym(ref::bytes(0xE1, 0xEC) | ref::bytes(0xEE, 0xEF)), cat(sym(t), sym(t))));
		lo = alt(lo, cat(sym(ref::bytes(0xED, 0xED)), cat(sym(ref::bytes(0x80, 0x9F)), sym(t))));
		lo = alt(lo, cat(sym(ref::bytes(0xF0, 0xF0)), cat(sym(ref::bytes(0x90, 0xBF)), cat(sym(t), sym(t)))));
		lo = alt(lo, cat(sym(ref::bytes(0xF1, 0xF3)), cat(sym(t), cat(sym(t), sym(t)))));
		lo = alt(lo, cat(sym(ref::bytes(0xF4, 0xF4)), cat(sym(ref::bytes(0x80, 0x8F)), cat(sym(t), sym(t)))));
	} else { hi = sym(anyByte()); lo = sym(ref::bytes(0, 0x7F)); }
	Pire::Fsm fsm; Nfa pre = ref::empty(); int dots = r.range(1, 2); std::string desc;
	Nfa L = ref::empty(), H = ref::empty();
	auto random = [&]() { if (r.chance(60)) return; raw::Auto a = raw::random(r, 4, false); fsm += a.fsm; L = cat(L, a.nfa); H = cat(H, a.nfa); desc += " (" + a.desc + ")"; };
	const Pire::Encoding& e = utf ? Pire::Encodings::Utf8() : Pire::Encodings::Latin1();
	random();
	for (int i = 0; i < dots; ++i) { if (r.chance(50)) e.AppendDot(fsm); else { Pire::Fsm d; e.AppendDot(d); fsm += d; } L = cat(L, lo); H = cat(H, hi); desc += " dot"; random(); }
	if (r.chance(30)) { fsm.Iterate(); L = ref::star(L); H = ref::star(H); desc += " repeated"; }
	Dfa dl = minimize(determinize(L, 1500)), dh = minimize(determinize(H, 1500)); desc = (utf ? "utf8" : "latin1") + desc;
	Pire::Scanner sc = fsm.Compile<Pire::Scanner>();
	struct Item { int l, h; Pire::Scanner::State s; };
	std::deque<Item> q; std::set<std::string> seen; Item f; f.l = dl.start; f.h = dh.start; sc.Initialize(f.s); q.push_back(f); size_t pairs = 0;
	while (!q.empty() && pairs < 3000) {
		Item it = q.front(); q.pop_front(); ++pairs; bool g = sc.Final(it.s);
		if (dl.fin[it.l] && !g) run.fail("dot-refuses-character", desc);
		if (!dh.fin[it.h] && g) run.fail("dot-accepts-non-character", desc);
		for (unsigned c = 0; c < ref::NSYM; ++c) { Item n = it; n.l = dl.step(it.l, c); n.h = dh.step(it.h, c); sc.Next(n.s, vw::letter(c)); size_t i = sc.StateIndex(n.s); std::string k = vf::str(n.l) + "," + vf::str(n.h) + "," + vf::str(i); if (seen.insert(k).second) q.push_back(n); }
	}
	run.count("dots"); run.seen("dot states", pairs); run.nontrivial(desc + vf::str(pairs)); run.sample(desc + ": " + vf::str(pairs) + " states");
}

} // namespace

void vf_case(vf::Run& run)
{
	if (run.idx < 272) return points(run, run.idx * 4096, run.idx * 4096 + 4096);
	if (run.idx < 528) return sequences(run, run.idx - 272);
	if (run.idx == 528) {
		char c = 0; const char* p = &c; bool a = false, b = false;
		try { Pire::Encodings::Utf8().FromLocal(p, &c); } catch (const Pire::Error&) { a = true; }
		try { Pire::Encodings::Latin1().FromLocal(p, &c); } catch (const Pire::Error&) { b = true; }
		if (!a || !b) run.fail("empty-read", "reading a character of an empty text"); return;
	}
	if (run.rng.chance(40)) dot(run); else texts(run);
}
