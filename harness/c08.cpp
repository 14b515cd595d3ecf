// C08: prefix and suffix searches return the exact extreme match position.
#include "obs.h"
const char* vf_prop = "C08";

namespace {

struct Ctx { vf::Run& run; const raw::Auto& a; const ref::Dfa& d; const ref::Dfa& rd; obs::Letters letters, rletters; bool big; obs::Guarded g; bool reversed; // big: one of the texts is longer than sixteen bits can count
	Ctx(vf::Run& r, const raw::Auto& x, const ref::Dfa& y, const ref::Dfa& z): run(r), a(x), d(y), rd(z), letters(y), rletters(z), big(r.rng.chance(3)), g(big ? 40 : 3), reversed(false) {} };

// Every accepted prefix length; bm: the begin mark is fed first, em: the end mark after the whole text
void ends(const ref::Dfa& d, const std::string& t, unsigned first, unsigned last, bool bm, bool em, long& longest, long& shortest)
{
	longest = shortest = -1;
	int q = d.start; if (bm) q = d.step(q, first);
	for (size_t i = 0; i <= t.size(); ++i) {
		bool acc = d.fin[q] || (em && i == t.size() && d.fin[d.step(q, last)]);
		if (acc) { longest = i; if (shortest < 0) shortest = i; }
		if (i < t.size()) q = d.step(q, (unsigned char) t[i]);
	}
}

template<class Sc> void prefixes(Ctx& c, const Sc& sc, const char* kind)
{
	vf::Run& run = c.run; vf::Rng& rng = run.rng;
	for (int round = run.thorough ? 16 : 10; round > 0; --round) {
		size_t len = rng.chance(30) ? rng.below(34) : rng.chance(80) ? rng.below(200) : rng.below(900);
		if (c.big && round == 1) { len = rng.chance(50) ? rng.range(65500, 65570) : rng.range(65536, 150000); run.count("very long texts"); }
		std::string t = obs::text(rng, c.d, c.letters, len), noise = obs::text(rng, c.d, c.letters, 61);
		for (char* p = c.g.begin(); p < c.g.end(); ) { size_t n = std::min<size_t>(noise.size(), c.g.end() - p); memcpy(p, noise.data(), n); p += n; }
		char* p = obs::place(rng, c.g, len); memcpy(p, t.data(), len);
		for (int m = 0; m < 4; ++m) {
			bool bm = m & 1, em = m & 2;
			long lo, sh; ends(c.d, t, ref::BM, ref::EM, bm, em, lo, sh);
			auto name = [&](const char* r) { return r == 0 ? std::string("none") : vf::str(r - p); };
			auto desc = [&]() { return c.a.desc + " text \"" + vf::show(t) + "\" at " + vf::str((size_t) p % 16) + " mod 16" + (bm ? " with begin mark" : "") + (em ? " with end mark" : ""); };
			const char* r = Pire::LongestPrefix(sc, p, p + len, bm, em);
			if (r != (lo < 0 ? 0 : p + lo)) run.fail(std::string(kind) + ":longest-prefix", desc() + ": " + name(r) + " expected " + vf::str(lo));
			r = Pire::ShortestPrefix(sc, p, p + len, bm, em);
			if (r != (sh < 0 ? 0 : p + sh)) run.fail(std::string(kind) + ":shortest-prefix", desc() + ": " + name(r) + " expected " + vf::str(sh));
			run.count(lo < 0 ? "no prefix" : lo == (long) len ? "whole text" : lo == 0 ? "empty prefix" : "inner prefix");
			if (lo >= 0 && lo != sh) run.count("longest and shortest differ");
		}
		run.seen("alignment and length mod 16", ((size_t) p % 16) * 16 + len % 16);
	}
	run.count(std::string("prefixes: ") + kind);
}

// sc recognises the reversed language
template<class Sc> void suffixes(Ctx& c, const Sc& sc, const char* kind)
{
	vf::Run& run = c.run; vf::Rng& rng = run.rng;
	for (int round = run.thorough ? 16 : 10; round > 0; --round) {
		size_t len = rng.chance(50) ? rng.below(34) : rng.below(300);
		if (c.big && round == 1) { len = rng.range(65500, 150000); run.count("very long texts"); }
		std::string rt = obs::text(rng, c.rd, c.rletters, len), t(rt.rbegin(), rt.rend()), noise = obs::text(rng, c.rd, c.rletters, 61);
		for (char* p = c.g.begin(); p < c.g.end(); ) { size_t n = std::min<size_t>(noise.size(), c.g.end() - p); memcpy(p, noise.data(), n); p += n; }
		char* p = obs::place(rng, c.g, len); memcpy(p, t.data(), len);
		const char* rbegin = p + len - 1; const char* rend = p - 1;
		for (int m = 0; m < 4; ++m) {
			bool em = m & 1, bm = m & 2;
			long lo, sh; ends(c.rd, rt, ref::EM, ref::BM, em, bm, lo, sh);
			auto name = [&](const char* r) { return r == 0 ? std::string("none") : vf::str(rbegin - r); };
			auto desc = [&]() { return "reversed " + c.a.desc + " text \"" + vf::show(t) + "\" at " + vf::str((size_t) p % 16) + " mod 16" + (bm ? " with begin mark" : "") + (em ? " with end mark" : ""); };
			const char* r = Pire::LongestSuffix(sc, rbegin, rend, em, bm);
			if (r != (lo < 0 ? 0 : rbegin - lo)) run.fail(std::string(kind) + ":longest-suffix", desc() + ": length " + name(r) + " expected " + vf::str(lo));
			r = Pire::ShortestSuffix(sc, rbegin, rend, em, bm);
			if (r != (sh < 0 ? 0 : rbegin - sh)) run.fail(std::string(kind) + ":shortest-suffix", desc() + ": length " + name(r) + " expected " + vf::str(sh));
			run.count(lo < 0 ? "no suffix" : lo == (long) len ? "whole text as suffix" : "inner suffix");
		}
	}
	run.count(std::string("suffixes: ") + kind);
}

template<class Sc> void both(Ctx& c, Pire::Fsm f, Pire::Fsm rf, const char* kind)
{
	if (c.run.rng.chance(65)) prefixes(c, Sc(f), kind); else suffixes(c, Sc(rf), kind);
}

raw::Auto make(vf::Run& run)
{
	vf::Rng& rng = run.rng; raw::Auto a;
	int k = rng.below(10);
	if (k < 3) return raw::any(run, 10, 8);
	if (k < 5) { a = raw::any(run, 8, 6); if (rng.chance(50)) { a.fsm.PrependAnything(); a.nfa = ref::cat(ref::anything(), a.nfa); a.desc = "ends with " + a.desc; } else { a.fsm.AppendAnything(); a.nfa = ref::cat(a.nfa, ref::anything()); a.desc = "begins with " + a.desc; } return a; }
	// loops that shortcuts skip, accepting or not, left by one or two bytes
	ref::Nfa n = ref::empty(); Pire::Fsm f; std::string d;
	for (int i = rng.range(1, 4); i > 0; --i) {
		std::string ex; for (int j = rng.below(3); j >= 0; --j) ex += rng.chance(70) ? 'a' + rng.below(4) : (char) rng.below(256);
		ref::Set s; for (unsigned c = 0; c < 256; ++c) if (ex.find((char) c) == std::string::npos) s.set(c);
		switch (rng.below(5)) {
		case 0: case 1: { Pire::Fsm x; x.Resize(1); x.ClearFinal(); x.SetFinal(0, true); x.SetInitial(0); for (unsigned c = 0; c < 256; ++c) if (s[c]) x.Connect(0, 0, c); f += x; n = ref::cat(n, ref::star(ref::sym(s))); d += "[^" + vf::show(ex) + "]*"; break; }
		case 2: { Pire::Fsm x; x.AppendDot(); x.Iterate(); f += x; n = ref::cat(n, ref::star(ref::sym(ref::anyByte()))); d += ".*"; break; }
		case 3: { Pire::Fsm x; x.Append(ex[0]); x.Iterate(); f += x; n = ref::cat(n, ref::star(ref::sym(ref::one((unsigned char) ex[0])))); d += vf::show(ex.substr(0, 1)) + "*"; break; }
		default: f.Append(ex[0]); n = ref::cat(n, ref::sym(ref::one((unsigned char) ex[0]))); d += vf::show(ex.substr(0, 1));
		}
	}
	if (rng.chance(20)) { Pire::Fsm m; m.AppendSpecial(Pire::BeginMark); f = m + f; n = ref::cat(ref::sym(ref::one(ref::BM)), n); d = "^" + d; }
	if (rng.chance(20)) { Pire::Fsm m; m.AppendSpecial(Pire::EndMark); f += m; n = ref::cat(n, ref::sym(ref::one(ref::EM))); d += "$"; }
	a.fsm = f; a.nfa = n; a.desc = d;
	return a;
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	raw::Auto a = make(run);
	ref::Dfa d = ref::minimize(ref::determinize(a.nfa, 600)), rd = ref::minimize(ref::determinize(ref::reverse(a.nfa), 600));
	if (d.size() > 150 || rd.size() > 150) throw ref::TooBig();
	Ctx c(run, a, d, rd);
	Pire::Fsm f(a.fsm), rf(a.fsm); rf.Reverse();
	switch (rng.below(10)) {
	case 0: case 1: case 2: both<Pire::Scanner>(c, f, rf, "multi"); break;
	case 3: both<Pire::ScannerNoMask>(c, f, rf, "multi-nomask"); break;
	case 4: both<Pire::NonrelocScanner>(c, f, rf, "nonreloc"); break;
	case 5: both<Pire::NonrelocScannerNoMask>(c, f, rf, "nonreloc-nomask"); break;
	case 6: both<Pire::SimpleScanner>(c, f, rf, "simple"); break;
	case 7: both<Pire::SlowScanner>(c, f, rf, "slow"); break;
	default: { // glued or paired with another
		raw::Auto b = make(run);
		ref::Dfa u = ref::minimize(ref::determinize(ref::alt(a.nfa, b.nfa), 600)), ru = ref::minimize(ref::determinize(ref::reverse(ref::alt(a.nfa, b.nfa)), 600));
		if (u.size() > 200 || ru.size() > 200) throw ref::TooBig();
		raw::Auto x; x.nfa = ref::alt(a.nfa, b.nfa); x.desc = a.desc + " with " + b.desc;
		Ctx cu(run, x, u, ru); Pire::Fsm g(b.fsm), rg(b.fsm); rg.Reverse();
		int k = rng.below(3);
		if (k == 0) { Pire::Scanner s = Pire::Scanner::Glue(Pire::Scanner(f), Pire::Scanner(g)); if (!s.Empty()) prefixes(cu, s, "glued"); }
		else if (k == 1) { Pire::NonrelocScanner s = Pire::NonrelocScanner::Glue(Pire::NonrelocScanner(rf), Pire::NonrelocScanner(rg)); if (!s.Empty()) suffixes(cu, s, "glued-nonreloc"); }
		else { Pire::Scanner s1(f); Pire::NonrelocScanner s2(g); Pire::ScannerPair<Pire::Scanner, Pire::NonrelocScanner> pr(s1, s2); prefixes(cu, pr, "pair"); }
	}
	}
	if (d.size() > 1) run.nontrivial(a.desc);
	run.sample(a.desc.substr(0, 300));
}
