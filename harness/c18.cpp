// C18: the easy interface.
// Oracle: the pattern's syntax tree as an automaton, surrounded by anything, asked for "begin mark, text, end mark".
#include <pire/easy.h>
#include "cexpr.h"
const char* vf_prop = "C18";

namespace {

std::string bytes(const pat::Text& t, bool utf)
{
	std::string s;
	for (unsigned c : t) {
		if (!utf || c < 0x80) s += (char) c;
		else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
		else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
		else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	}
	return s;
}

// All ways to write the same options down
template<class P> Pire::Regexp* make(vf::Rng& r, P p, const pat::Features& f)
{
	using namespace Pire;
	int k = (f.utf8 ? 4 : 0) | (f.ci ? 2 : 0) | (f.andnot ? 1 : 0);
	bool reordered = r.chance(50);
	switch (k) {
	case 0: return reordered ? new Regexp(p) : r.chance(50) ? new Regexp(p, LATIN1) : new Regexp(p, Options());
	case 1: return reordered ? new Regexp(p, ANDNOT) : new Regexp(p, LATIN1 | ANDNOT);
	case 2: return reordered ? new Regexp(p, I) : new Regexp(p, I | LATIN1);
	case 3: return reordered ? new Regexp(p, I | ANDNOT) : new Regexp(p, ANDNOT | LATIN1 | I);
	case 4: return reordered ? new Regexp(p, UTF8) : new Regexp(p, LATIN1 | UTF8);
	case 5: return reordered ? new Regexp(p, UTF8 | ANDNOT) : new Regexp(p, ANDNOT | UTF8);
	case 6: if (reordered) { Options o = UTF8 | I; Options o2(o); return new Regexp(p, o2); } return new Regexp(p, I | UTF8);
	default: if (reordered) { Options o; Options o2 = I | UTF8; o = o2; o = o | ANDNOT; return new Regexp(p, o); } return new Regexp(p, UTF8 | I | ANDNOT);
	}
}

// Runs the automaton without determining it
struct Sim {
	const ref::Nfa& n; std::vector<char> mark;
	explicit Sim(const ref::Nfa& a): n(a), mark(a.size(), 0) {}
	bool accepts(const std::vector<unsigned>& w) {
		std::vector<int> s(1, n.start); mark[n.start] = 1; ref::closure(n, s, mark);
		for (unsigned c : w) { std::vector<int> t; for (int q : s) for (auto& e : n.tr[q]) if (e.set[c] && !mark[e.to]) { mark[e.to] = 1; t.push_back(e.to); } s.swap(t); ref::closure(n, s, mark); }
		for (int q : s) if (n.fin[q]) return true;
		return false;
	}
};

bool ask(vf::Run& run, const Pire::Regexp& re, const std::string& t, const std::string& desc)
{
	vf::Rng& r = run.rng; bool res[4]; int n = 0; const char* names[4];
	{ char* p = (char*) malloc(t.size() + (t.empty() ? 1 : 0)); memcpy(p, t.data(), t.size()); names[n] = "range"; res[n++] = re.Matches(p, p + t.size()); free(p); }
	if (r.chance(40)) { names[n] = "string"; res[n++] = re.Matches(t); }
	if (r.chance(40)) { names[n] = "operator"; res[n++] = t ==~ re; }
	if (r.chance(40) && t.find('\0') == std::string::npos) { names[n] = "C string"; res[n++] = r.chance(50) ? re.Matches(t.c_str()) : t.c_str() ==~ re; }
	for (int i = 1; i < n; ++i) if (res[i] != res[0]) run.fail(std::string("ways-disagree"), desc + ": " + names[i] + " " + vf::str(res[i]) + ", range " + vf::str(res[0]));
	return res[0];
}

// Patterns whose deterministic automaton has too many states; the library tries to determine them for seconds
void complicated(vf::Run& run)
{
	vf::Rng& r = run.rng; ref::Nfa n = ref::empty(); std::string s;
	std::string al = r.chance(50) ? "ab" : "01"; char c = al[r.below(2)]; int len = r.range(18, 22);
	bool begin = r.chance(50), end = r.chance(50);
	ref::Set both = ref::one((unsigned char) al[0]) | ref::one((unsigned char) al[1]);
	if (begin) { s += "^"; n = ref::cat(n, ref::sym(ref::one(ref::BM))); }
	s += "[" + al + "]*" + c; n = ref::cat(n, ref::cat(ref::star(ref::sym(both)), ref::sym(ref::one((unsigned char) c))));
	for (int i = 0; i < len; ++i) n = ref::cat(n, ref::sym(both));
	s += "[" + al + "]{" + vf::str(len) + "}";
	if (end) { s += "$"; n = ref::cat(n, ref::sym(ref::one(ref::EM))); } else { s += "x"; n = ref::cat(n, ref::sym(ref::one('x'))); }
	n = ref::surround(n); Sim sim(n); pat::Features f; f.utf8 = r.chance(50);
	std::string desc = "complicated /" + s + "/";
	std::unique_ptr<Pire::Regexp> re(make(r, s, f)); Pire::Regexp copy(*re);
	size_t yes = 0;
	for (int k = 0; k < 60; ++k) {
		std::string t; for (int i = r.range(0, 40); i > 0; --i) t += r.chance(97) ? al[r.below(2)] : 'x';
		if (!end && r.chance(70)) t += 'x';
		std::vector<unsigned> w(1, ref::BM); for (char x : t) w.push_back((unsigned char) x); w.push_back(ref::EM);
		bool want = sim.accepts(w), got = ask(run, k & 1 ? *re : copy, t, desc + " text \"" + t + "\""); yes += want;
		if (want != got) run.fail(want ? "slow:misses-match" : "slow:false-match", desc + " text \"" + t + "\"");
	}
	run.count("complicated patterns"); run.count("complicated patterns' matches", yes); run.nontrivial(desc);
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& r = run.rng;
#ifndef __SANITIZE_ADDRESS__
	if (run.idx % 4000 == 17) return complicated(run);
#endif
	pat::Features f; f.random(r); f.glyphs = false; pat::Gen g(r, f); if (r.chance(30)) g.smallAlphabet = true;
	pat::Pattern p = g.pattern(r.range(1, r.chance(60) ? 5 : 12));
	for (unsigned c : p.text) { if (c >= 0xD800 && c < 0xE000) throw vf::SkipCase("surrogates"); if (!f.utf8 && c >= 0x80) throw vf::SkipCase("not in Latin-1 input"); }
	if (r.chance(12)) { p.text.insert(p.text.begin(), '^'); p.nfa = p.prec == 0 ? p.nfa : ref::cat(ref::sym(ref::one(ref::BM)), p.nfa); if (p.prec < 2) { p.text.erase(p.text.begin()); } else if (p.text.size() > 1 && p.text[1] == '~' && f.andnot) throw vf::SkipCase("negation"); if (p.prec == 1) throw vf::SkipCase("conjunction"); }
	ref::Nfa sur = ref::surround(p.nfa); ref::Dfa d = ref::minimize(ref::determinize(sur, 1500));
	std::string text = bytes(p.text, f.utf8), desc = "/" + vf::show(text) + "/ " + f.show();
	std::unique_ptr<Pire::Regexp> re;
	// errors in between
	if (r.chance(15)) { static const char* const bad[] = {"(a", "a**", "[a", "*", "a|*", "a{3,1}", ")"}; bool thrown = false; try { Pire::Regexp x(bad[r.below(7)]); } catch (const Pire::Error&) { thrown = true; } if (!thrown) run.fail("bad-pattern-accepted", "malformed pattern accepted"); run.count("bad patterns"); }
	bool slow = r.chance(15);
	if (slow) { // given as a scanner
		Pire::Fsm fsm = vu::parse(p.text, f); fsm.Surround(); re.reset(new Pire::Regexp(fsm.Compile<Pire::SlowScanner>())); desc += " slow";
	} else if (r.chance(8)) { Pire::Fsm fsm = vu::parse(p.text, f); fsm.Surround(); re.reset(new Pire::Regexp(fsm.Compile<Pire::Scanner>())); desc += " scanner"; }
	else if (r.chance(50) && text.find('\0') == std::string::npos) re.reset(make(r, text.c_str(), f));
	else re.reset(make(r, text, f));
	std::unique_ptr<Pire::Regexp> copy;
	switch (r.below(5)) {
	case 0: copy.reset(new Pire::Regexp(*re)); break;
	case 1: copy.reset(new Pire::Regexp("another (one|two)")); *copy = *re; break;
	case 2: copy.reset(new Pire::Regexp(*re)); re.reset(); re.swap(copy); break;
	default: ;
	}
	if (copy && r.chance(20)) { *re = *copy; }
	bool long_ = r.chance(2);
	size_t yes = 0, no = 0; std::vector<std::pair<std::string, bool> > past;
	for (int k = 0; k < 30; ++k) {
		std::string t; bool want;
		if (!past.empty() && r.chance(10)) { t = past[r.below(past.size())].first; }
		else {
			int q = d.step(d.start, ref::BM), n = r.chance(10) ? r.range(10, 60) : r.range(0, 9);
			for (int i = 0; i < n; ++i) { unsigned c = 0; for (int a = 0; a < 6; ++a) { c = r.chance(35) && !text.empty() ? (unsigned char) text[r.below(text.size())] : r.chance(60) ? "abcABCxyz 019_-."[r.below(16)] : r.below(256); if (d.step(q, c) != q && d.live[d.step(q, c)]) break; } t += (char) c; q = d.step(q, c); }
			if (long_ && k == 3) { // a very long stretch that changes nothing
				unsigned c = r.below(256); for (int a = 0; a < 256 && (d.step(q, c) != q || !c); ++a) c = (c + 1) & 255;
				if (c && d.step(q, c) == q) { t.append(r.chance(50) ? r.range(65520, 65560) : r.range(65536, 300000), (char) c); run.count("very long texts"); }
			}
			if (r.chance(50) && d.live[q]) { // go on to a match
				std::map<int, std::pair<int, unsigned> > from; std::deque<int> b(1, q); from[q] = std::make_pair(-1, 0u); int hit = -1;
				while (!b.empty() && hit < 0) { int x = b.front(); b.pop_front(); if (d.fin[d.step(x, ref::EM)]) { hit = x; break; } for (unsigned c0 = 0, o = r.below(256); c0 < 256; ++c0) { unsigned c = (c0 + o) & 255; int y = d.step(x, c); if (!from.count(y)) { from[y] = std::make_pair(x, c); b.push_back(y); } } }
				if (hit >= 0) { std::string tail; for (int x = hit; from[x].first >= 0; x = from[x].first) tail += (char) from[x].second; t.append(tail.rbegin(), tail.rend()); }
			}
		}
		{ int q = d.step(d.start, ref::BM); for (char c : t) q = d.step(q, (unsigned char) c); want = d.fin[d.step(q, ref::EM)]; }
		const Pire::Regexp& x = copy && r.chance(50) ? *copy : *re;
		bool got = ask(run, x, t, desc + " text \"" + vf::show(t) + "\"");
		if (got != want) run.fail(want ? "misses-match" : "false-match", desc + (&x == re.get() ? "" : " copy") + " text \"" + vf::show(t) + "\"");
		past.push_back(std::make_pair(t, want)); (want ? yes : no)++;
	}
	run.count("texts matching", yes); run.count("texts not matching", no); run.count("options " + f.show());
	if (yes && no) run.nontrivial(desc);
	run.sample(desc);
}
