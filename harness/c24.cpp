// C24: custom lexer features: called in the documented order, on the right input, and their terms mean what built-in ones do.
#include "walk.h"
#include "util.h"
const char* vf_prop = "C24";

namespace {

typedef Pire::wchar32 W;
enum { OPEN1 = 0xE101, CLOSE1, OPEN2, CLOSE2, WORDS, COUNT, BEGIN, END, DOT, OR, AND, NOT, FAIL, LETTER, FIRSTCODE = OPEN1, LASTCODE = LETTER };

int alive; // features in existence

// The order of calls, watched
struct Log {
	std::vector<int> all;                   // priorities of the watching features, in rising order
	std::vector<int> accepts, alters;       // asked, and shown a term, since the last term
	size_t terms, groups; std::vector<int> parens; std::string wrong;
	Log(): terms(0), groups(0) {}
	void fail(const std::string& s) { if (wrong.empty()) wrong = s; }
};

struct Base: Pire::Feature {
	int prio; Log& log;
	Base(int p, Log& l): prio(p), log(l) { ++alive; }
	~Base() { --alive; }
	int Priority() const { return prio; }
	void seen() const {
		// every feature is shown every term once, those of higher numbers first
		if (!log.alters.empty() && log.alters.back() <= prio) log.fail("Alter() out of order: " + vf::str(prio) + " after " + vf::str(log.alters.back()));
		log.alters.push_back(prio);
		if (log.alters.size() == log.all.size()) { log.alters.clear(); log.accepts.clear(); ++log.terms; }
	}
	void asked() const {
		if (!log.alters.empty()) log.fail("Accepts() amid Alter()");
		if (!log.accepts.empty() && log.accepts.back() >= prio) log.fail("Accepts() out of order: " + vf::str(prio) + " after " + vf::str(log.accepts.back()));
		if (!log.accepts.empty() || prio == log.all[0]) {} else log.fail("the first feature was not asked");
		log.accepts.push_back(prio);
		if (log.accepts.size() > 1) for (size_t i = 0; i < log.accepts.size(); ++i) if (log.accepts[i] != log.all[i]) { log.fail("a feature was not asked"); break; }
	}
	void called() { // the groups' order is that of Alter()
		if (!log.parens.empty() && log.parens.back() <= prio) log.fail("Parenthesized() out of order");
		log.parens.push_back(prio);
		if (log.parens.size() == log.all.size()) { log.parens.clear(); ++log.groups; }
	}
	bool Accepts(W) const { asked(); return false; }
	void Alter(Pire::Term&) { seen(); }
	void Parenthesized(Pire::Fsm&) { called(); }
};

// Reads some letters, puts them back and refuses
struct Refuser: Base {
	unsigned state; vf::Run& run;
	Refuser(int p, Log& l, unsigned s, vf::Run& r): Base(p, l), state(s), run(r) {}
	bool Accepts(W c) const { asked(); return (c + state) % 3 != 0; }
	Pire::Term Lex() {
		state = state * 1103515245u + 12345u; std::vector<W> v;
		W peek = PeekChar();
		for (unsigned n = 1 + (state >> 16) % 7; n; --n) { v.push_back(GetChar()); if (v.back() == Pire::Consts::End) break; }
		if (v[0] != peek) log.fail("PeekChar() and GetChar() differ");
		while (!v.empty()) { UngetChar(v.back()); v.pop_back(); }
		if (PeekChar() != peek) log.fail("UngetChar() did not restore the input");
		run.count("terms refused");
		return Pire::Term(0);
	}
};

// Exchanges letters in every set of characters
struct Exchange: Base {
	std::map<W, W> m;
	Exchange(int p, Log& l, const std::map<W, W>& x): Base(p, l), m(x) {}
	void Alter(Pire::Term& t) {
		seen();
		if (!t.Value().IsA<Pire::Term::CharacterRange>()) return;
		const Pire::Term::CharacterRange& old = t.Value().As<Pire::Term::CharacterRange>(); Pire::Term::CharacterRange cr; cr.second = old.second;
		for (auto& s : old.first) { Pire::Term::String n; for (W c : s) { auto i = m.find(c); n.push_back(i == m.end() ? c : i->second); } cr.first.insert(n); }
		t = Pire::Term(t.Type(), cr);
	}
};

// Its own parentheses, which append something to what is inside
struct Group: Base {
	W open, close; char suffix; bool pending; vf::Run& run;
	Group(int p, Log& l, W o, W c, char s, vf::Run& r): Base(p, l), open(o), close(c), suffix(s), pending(false), run(r) {}
	bool Accepts(W c) const { asked(); return c == open || c == close; }
	Pire::Term Lex() { W c = GetChar(); if (c == close) pending = true; return Pire::Term(c == open ? Pire::TokenTypes::Open : Pire::TokenTypes::Close); }
	void Parenthesized(Pire::Fsm& f) { called(); if (pending) { f.Append(suffix); pending = false; run.count("groups changed"); } }
};

// Spells terms in its own way
struct Speller: Base {
	const std::vector<std::vector<std::string> >& words; size_t next; vf::Run& run;
	Speller(int p, Log& l, const std::vector<std::vector<std::string> >& w, vf::Run& r): Base(p, l), words(w), next(0), run(r) {}
	bool Accepts(W c) const { asked(); return c >= WORDS && c <= LASTCODE; }
	Pire::Term Lex() {
		W c = GetChar(); run.count("terms spelt by a feature");
		switch (c) {
		case WORDS: { Pire::Term::CharacterRange cr; cr.second = false; for (auto& w : words[next]) cr.first.insert(Pire::Term::String(w.begin(), w.end())); ++next; return Pire::Term(Pire::TokenTypes::Letters, cr); }
		case COUNT: { int lo = GetChar() - '0', hi = -1; W h = GetChar(); if (h != '*') hi = h - '0'; return Pire::Term::Repetition(lo, hi < 0 ? (int) Pire::Consts::Inf : hi); }
		case BEGIN: return Pire::Term::BeginMark();
		case END: return Pire::Term::EndMark();
		case DOT: return Pire::Term::Dot();
		case OR: return Pire::Term(Pire::TokenTypes::Or);
		case AND: return Pire::Term(Pire::TokenTypes::And);
		case NOT: return Pire::Term(Pire::TokenTypes::Not);
		case LETTER: return Pire::Term::Character(GetChar());
		default: Error("not understood"); return Pire::Term(0);
		}
	}
};

ref::Nfa image(const ref::Nfa& n, const std::map<W, W>& m)
{
	ref::Nfa r(n);
	for (auto& s : r.tr) for (auto& e : s) { ref::Set x; for (unsigned c = 0; c < ref::NSYM; ++c) if (e.set[c]) { auto i = m.find(c); x.set(i == m.end() ? c : i->second); } e.set = x; }
	return r;
}

struct Build {
	vf::Run& run; vf::Rng& r; pat::Features f; bool groups; char suffix[2]; bool own;
	std::vector<std::vector<std::string> > words; pat::Text text;
	Build(vf::Run& x): run(x), r(x.rng), groups(false), own(false) {}
	void put(uint32_t c) { text.push_back(c); }
	ref::Nfa plain(int size) {
		pat::Gen g(r, f); g.smallAlphabet = r.chance(70); pat::Pattern p = g.pattern(size);
		for (uint32_t c : p.text) if (c >= FIRSTCODE && c <= LASTCODE) throw vf::SkipCase("the pattern uses a code of the features");
		pat::add(text, p.text); return p.nfa;
	}
	ref::Nfa part(int depth) {
		ref::Nfa n; int k = r.below(10);
		if (k < 3) { bool o = own && r.chance(50); put('('); if (o) { put(BEGIN); put('('); } n = plain(r.range(1, 4)); put(')'); if (o) { put(')'); n = ref::cat(ref::sym(ref::one(ref::BM)), n); } }
		else if (k < 6 && groups) { int w = r.below(2); put(w ? OPEN2 : OPEN1); n = depth > 0 && r.chance(60) ? whole(depth - 1) : plain(r.range(1, 4)); put(w ? CLOSE2 : CLOSE1); n = ref::cat(n, ref::word(std::string(1, suffix[w]))); }
		else if (k < 8 && own) {
			put(WORDS); std::vector<std::string> v; n = ref::nothing();
			for (int i = r.range(1, 5); i > 0; --i) { std::string s; for (int j = r.range(2, 4); j > 0; --j) s += "abcd"[r.below(4)]; v.push_back(s); n = ref::alt(n, ref::word(s)); }
			words.push_back(v);
		}
		else if (k == 8 && own) { int t = r.below(3); put(t == 0 ? BEGIN : t == 1 ? END : LETTER); if (t == 2) put('7'); n = t == 0 ? ref::sym(ref::one(ref::BM)) : t == 1 ? ref::sym(ref::one(ref::EM)) : ref::word("7"); }
		else if (own && !f.utf8 && r.chance(50)) { put(DOT); n = ref::sym(ref::anyByte()); }
		else { put('('); n = plain(r.range(1, 3)); put(')'); }
		if (r.chance(25)) {
			int lo = r.below(3), hi = lo + r.below(3); bool inf = r.chance(30);
			if (own && r.chance(70)) { put(COUNT); put('0' + lo); put(inf ? '*' : '0' + hi); }
			else { put('{'); put('0' + lo); put(','); if (!inf) put('0' + hi); put('}'); }
			n = ref::repeat(n, lo, inf ? -1 : hi);
		}
		return n;
	}
	ref::Nfa conc(int depth) { bool no = own && depth == TOP && r.chance(12); if (no) put(NOT); ref::Nfa n = ref::empty(); for (int k = r.range(1, 3); k > 0; --k) n = ref::cat(n, part(depth)); return no ? ref::complement(n) : n; }
	ref::Nfa conj(int depth) { ref::Nfa n = conc(depth); if (own && r.chance(12)) { put(AND); ref::Nfa m = conc(depth); n = ref::conj(n, m); } return n; }
	ref::Nfa whole(int depth) { ref::Nfa n = conj(depth); while (r.chance(20)) { put(own && r.chance(60) ? (uint32_t) OR : '|'); n = ref::alt(n, conj(depth)); } return n; }
	enum { TOP = 2 };
};

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& r = run.rng; Build b(run); b.f.utf8 = r.chance(50); b.f.ci = r.chance(25); b.f.andnot = r.chance(35);
	b.own = r.chance(75); b.groups = r.chance(60); b.suffix[0] = '!'; b.suffix[1] = '%';
	bool exchange = r.chance(50), fail = r.chance(6);
	int before = alive;
	{
		ref::Nfa nfa = b.whole(Build::TOP);
		pat::Text text = b.text;
		if (fail) { text.push_back(FAIL); b.own = true; }
		std::vector<W> w(text.begin(), text.end()); std::string desc = "/" + pat::showText(text) + "/ " + b.f.show();
		Log log; std::map<W, W> total;
		// Priorities; the built-in features have 9, 10 and 50
		std::vector<int> prios = {-5, 1, 2, 3, 4, 5, 6, 7, 8, 20, 30, 49, 51, 70, 1000};
		auto take = [&](int below) { for (;;) { size_t i = r.below(prios.size()); if (prios[i] < below) { int p = prios[i]; prios.erase(prios.begin() + i); return p; } } };
		std::vector<Pire::Feature::Ptr> v;
		if (exchange) {
			int n = r.range(1, 3); std::vector<std::pair<int, std::map<W, W> > > x;
			for (int i = 0; i < n; ++i) { std::map<W, W> m; W a[4] = {'a', 'b', 'c', 'd'}; for (int j = 3; j > 0; --j) std::swap(a[j], a[r.below(j + 1)]); for (int j = 0; j < 4; ++j) m['a' + j] = a[j]; x.push_back(std::make_pair(take(9), m)); }
			for (auto& p : x) { v.push_back(Pire::Feature::Ptr(new Exchange(p.first, log, p.second))); log.all.push_back(p.first); }
			// those of higher numbers come first
			std::sort(x.begin(), x.end(), [](const std::pair<int, std::map<W, W> >& a, const std::pair<int, std::map<W, W> >& c) { return a.first > c.first; });
			for (W c = 'a'; c <= 'd'; ++c) { W y = c; for (auto& p : x) y = p.second[y]; total[c] = y; }
			nfa = image(nfa, total); run.count("patterns with exchanged letters");
		}
		if (b.groups) { int p = take(49), q = take(49); v.push_back(Pire::Feature::Ptr(new Group(p, log, OPEN1, CLOSE1, b.suffix[0], run))); v.push_back(Pire::Feature::Ptr(new Group(q, log, OPEN2, CLOSE2, b.suffix[1], run))); log.all.push_back(p); log.all.push_back(q); }
		if (b.own) { int p = take(2000); v.push_back(Pire::Feature::Ptr(new Speller(p, log, b.words, run))); log.all.push_back(p); }
		for (int k = r.below(3); k > 0; --k) { int p = take(2000); v.push_back(Pire::Feature::Ptr(new Refuser(p, log, r.next(), run))); log.all.push_back(p); }
		for (int k = r.range(log.all.empty() ? 1 : 0, 2); k > 0; --k) { int p = take(2000); v.push_back(Pire::Feature::Ptr(new Base(p, log))); log.all.push_back(p); }
		if (b.f.ci) v.push_back(Pire::Features::CaseInsensitive());
		if (b.f.andnot) v.push_back(Pire::Features::AndNotSupport());
		std::sort(log.all.begin(), log.all.end());
		for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
		{
			Pire::Lexer lexer; bool late = r.chance(50);
			if (!late) lexer.Assign(w.begin(), w.end());
			if (b.f.utf8) lexer.SetEncoding(Pire::Encodings::Utf8());
			for (auto& x : v) if (r.chance(50)) lexer.AddFeature(x); else lexer.AddFeature(std::move(x));
			for (auto& x : v) if (x) run.fail("feature-not-taken", desc);
			if (late) lexer.Assign(w.begin(), w.end());
			Pire::Fsm fsm; bool thrown = false; std::string msg;
			try { fsm = lexer.Parse(); } catch (const Pire::Error& e) { thrown = true; msg = e.what(); }
			if (fail) {
				if (!thrown) run.fail("error-ignored", desc);
				run.count("errors reported by features");
			} else {
				if (thrown) run.fail("refused", desc + ": " + msg);
				if (!log.wrong.empty()) run.fail("order-of-calls", desc + ": " + log.wrong);
				if (!log.alters.empty() || !log.parens.empty()) run.fail("order-of-calls", desc + ": not every feature was called");
				ref::Dfa d = ref::minimize(ref::determinize(nfa, 3000));
				vw::walk1(run, fsm.Compile<Pire::Scanner>(), d, "language", [&]() { return desc; }, false, 600);
				if (d.size() > 2) run.nontrivial(desc);
			}
			run.count("terms watched", log.terms); run.count("groups watched", log.groups);
		}
		run.sample(desc);
	}
	if (alive != before) run.fail("features-not-destroyed", vf::str(alive - before));
}
