// Scanners of every kind behind one interface, made at random, with a complete print of what a user can observe of them.
#ifndef VERIF_ZOO_H
#define VERIF_ZOO_H
#include "obs.h"

namespace zoo {

enum Kind { Multi, MultiNoMask, Nonreloc, NonrelocNoMask, Simple, Slow, Half, HalfNoMask, HalfNonreloc, HalfNonrelocNoMask, Counting, Advanced, NoLimit, Capturing, SlowCapturing, KINDS };
static const char* const names[] = {"multi", "multi-nomask", "nonreloc", "nonreloc-nomask", "simple", "slow", "half-final", "half-final-nomask", "half-final-nonreloc", "half-final-nonreloc-nomask",
	"counting", "advanced-counting", "no-glue-limit-counting", "capturing", "slow-capturing"};

// --- observation ----------------------------------------------------------------------------------------------
template<class Sc> auto regexps(const Sc& sc, int) -> decltype(sc.RegexpsCount()) { return sc.RegexpsCount(); }
template<class Sc> size_t regexps(const Sc&, long) { return 999; }
template<class Sc> auto lettersCount(const Sc& sc, int) -> decltype(sc.LettersCount()) { return sc.LettersCount(); }
template<class Sc> size_t lettersCount(const Sc&, long) { return 999; }
template<class Sc> auto acceptedOf(const Sc& sc, const typename Sc::State& st, int) -> decltype(sc.AcceptedRegexps(const_cast<typename Sc::State&>(st)), std::string()) {
	typename Sc::State copy(st); return vw::showVec(vw::accepted(sc, copy)); }
template<class Sc> std::string acceptedOf(const Sc&, const typename Sc::State&, long) { return ""; }

inline unsigned sampleLetter(vf::Rng& rng) {
	size_t k = rng.below(20);
	if (k < 14) return 'a' + rng.below(4);
	if (k < 17) return rng.below(256);
	if (k < 18) return "0 -Z\n~"[rng.below(6)];
	return k < 19 ? ref::BM : ref::EM;
}

template<class Sc> struct HasIndex { static const bool value = true; };
template<> struct HasIndex<Pire::SlowCapturingScanner> { static const bool value = false; };

template<class Sc, bool Indexed> struct Graph {
	static void print(const Sc& sc, std::string& o, size_t states) {
		std::vector<typename Sc::State> q(1); std::map<std::string, size_t> ids;
		sc.Initialize(q[0]); ids[vw::Ident<Sc>::key(sc, q[0])] = 0;
		uint64_t h = 7;
		for (size_t i = 0; i < q.size() && i < states; ++i) {
			h = vf::mix(h, vf::hashStr(vw::Ident<Sc>::key(sc, q[i]) + (sc.Final(q[i]) ? "F" : "-") + (sc.Dead(q[i]) ? "D" : "-") + acceptedOf(sc, q[i], 0)));
			for (unsigned s = 0; s < ref::NSYM; ++s) {
				typename Sc::State st(q[i]); Pire::Step(sc, st, vw::letter(s));
				auto r = ids.insert(std::make_pair(vw::Ident<Sc>::key(sc, st), q.size()));
				if (r.second) q.push_back(st);
				h = vf::mix(h, r.first->second);
			}
		}
		o += " graph " + vf::str(q.size()) + ":" + vf::str(h);
	}
};
template<class Sc> struct Graph<Sc, false> { static void print(const Sc&, std::string&, size_t) {} };

template<class Sc> std::string print(const Sc& sc, uint64_t seed, size_t states = 40, int texts = 4)
{
	std::string o = "size " + vf::str(sc.Size()) + " empty " + vf::str(sc.Empty()) + " regexps " + vf::str(regexps(sc, 0)) + " letters " + vf::str(lettersCount(sc, 0));
	Graph<Sc, HasIndex<Sc>::value>::print(sc, o, states);
	vf::Rng rng(seed);
	for (int t = 0; t < texts; ++t) {
		typename Sc::State st; sc.Initialize(st);
		std::string line = obs::State<Sc>::key(sc, st);
		size_t n = rng.below(30);
		for (size_t i = 0; i < n; ++i) { Pire::Step(sc, st, vw::letter(sampleLetter(rng))); line += obs::State<Sc>::key(sc, st); }
		o += " text" + vf::str(t) + ":" + vf::str(vf::hashStr(line));
	}
	return o;
}

// --- one interface --------------------------------------------------------------------------------------------
typedef std::shared_ptr<void> Keep;

struct Any {
	Kind kind; uint64_t seed; std::string desc;
	std::vector<Keep> keep; // memory that the scanner is mapped to
	Any(): kind(Multi), seed(0) {}
	virtual ~Any() {}
	virtual std::string print(size_t states = 40, int texts = 4) const = 0;
	virtual bool isEmpty() const = 0;
	virtual size_t regexpsCount() const = 0;
	virtual size_t size() const = 0;
	virtual void save(std::ostream&) const = 0;
	virtual void load(std::istream&) = 0;
	virtual bool canMap() const = 0;
	virtual const void* map(const void* p, size_t n) = 0;
	virtual std::unique_ptr<Any> copy() const = 0;
	virtual std::unique_ptr<Any> moved() = 0;               // move-constructed from this
	virtual std::unique_ptr<Any> fresh() const = 0;         // default-constructed of the same kind
	virtual bool canAssign() const = 0;
	virtual void assign(const Any& o) = 0;
	virtual void moveAssign(Any& o) = 0;
	virtual void swap(Any& o) = 0;
	virtual void stdSwap(Any& o) = 0;
	virtual bool canGlue() const = 0;
	virtual std::unique_ptr<Any> glue(const Any& o, size_t max) const = 0;
	virtual std::unique_ptr<Any> convert() const = 0;       // to the other relocation; null if there is none
	std::string image() const { std::ostringstream s; save(s); return s.str(); }
};

template<class Sc> struct Tr { static const bool map = true, assign = true, glue = false; };
#define ZOO_TR(S, M, A, G) template<> struct Tr<Pire::S> { static const bool map = M, assign = A, glue = G; };
ZOO_TR(Scanner, true, true, true)
ZOO_TR(ScannerNoMask, true, true, true)
ZOO_TR(NonrelocScanner, false, true, true)
ZOO_TR(NonrelocScannerNoMask, false, true, true)
ZOO_TR(HalfFinalScanner, true, true, true)
ZOO_TR(HalfFinalScannerNoMask, true, true, true)
ZOO_TR(NonrelocHalfFinalScanner, false, true, true)
ZOO_TR(NonrelocHalfFinalScannerNoMask, false, true, true)
ZOO_TR(CountingScanner, true, true, true)
ZOO_TR(AdvancedCountingScanner, true, true, true)
ZOO_TR(NoGlueLimitCountingScanner, true, true, true)
ZOO_TR(SlowCapturingScanner, true, false, false)

template<class Sc> struct Other { typedef void type; };
template<> struct Other<Pire::Scanner> { typedef Pire::NonrelocScanner type; static const Kind kind = Nonreloc; };
template<> struct Other<Pire::ScannerNoMask> { typedef Pire::NonrelocScannerNoMask type; static const Kind kind = NonrelocNoMask; };
template<> struct Other<Pire::NonrelocScanner> { typedef Pire::Scanner type; static const Kind kind = Multi; };
template<> struct Other<Pire::NonrelocScannerNoMask> { typedef Pire::ScannerNoMask type; static const Kind kind = MultiNoMask; };
template<> struct Other<Pire::HalfFinalScanner> { typedef Pire::NonrelocHalfFinalScanner type; static const Kind kind = HalfNonreloc; };
template<> struct Other<Pire::HalfFinalScannerNoMask> { typedef Pire::NonrelocHalfFinalScannerNoMask type; static const Kind kind = HalfNonrelocNoMask; };
template<> struct Other<Pire::NonrelocHalfFinalScanner> { typedef Pire::HalfFinalScanner type; static const Kind kind = Half; };
template<> struct Other<Pire::NonrelocHalfFinalScannerNoMask> { typedef Pire::HalfFinalScannerNoMask type; static const Kind kind = HalfNoMask; };

template<class Sc> const void* doMap(Sc& sc, const void* p, size_t n, std::true_type) { return sc.Mmap(p, n); }
template<class Sc> const void* doMap(Sc&, const void*, size_t, std::false_type) { throw std::logic_error("not mappable"); }
template<class Sc> void doAssign(Sc& a, const Sc& b, std::true_type) { a = b; }
template<class Sc> void doAssign(Sc&, const Sc&, std::false_type) { throw std::logic_error("not assignable"); }
template<class Sc> void doMove(Sc& a, Sc& b, std::true_type) { a = std::move(b); }
template<class Sc> void doMove(Sc&, Sc&, std::false_type) { throw std::logic_error("not assignable"); }
template<class Sc> Sc doGlue(const Sc& a, const Sc& b, size_t max, std::true_type) { return Sc::Glue(a, b, max); }
template<class Sc> Sc doGlue(const Sc&, const Sc&, size_t, std::false_type) { throw std::logic_error("not gluable"); }

template<class Sc> struct Holder: Any {
	Sc sc;
	typedef std::integral_constant<bool, Tr<Sc>::map> M;
	typedef std::integral_constant<bool, Tr<Sc>::assign> A;
	typedef std::integral_constant<bool, Tr<Sc>::glue> G;
	Holder() {}
	explicit Holder(const Sc& s): sc(s) {}
	explicit Holder(Sc&& s): sc(std::move(s)) {}
	std::unique_ptr<Any> wrap(Holder* h, bool keepToo) const { std::unique_ptr<Any> r(h); h->kind = kind; h->seed = seed; h->desc = desc; if (keepToo) h->keep = keep; return r; }
	static const Holder& as(const Any& a) { return dynamic_cast<const Holder&>(a); }
	static Holder& as(Any& a) { return dynamic_cast<Holder&>(a); }
	std::string print(size_t states, int texts) const { return zoo::print(sc, seed, states, texts); }
	bool isEmpty() const { return sc.Empty(); }
	size_t regexpsCount() const { return regexps(sc, 0); }
	size_t size() const { return sc.Size(); }
	void save(std::ostream& s) const { if (seed & 1) sc.Save(&s); else Pire::Save(&s, sc); }
	void load(std::istream& s) { if (seed & 1) sc.Load(&s); else Pire::Load(&s, sc); }
	bool canMap() const { return M::value; }
	const void* map(const void* p, size_t n) { return doMap(sc, p, n, M()); }
	std::unique_ptr<Any> copy() const { return wrap(new Holder(sc), true); }
	std::unique_ptr<Any> moved() { return wrap(new Holder(std::move(sc)), true); }
	std::unique_ptr<Any> fresh() const { return wrap(new Holder(), false); }
	bool canAssign() const { return A::value; }
	void assign(const Any& o) { doAssign(sc, as(o).sc, A()); keep = std::vector<Keep>(o.keep); }
	void moveAssign(Any& o) { doMove(sc, as(o).sc, A()); std::vector<Keep> k(o.keep); k.insert(k.end(), keep.begin(), keep.end()); keep = k; o.keep = k; }
	void swap(Any& o) { sc.Swap(as(o).sc); std::swap(keep, o.keep); std::swap(desc, o.desc); std::swap(seed, o.seed); }
	void stdSwap(Any& o) { doStdSwap(as(o), A()); std::swap(keep, o.keep); std::swap(desc, o.desc); std::swap(seed, o.seed); }
	void doStdSwap(Holder& o, std::true_type) { using std::swap; swap(sc, o.sc); }
	void doStdSwap(Holder& o, std::false_type) { sc.Swap(o.sc); }
	bool canGlue() const { return G::value; }
	std::unique_ptr<Any> glue(const Any& o, size_t max) const { Holder* h = new Holder(doGlue(sc, as(o).sc, max, G())); std::unique_ptr<Any> r(wrap(h, false)); h->desc = "(" + desc + " with " + o.desc + ")"; h->seed = vf::mix(seed, o.seed);
		// the result may be one of the operands
		h->keep = keep; h->keep.insert(h->keep.end(), o.keep.begin(), o.keep.end()); return r; }
	std::unique_ptr<Any> convert() const { return doConvert<typename Other<Sc>::type>(0); }
	template<class O> typename std::enable_if<!std::is_void<O>::value, std::unique_ptr<Any> >::type doConvert(int) const {
		std::unique_ptr<Holder<O> > h(new Holder<O>(O(sc))); h->kind = Other<Sc>::kind; h->seed = seed; h->desc = "converted " + desc; h->keep = keep; return std::unique_ptr<Any>(h.release()); }
	template<class O> typename std::enable_if<std::is_void<O>::value, std::unique_ptr<Any> >::type doConvert(int) const { return std::unique_ptr<Any>(); }
};

template<class Sc> std::unique_ptr<Any> hold(Kind k, const Sc& sc, const std::string& desc, uint64_t seed) {
	std::unique_ptr<Any> r(new Holder<Sc>(sc)); r->kind = k; r->desc = std::string(names[k]) + " of " + desc; r->seed = seed; return r;
}

// --- making them ----------------------------------------------------------------------------------------------

// A pattern with one group, for the capturing kinds (syntax: no nested groups around it, no marks in the middle)
inline std::string capturePattern(vf::Rng& rng, bool nongreedy) {
	static const char* const units[] = {"a", "b", "c", "ab", "[ab]", "[^a]", ".", "[bc]", "x", "0"};
	static const char* const counts[] = {"", "", "", "*", "+", "?"};
	std::string p; if (rng.chance(40)) p += "^";
	auto part = [&](int n) { for (; n > 0; --n) { p += units[rng.below(10)]; const char* c = counts[rng.below(6)]; if (p.size() && p[p.size() - 1] != '^') { p += c; if (*c && nongreedy && rng.chance(30)) p += "?"; } } };
	part(rng.below(3)); p += "("; part(rng.range(1, 3)); if (rng.chance(20)) { p += "|"; part(1); } p += ")"; if (rng.chance(15)) p += "*"; part(rng.below(3));
	if (rng.chance(30)) p += "$";
	return p;
}

inline Pire::Fsm captureFsm(const std::string& p, bool surround) {
	Pire::Lexer lx(p); lx.AddFeature(Pire::Features::Capture(1)); Pire::Fsm f = lx.Parse(); if (surround) f.Surround(); return f;
}

inline std::string countPattern(vf::Rng& rng) {
	static const char* const v[] = {"a", "b", "ab", "abc", "[ab]", "a+", "ab*c", "a|bc", "(ab)+", "[a-c]d", "a.c", "[0-9]+", "\\w", "aa", "ba"};
	return v[rng.below(sizeof v / sizeof *v)];
}
inline std::string sepPattern(vf::Rng& rng) {
	static const char* const v[] = {".*", "b", " ", "[^a]*", "[bc]*", " +", "", "b?", "[ .]", "c*", ".", "-", "[^0-9]"};
	return v[rng.below(sizeof v / sizeof *v)];
}

inline Pire::Fsm plain(const std::string& p) { return Pire::Lexer(p).Parse(); }

template<class Sc> std::unique_ptr<Any> counting(vf::Rng& rng, Kind k, int n) {
	Sc sc; std::string d;
	for (int i = 0; i < n; ++i) {
		std::string re = countPattern(rng), sep = sepPattern(rng);
		Pire::Fsm a(plain(re)), b(plain(sep)); Sc one(a, b);
		if (!i) { sc = one; d = re + " separated by /" + sep + "/"; continue; }
		Sc g = Sc::Glue(sc, one, 20000);
		if (g.Empty() || g.LettersCount() > 250) break;
		sc = g; d += " and " + re + " by /" + sep + "/";
	}
	return hold(k, sc, d, rng.next());
}

template<class Sc> std::unique_ptr<Any> multi(vf::Run& run, Kind k) {
	vf::Rng& rng = run.rng;
	raw::Auto a = rng.chance(80) ? raw::any(run, 10, 6) : raw::random(rng, 30, true);
	Pire::Fsm f(a.fsm); Sc sc = f.Compile<Sc>(); std::string d = a.desc;
	for (int n = rng.chance(30) ? rng.range(1, 2) : 0; n > 0; --n) {
		raw::Auto b = raw::any(run, 6, 4); Sc x = b.fsm.Compile<Sc>();
		Sc g = Sc::Glue(sc, x, 3000); if (g.Empty()) break;
		sc = g; d += " glued with " + b.desc;
	}
	return hold(k, sc, d, rng.next());
}

template<class Sc> std::unique_ptr<Any> half(vf::Run& run, Kind k) {
	vf::Rng& rng = run.rng; int mode = rng.below(4); std::string p = countPattern(rng), d; Sc sc;
	auto one = [&](const std::string& re) -> Sc {
		Pire::Fsm f(plain(re));
		if (mode == 0) { f.Surround(); return Sc(f); }
		Pire::HalfFinalFsm h(f);
		if (mode == 1) h.MakeNonGreedyCounter(rng.chance(50), rng.chance(50)); else if (mode == 2) h.MakeGreedyCounter(rng.chance(50)); else h.MakeNonGreedyCounter(false, true);
		return Sc(h);
	};
	sc = one(p); d = p + " mode " + vf::str(mode);
	for (int n = rng.below(3); n > 0; --n) { std::string q = countPattern(rng); Sc g = Sc::Glue(sc, one(q), 3000); if (g.Empty()) break; sc = g; d += " glued with " + q; }
	return hold(k, sc, d, rng.next());
}

inline std::unique_ptr<Any> makeEmpty(vf::Rng& rng, Kind k) {
	uint64_t s = rng.next();
	switch (k) {
	case Multi: return hold(k, Pire::Scanner(), "nothing", s);
	case MultiNoMask: return hold(k, Pire::ScannerNoMask(), "nothing", s);
	case Nonreloc: return hold(k, Pire::NonrelocScanner(), "nothing", s);
	case NonrelocNoMask: return hold(k, Pire::NonrelocScannerNoMask(), "nothing", s);
	case Simple: return hold(k, Pire::SimpleScanner(), "nothing", s);
	case Slow: return hold(k, Pire::SlowScanner(), "nothing", s);
	case Half: return hold(k, Pire::HalfFinalScanner(), "nothing", s);
	case HalfNoMask: return hold(k, Pire::HalfFinalScannerNoMask(), "nothing", s);
	case HalfNonreloc: return hold(k, Pire::NonrelocHalfFinalScanner(), "nothing", s);
	case HalfNonrelocNoMask: return hold(k, Pire::NonrelocHalfFinalScannerNoMask(), "nothing", s);
	case Counting: return hold(k, Pire::CountingScanner(), "nothing", s);
	case Advanced: return hold(k, Pire::AdvancedCountingScanner(), "nothing", s);
	case NoLimit: return hold(k, Pire::NoGlueLimitCountingScanner(), "nothing", s);
	case Capturing: return hold(k, Pire::CapturingScanner(), "nothing", s);
	default: return hold(k, Pire::SlowCapturingScanner(), "nothing", s);
	}
}

inline std::unique_ptr<Any> make(vf::Run& run, Kind k)
{
	vf::Rng& rng = run.rng;
	if (rng.chance(8)) return makeEmpty(rng, k);
	switch (k) {
	case Multi: return multi<Pire::Scanner>(run, k);
	case MultiNoMask: return multi<Pire::ScannerNoMask>(run, k);
	case Nonreloc: return multi<Pire::NonrelocScanner>(run, k);
	case NonrelocNoMask: return multi<Pire::NonrelocScannerNoMask>(run, k);
	case Simple: { raw::Auto a = raw::any(run, 8, 6); return hold(k, a.fsm.Compile<Pire::SimpleScanner>(), a.desc, rng.next()); }
	case Slow: { raw::Auto a = raw::any(run, 12, 8); return hold(k, a.fsm.Compile<Pire::SlowScanner>(), a.desc, rng.next()); }
	case Half: return half<Pire::HalfFinalScanner>(run, k);
	case HalfNoMask: return half<Pire::HalfFinalScannerNoMask>(run, k);
	case HalfNonreloc: return half<Pire::NonrelocHalfFinalScanner>(run, k);
	case HalfNonrelocNoMask: return half<Pire::NonrelocHalfFinalScannerNoMask>(run, k);
	case Counting: return counting<Pire::CountingScanner>(rng, k, rng.range(1, 3));
	case Advanced: return counting<Pire::AdvancedCountingScanner>(rng, k, rng.range(1, 3));
	case NoLimit: return counting<Pire::NoGlueLimitCountingScanner>(rng, k, rng.range(1, 6));
	case Capturing: { std::string p = capturePattern(rng, false); bool s = rng.chance(70); Pire::Fsm f = captureFsm(p, s); return hold(k, f.Compile<Pire::CapturingScanner>(), p, rng.next()); }
	default: { std::string p = capturePattern(rng, true); bool s = rng.chance(30); Pire::Fsm f = captureFsm(p, s); return hold(k, Pire::SlowCapturingScanner(f), p, rng.next()); }
	}
}

inline std::unique_ptr<Any> make(vf::Run& run) { return make(run, (Kind) run.rng.below(KINDS)); }

} // namespace zoo
#endif
