// What a user can observe of a scanner's state, per scanner kind, and buffers between guard pages.
#ifndef VERIF_OBS_H
#define VERIF_OBS_H
#include "rawfsm.h"

namespace obs {

inline std::string num(size_t n) { return std::string((const char*) &n, sizeof n); }

template<class Sc> struct State {
	static std::string key(const Sc& sc, const typename Sc::State& st) { return num(sc.StateIndex(st)) + (sc.Final(st) ? "F" : "-") + (sc.Dead(st) ? "D" : "-"); }
	static std::string show(const Sc& sc, const typename Sc::State& st) { return vf::str(sc.StateIndex(st)); }
};
template<> struct State<Pire::SlowScanner> {
	typedef Pire::SlowScanner Sc;
	static std::string key(const Sc& sc, const Sc::State& st) { return vw::Ident<Sc>::key(sc, st) + (sc.Final(st) ? "F" : "-"); }
	static std::string show(const Sc&, const Sc::State& st) { std::vector<size_t> v(st.states.begin(), st.states.end()); std::sort(v.begin(), v.end()); return vw::showVec(v); }
};
template<class Sc> struct Counts {
	static std::string show(const Sc& sc, const typename Sc::State& st) {
		std::string r = vf::str(sc.StateIndex(st)) + " counts";
		for (size_t i = 0; i < sc.RegexpsCount(); ++i) r += " " + vf::str(st.Result(i));
		return r;
	}
	static std::string key(const Sc& sc, const typename Sc::State& st) { return show(sc, st) + (sc.Final(st) ? "F" : "-") + (sc.Dead(st) ? "D" : "-"); }
};
template<class R, class S> struct State<Pire::Impl::HalfFinalScanner<R, S> >: Counts<Pire::Impl::HalfFinalScanner<R, S> > {};
template<> struct State<Pire::CountingScanner>: Counts<Pire::CountingScanner> {};
template<> struct State<Pire::AdvancedCountingScanner>: Counts<Pire::AdvancedCountingScanner> {};
template<> struct State<Pire::NoGlueLimitCountingScanner>: Counts<Pire::NoGlueLimitCountingScanner> {};
template<> struct State<Pire::CapturingScanner> {
	typedef Pire::CapturingScanner Sc;
	static std::string show(const Sc& sc, const Sc::State& st) { return vf::str(sc.StateIndex(st)) + (sc.Final(st) ? " final" : "") + (st.Captured() ? " captured" : "") + " [" + vf::str((long) st.Begin()) + "," + vf::str((long) st.End()) + ")"; }
	static std::string key(const Sc& sc, const Sc::State& st) { return show(sc, st); }
};
template<> struct State<Pire::SlowCapturingScanner> {
	typedef Pire::SlowCapturingScanner Sc;
	static std::string show(const Sc& sc, const Sc::State& st) {
		Sc::SingleState m; bool c = sc.GetCapture(st, m);
		std::string r = c ? "captured [" + vf::str((long) m.Begin()) + "," + vf::str((long) m.End()) + ")" : "nothing";
		r += " pos " + vf::str(st.GetPos()) + ":";
		for (size_t i = 0; i < st.GetSize(); ++i) r += " " + vf::str(st.GetState(i).GetNum()) + "/" + vf::str((long) st.GetState(i).GetBegin()) + "/" + vf::str((long) st.GetState(i).GetEnd());
		return r;
	}
	static std::string key(const Sc& sc, const Sc::State& st) { return show(sc, st); }
};

// Memory between two inaccessible pages
struct Guarded {
	char* base; size_t pages; size_t page;
	explicit Guarded(size_t n): pages(n), page(sysconf(_SC_PAGESIZE)) {
		base = (char*) mmap(0, (n + 2) * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (base == MAP_FAILED) throw std::runtime_error("mmap");
		mprotect(base, page, PROT_NONE); mprotect(base + (n + 1) * page, page, PROT_NONE);
	}
	~Guarded() { munmap(base, (pages + 2) * page); }
	char* begin() const { return base + page; }
	char* end() const { return begin() + pages * page; }
	size_t size() const { return pages * page; }
private:
	Guarded(const Guarded&); Guarded& operator=(const Guarded&);
};

// Where a text of the given length lies: touching the first page, touching the last one, or anywhere
inline char* place(vf::Rng& rng, const Guarded& g, size_t len) {
	switch (rng.below(4)) {
	case 0: return g.end() - len - rng.below(2) * rng.below(17);
	case 1: return g.begin() + rng.below(2) * rng.below(17);
	default: { char* p = g.begin() + 16 + rng.below(g.size() - len - 32 > 200 ? 200 : 1); return p; }
	}
}

// Letters that matter to an automaton: one of each class, with the rest rare
struct Letters {
	std::vector<std::vector<unsigned char> > members;
	explicit Letters(const ref::Dfa& d) {
		std::map<int, std::vector<unsigned char> > m;
		for (unsigned c = 0; c < 256; ++c) m[d.cls[c]].push_back(c);
		for (auto& i : m) members.push_back(i.second);
	}
};

// Long stretches on which a search stays in one state, broken by letters that leave it
inline std::string text(vf::Rng& rng, const ref::Dfa& d, const Letters& l, size_t len)
{
	std::string t; int q = d.start;
	int style = rng.below(4);
	std::map<int, std::vector<unsigned char> > stay; // per state: letters that stay
	while (t.size() < len) {
		if (style != 0 && rng.chance(style == 1 ? 10 : 35)) {
			// a stretch of letters that keep the state
			if (!stay.count(q)) { std::vector<unsigned char>& v = stay[q]; for (unsigned c = 0; c < 256; ++c) if (d.step(q, c) == q) v.push_back(c); }
			const std::vector<unsigned char>& v = stay[q];
			if (!v.empty()) { size_t n = rng.below(rng.chance(50) ? 70 : 12); for (size_t i = 0; i < n && t.size() < len; ++i) t += (char) v[rng.below(v.size())]; continue; }
		}
		const std::vector<unsigned char>& m = l.members[rng.below(l.members.size())];
		unsigned char c = m[rng.below(m.size())];
		if (style == 3 && !d.live[d.step(q, c)] && rng.chance(85)) { const std::vector<unsigned char>& m2 = l.members[rng.below(l.members.size())]; c = m2[rng.below(m2.size())]; }
		t += (char) c; q = d.step(q, c);
	}
	return t;
}

} // namespace obs
#endif
