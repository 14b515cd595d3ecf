// Monitors that drive a real scanner next to reference automata through every reachable pair of states.
#ifndef VERIF_WALK_H
#define VERIF_WALK_H
#include "ref.h"
#include <pire/pire.h>

namespace vw {

inline Pire::Char letter(unsigned s) { return s == ref::BM ? (Pire::Char) Pire::BeginMark : s == ref::EM ? (Pire::Char) Pire::EndMark : (Pire::Char) s; }

// --- state identity -----------------------------------------------------------------------------------------
template<class Sc> struct Ident {
	static std::string key(const Sc& sc, const typename Sc::State& st) { size_t i = sc.StateIndex(st); return std::string((const char*) &i, sizeof i); }
	static bool inRange(const Sc& sc, const typename Sc::State& st) { return sc.StateIndex(st) < sc.Size(); }
};
template<> struct Ident<Pire::SlowScanner> {
	static std::string key(const Pire::SlowScanner&, const Pire::SlowScanner::State& st) {
		std::vector<unsigned> v(st.states.begin(), st.states.end()); std::sort(v.begin(), v.end());
		return std::string((const char*) v.data(), v.size() * sizeof(unsigned));
	}
	static bool inRange(const Pire::SlowScanner& sc, const Pire::SlowScanner::State& st) {
		for (size_t i = 0; i < st.states.size(); ++i) if (st.states[i] >= sc.Size()) return false;
		return true;
	}
};

enum DeadMode { DeadExact, DeadNever, DeadIgnore };

struct Opts {
	DeadMode dead;
	bool numbering;      // AcceptedRegexps must list exactly the accepting references
	size_t maxPairs;
	bool finals;
	Opts(): dead(DeadIgnore), numbering(true), maxPairs(6000), finals(true) {}
};

template<class Sc> struct DefaultDead { static const DeadMode value = DeadExact; };
template<> struct DefaultDead<Pire::SimpleScanner> { static const DeadMode value = DeadNever; };
template<> struct DefaultDead<Pire::SlowScanner> { static const DeadMode value = DeadNever; };

template<class Sc> std::vector<size_t> accepted(const Sc& sc, typename Sc::State& st) {
	auto r = sc.AcceptedRegexps(st);
	std::vector<size_t> v;
	for (auto i = r.first; i != r.second; ++i) { v.push_back(*i); if (v.size() > 100000) break; }
	return v;
}

inline std::string showVec(const std::vector<size_t>& v) { std::string s = "{"; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + vf::str(v[i]); return s + "}"; }

// Follows every pair (reference states, scanner state) reachable from the start; returns the number of pairs.
// kind: name for keys, desc: description of the case for the report
template<class Sc>
size_t walk(vf::Run& run, const Sc& sc, const std::vector<const ref::Dfa*>& refs, const std::string& kind, const std::function<std::string()>& desc, const Opts& opts)
{
	struct Item { std::vector<int> q; typename Sc::State st; int parent; int sym; Item(): parent(-1), sym(-1) {} };
	std::deque<Item> items; // stable references
	std::unordered_set<std::string> seen;
	auto keyOf = [&](const std::vector<int>& q, const typename Sc::State& st) { return std::string((const char*) q.data(), q.size() * sizeof(int)) + Ident<Sc>::key(sc, st); };
	auto path = [&](size_t i) {
		std::vector<unsigned> w;
		for (int k = i; items[k].parent >= 0; k = items[k].parent) w.push_back(items[k].sym);
		std::reverse(w.begin(), w.end());
		return ref::showWord(w);
	};
	items.push_back(Item());
	for (size_t i = 0; i < refs.size(); ++i) items[0].q.push_back(refs[i]->start);
	sc.Initialize(items[0].st);
	seen.insert(keyOf(items[0].q, items[0].st));
	// joint classes of letters would save steps, but then a wrong letter table would go unseen: step on every letter
	for (size_t i = 0; i < items.size(); ++i) {
		const Item it = items[i];
		bool any = false, alive = false;
		std::vector<size_t> want;
		for (size_t k = 0; k < refs.size(); ++k) {
			if (refs[k]->fin[it.q[k]]) { any = true; want.push_back(k); }
			if (refs[k]->live[it.q[k]]) alive = true;
		}
		if (!Ident<Sc>::inRange(sc, it.st)) run.fail(kind + ":state-index-out-of-range", desc() + " after \"" + path(i) + "\"");
		if (opts.finals) {
			bool fin = sc.Final(it.st);
			if (fin != any) run.fail(kind + (any ? ":rejects-member" : ":accepts-nonmember"), desc() + " text \"" + path(i) + "\": Final=" + vf::str(fin) + " expected " + vf::str(any));
		}
		if (opts.numbering) {
			typename Sc::State copy(it.st);
			std::vector<size_t> got = accepted(sc, copy);
			if (got != want) run.fail(kind + ":accepted-regexps", desc() + " text \"" + path(i) + "\": AcceptedRegexps=" + showVec(got) + " expected " + showVec(want));
		}
		if (opts.dead != DeadIgnore) {
			bool dead = sc.Dead(it.st);
			bool wantDead = opts.dead == DeadExact && !alive;
			if (dead != wantDead) run.fail(kind + (dead ? ":dead-though-alive" : ":alive-though-dead"), desc() + " after \"" + path(i) + "\"");
		}
		for (unsigned s = 0; s < ref::NSYM; ++s) {
			typename Sc::State st(it.st);
			Pire::Step(sc, st, letter(s));
			std::vector<int> q(refs.size());
			for (size_t k = 0; k < refs.size(); ++k) q[k] = refs[k]->step(it.q[k], s);
			if (seen.insert(keyOf(q, st)).second) {
				if (items.size() >= opts.maxPairs) { run.count("walks cut at the pair limit"); return items.size(); }
				items.push_back(Item());
				items.back().q.swap(q); items.back().st = st; items.back().parent = i; items.back().sym = s;
			}
		}
	}
	run.count("pairs visited", items.size());
	run.count("transitions checked", items.size() * ref::NSYM);
	return items.size();
}

template<class Sc>
size_t walk1(vf::Run& run, const Sc& sc, const ref::Dfa& d, const std::string& kind, const std::function<std::string()>& desc, bool dead = false, size_t maxPairs = 6000)
{
	Opts o; o.maxPairs = maxPairs;
	o.dead = dead ? DefaultDead<Sc>::value : DeadIgnore;
	std::vector<const ref::Dfa*> v(1, &d);
	return walk(run, sc, v, kind, desc, o);
}

// The language of a raw automaton as the public interface shows it, for comparison with a reference
inline ref::Nfa readFsm(const Pire::Fsm& f)
{
	// Only valid when the letter table is trivial or consistent: every letter is asked through Destinations()
	ref::Nfa n; n.fin.clear(); n.eps.clear(); n.tr.clear();
	for (size_t i = 0; i < f.Size(); ++i) n.add(f.IsFinal(i));
	n.start = f.Initial();
	return n;
}

} // namespace vw
#endif
