// C20: shared scanners in many threads.
// Every operation is first done alone and its result kept; then several threads do the same operations on the same shared objects and
// on objects of their own at once, each comparing its results. Built with ThreadSanitizer, which watches for data races, and without.
#include "zoo.h"
#include <pire/easy.h>
#include <pire/approx_matching.h>
#include <atomic>
#include <thread>
#include <sched.h>
const char* vf_prop = "C20";

namespace {

typedef std::unique_ptr<zoo::Any> P;

std::string printFsm(const Pire::Fsm& f) { std::ostringstream s; f.DumpState(s, 0); s << f.Size() << " " << f.Initial(); for (size_t i : f.Finals()) s << "," << i; return s.str(); }

template<class Sc> std::string search(const Sc& sc, const std::string& t)
{
	const char* b = t.data(); const char* e = b + t.size(); std::string o; const char* x;
	x = Pire::LongestPrefix(sc, b, e); o += x ? vf::str(x - b) : "-"; x = Pire::ShortestPrefix(sc, b, e, true, true); o += x ? " " + vf::str(x - b) : " -";
	if (!t.empty()) { x = Pire::LongestSuffix(sc, e - 1, b - 1); o += x ? " " + vf::str(e - x) : " -"; x = Pire::ShortestSuffix(sc, e - 1, b - 1); o += x ? " " + vf::str(e - x) : " -"; }
	o += Pire::Runner(sc).Begin().Run(t).End() ? " +" : " -"; auto st = Pire::RunHelper<Sc>(sc).Begin().Run(b, e).State(); o += sc.Dead(st) ? "D" : "L";
	return o;
}

struct Shared {
	std::vector<P> any;                             // of every kind
	Pire::Scanner multi; Pire::NonrelocScanner nonreloc; Pire::SimpleScanner simple; Pire::SlowScanner slow;
	Pire::Fsm fsm, fsm2; std::vector<Pire::Regexp> easy; std::vector<std::string> texts;
};

// Features of all sorts, to parse with
std::string parseAndPrint(uint64_t seed)
{
	vf::Rng r(seed); pat::Features f; f.random(r); pat::Gen g(r, f); pat::Pattern p = g.pattern(r.range(1, 8)); Pire::Fsm a;
	try { a = vu::parse(p.text, f); if (r.chance(40)) a.Surround(); } catch (const Pire::Error& e) { return std::string("error ") + e.what(); }
	if (a.Size() > 300) return "big";
	uint64_t s = r.next();
	switch (r.below(4)) {
	case 0: return zoo::print(a.Compile<Pire::Scanner>(), s, 20, 2);
	case 1: return zoo::print(a.Compile<Pire::SlowScanner>(), s, 5, 2);
	case 2: a.Determine(); a.Minimize(); return zoo::print(a.Compile<Pire::NonrelocScanner>(), s, 20, 2);
	default: return zoo::print(a.Compile<Pire::SimpleScanner>(), s, 20, 2);
	}
}

// One operation; everything random comes from the seed, so that it gives the same result each time
std::string operation(const Shared& sh, uint64_t seed)
{
	vf::Rng r(seed); size_t i = r.below(sh.any.size()), k = r.below(22); const zoo::Any& a = *sh.any[i]; const std::string& t = sh.texts[r.below(sh.texts.size())];
	switch (k) {
	case 0: case 1: case 2: return a.print(15, 3);
	case 3: { P c = a.copy(); return c->print(10, 2); }
	case 4: return vf::str(vf::hashStr(a.image()));
	case 5: { P c = a.convert(); return c ? c->print(10, 2) : "none"; }
	case 6: case 7: { for (size_t n = 0; n < sh.any.size(); ++n) { size_t j = (i + 1 + n) % sh.any.size(); if (sh.any[j]->kind == a.kind && a.canGlue()) { P g = a.glue(*sh.any[j], 2000); return g->print(10, 2); } } return "alone"; }
	case 8: { P c = a.fresh(); std::string o = c->print(3, 1); if (!c->canAssign()) return o; c->assign(a); return o + c->print(10, 2); }
	case 9: if (!a.canMap()) return "none"; else { std::string im = a.image(); std::istringstream s(im); P c = a.fresh(); c->load(s); return c->print(10, 2); }
	case 10: return search(sh.multi, t);
	case 11: return search(sh.nonreloc, t);
	case 12: return search(sh.simple, t) + (Pire::Runner(sh.slow).Begin().Run(t).End() ? "+" : "-");
	case 13: { auto p = std::make_pair(sh.multi, sh.simple); Pire::ScannerPair<Pire::Scanner, Pire::SimpleScanner> sp(sh.multi, sh.simple); Pire::ScannerPair<Pire::Scanner, Pire::SimpleScanner>::State st; sp.Initialize(st); Pire::Run(sp, st, t.data(), t.data() + t.size()); return vf::str(sp.StateIndex(st).first) + " " + vf::str(sp.StateIndex(st).second); }
	case 14: { std::string o; for (auto& e : sh.easy) o += e.Matches(t) ? "+" : "-"; Pire::Regexp c(sh.easy[r.below(sh.easy.size())]); return o + (t ==~ c ? "+" : "-"); }
	case 15: { Pire::Fsm f(sh.fsm); f.Determine(); return printFsm(f); }
	case 16: { Pire::Fsm f = r.chance(50) ? sh.fsm + sh.fsm2 : sh.fsm | sh.fsm2; if (r.chance(50)) f.Reverse(); return zoo::print(f.Compile<Pire::SlowScanner>(), seed, 5, 2); }
	case 17: { vf::Run own; own.rng = vf::Rng(seed); try { P c = zoo::make(own); return c->print(10, 2); } catch (const vf::SkipCase&) { return "skipped"; } }
	case 18: try { Pire::Regexp x(r.chance(50) ? "(a|b" : "a{3,1}"); return "accepted"; } catch (const Pire::Error& e) { return std::string("error ") + e.what(); }
	case 19: { Pire::Fsm w; w.Append("abcab"); Pire::Fsm f = Pire::CreateApproxFsm(w, 1); return zoo::print(f.Compile<Pire::Scanner>(), seed, 30, 2); }
	default: return parseAndPrint(seed);
	}
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& r = run.rng; Shared sh;
	std::vector<zoo::Kind> kinds; for (int i = r.range(1, 3); i > 0; --i) kinds.push_back((zoo::Kind) r.below(zoo::KINDS));
	std::string desc;
	for (int i = r.range(2, 5); i > 0; --i) {
		P p = zoo::make(run, kinds[r.below(kinds.size())]);
		if (p->canMap() && r.chance(30)) { std::string im = p->image(); if (im.size() % 8 == 0) { char* m = (char*) malloc(im.size() + 1); memcpy(m, im.data(), im.size()); P c = p->fresh(); c->keep.push_back(zoo::Keep(m, free)); c->map(m, im.size()); c->seed = p->seed; c->desc = p->desc; p = std::move(c); desc += "mapped "; } }
		desc += p->desc.substr(0, 80) + "; "; sh.any.push_back(std::move(p));
	}
	raw::Auto a = raw::any(run, 10, 6), b = raw::any(run, 6, 4);
	if (a.fsm.Size() > 200 || b.fsm.Size() > 200) throw vf::SkipCase("big automaton");
	sh.fsm = a.fsm; sh.fsm2 = b.fsm;
	{ Pire::Fsm f(a.fsm); sh.multi = f.Compile<Pire::Scanner>(); } { Pire::Fsm f(a.fsm); sh.nonreloc = f.Compile<Pire::NonrelocScanner>(); } { Pire::Fsm f(b.fsm); sh.simple = f.Compile<Pire::SimpleScanner>(); } { Pire::Fsm f(a.fsm); sh.slow = f.Compile<Pire::SlowScanner>(); }
	sh.easy.push_back(Pire::Regexp("a(b|c)+", Pire::I)); sh.easy.push_back(Pire::Regexp("^[a-c]*$")); { Pire::Fsm f(b.fsm); sh.easy.push_back(Pire::Regexp(f.Compile<Pire::SlowScanner>())); }
	for (int i = 0; i < 4; ++i) { std::string t; for (int n = r.chance(30) ? r.range(20, 90) : r.below(20); n > 0; --n) t += (char) ('a' + r.below(3)); sh.texts.push_back(t); }
	// the library has been used
	for (auto f : {"\\w\\d\\s", "ab"}) { std::string s(f); std::vector<Pire::wchar32> w(s.begin(), s.end()); Pire::Lexer lx(w); lx.AddFeature(Pire::Features::CaseInsensitive()); lx.AddFeature(Pire::Features::AndNotSupport()); lx.AddFeature(Pire::Features::GlueSimilarGlyphs()); lx.SetEncoding(Pire::Encodings::Utf8()); lx.Parse(); }
	int threads = r.range(2, 5), each = r.range(4, 10); bool same = r.chance(40);
	std::vector<std::vector<uint64_t> > ops(threads); std::map<uint64_t, std::string> want;
	std::vector<uint64_t> common; for (int i = 0; i < each; ++i) common.push_back(r.next());
	for (int t = 0; t < threads; ++t) for (int i = 0; i < each; ++i) { ops[t].push_back(same || r.chance(30) ? common[r.below(each)] : r.next()); }
	for (auto& l : ops) for (uint64_t s : l) if (!want.count(s)) want[s] = operation(sh, s);
	std::vector<std::string> bad(threads); std::vector<std::vector<unsigned> > when(threads); std::vector<uint64_t> delays; for (int t = 0; t < threads; ++t) delays.push_back(r.next());
	std::atomic<unsigned> clock(0), ready(0); std::vector<std::thread> pool;
	for (int t = 0; t < threads; ++t) pool.push_back(std::thread([&, t]() {
		vf::Rng d(delays[t]); ready.fetch_add(1, std::memory_order_relaxed);
		while (ready.load(std::memory_order_relaxed) < (unsigned) threads) sched_yield();
		for (uint64_t s : ops[t]) {
			if (d.chance(30)) sched_yield(); if (d.chance(10)) std::this_thread::sleep_for(std::chrono::microseconds(d.below(200)));
			when[t].push_back(clock.fetch_add(1, std::memory_order_relaxed)); // relaxed: does not order the threads
			std::string got; try { got = operation(sh, s); } catch (const std::exception& e) { got = std::string("threw ") + e.what(); }
			when[t].push_back(clock.fetch_add(1, std::memory_order_relaxed));
			if (got != want.find(s)->second && bad[t].empty()) bad[t] = "operation " + vf::str(vf::Rng(s).next() & 0) + "seed " + vf::str(s) + ": " + got.substr(0, 300) + " alone: " + want.find(s)->second.substr(0, 300);
		}
	}));
	for (auto& t : pool) t.join();
	for (auto& s : bad) if (!s.empty()) run.fail("different-result-among-threads", desc + s);
	// afterwards nothing has changed
	for (auto& w : want) { std::string got = operation(sh, w.first); if (got != w.second) run.fail("different-result-afterwards", desc + got.substr(0, 300) + " before: " + w.second.substr(0, 300)); }
	std::vector<std::pair<unsigned, int> > order; size_t overlaps = 0; for (int t = 0; t < threads; ++t) for (size_t i = 0; i < when[t].size(); i += 2) { order.push_back(std::make_pair(when[t][i], t)); if (when[t][i + 1] != when[t][i] + 1) ++overlaps; }
	std::sort(order.begin(), order.end()); uint64_t h = 0; for (auto& o : order) h = vf::mix(h, o.second);
	run.seen("orders of operations", h); run.count("operations", order.size()); run.count("operations overlapping others", overlaps); run.count("threads", threads);
	if (overlaps) run.nontrivial(desc + vf::str(h)); run.sample(vf::str(threads) + " threads, " + vf::str(order.size()) + " operations, " + vf::str(overlaps) + " overlapping: " + desc);
}
