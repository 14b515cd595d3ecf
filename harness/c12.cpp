// C12: scanners and automata are values: pools of objects under random sequences of copying, assigning, moving, swapping,
// converting, gluing, saving, loading, mapping and destroying; after each operation every object it touched, and some it did
// not, must still be what it was given.
#include "zoo.h"
const char* vf_prop = "C12";

namespace {

using zoo::Any;
typedef std::unique_ptr<Any> P;

struct Slot { P p; std::string want; bool mapped; Slot(): mapped(false) {} };

const char* copyBytes(const std::string& s, std::vector<zoo::Keep>& keep) {
	char* m = (char*) malloc(s.size() ? s.size() : 1); memcpy(m, s.data(), s.size());
	keep.push_back(zoo::Keep(m, free));
	return m;
}

void scanners(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	std::vector<Slot> pool; std::string log;
	// few kinds at a time, so that objects of one kind meet
	std::vector<zoo::Kind> kinds; for (int i = rng.range(1, 3); i > 0; --i) kinds.push_back((zoo::Kind) rng.below(zoo::KINDS));
	auto add = [&](P p, const std::string& want, bool mapped) { Slot s; s.p = std::move(p); s.want = want; s.mapped = mapped; pool.push_back(std::move(s)); };
	auto kindName = [&](const Slot& s) { return std::string(zoo::names[s.p->kind]); };
	auto check = [&](size_t i, const std::string& op) {
		std::string got = pool[i].p->print(20, 3);
		if (got != pool[i].want) run.fail(kindName(pool[i]) + ":wrong-value-after-" + op, "object " + vf::str(i) + " " + pool[i].p->desc.substr(0, 300) + ": " + got + " expected " + pool[i].want + " history:" + log);
		run.count("values compared");
	};
	auto make = [&]() { P p = zoo::make(run, kinds[rng.below(kinds.size())]); std::string w = p->print(20, 3); add(std::move(p), w, false); };
	for (int i = rng.range(2, 4); i > 0; --i) make();
	int steps = rng.range(8, run.thorough ? 60 : 25);
	for (int step = 0; step < steps; ++step) {
		if (pool.empty()) make();
		size_t i = rng.below(pool.size()), j = rng.below(pool.size());
		// a partner of the same kind if there is one
		for (int t = 0; t < 6 && (j == i || pool[j].p->kind != pool[i].p->kind); ++t) j = rng.below(pool.size());
		bool sameKind = pool[i].p->kind == pool[j].p->kind;
		std::string op;
		switch (rng.below(14)) {
		case 0: op = "construct"; if (pool.size() < 9) make(); i = pool.size() - 1; break;
		case 1: op = "copy"; if (pool.size() < 9) { P c = pool[i].p->copy(); add(std::move(c), pool[i].want, pool[i].mapped); check(pool.size() - 1, op); } break;
		case 2: if (sameKind && pool[i].p->canAssign() && i != j) { op = "assign"; pool[i].p->assign(*pool[j].p); pool[i].p->seed = pool[j].p->seed; pool[i].p->desc = pool[j].p->desc; pool[i].want = pool[j].want; pool[i].mapped = pool[j].mapped; check(j, op); } break;
		case 3: if (pool[i].p->canAssign()) { op = "assign-to-itself"; pool[i].p->assign(*pool[i].p); } break;
		case 4: { op = "move"; P m = pool[i].p->moved(); P old = std::move(pool[i].p); pool[i].p = std::move(m); check(i, op);
			// what is left can be destroyed, or be given another value
			if (rng.chance(50) && old->canAssign()) { old->assign(*pool[i].p); std::string w = pool[i].want; if (old->print(20, 3) != w) run.fail(kindName(pool[i]) + ":moved-from-cannot-be-assigned", log); }
			break; }
		case 5: if (sameKind && i != j && pool[i].p->canAssign()) { op = "move-assign"; P& src = pool[j].p; pool[i].p->moveAssign(*src); pool[i].p->seed = src->seed; pool[i].p->desc = src->desc; pool[i].want = pool[j].want; pool[i].mapped = pool[j].mapped;
			pool.erase(pool.begin() + j); if (j < i) --i; } break;
		case 6: if (sameKind && i != j) { op = "swap"; pool[i].p->swap(*pool[j].p); std::swap(pool[i].want, pool[j].want); std::swap(pool[i].mapped, pool[j].mapped); check(j, op); } break;
		case 7: if (sameKind && i != j) { op = "std-swap"; pool[i].p->stdSwap(*pool[j].p); std::swap(pool[i].want, pool[j].want); std::swap(pool[i].mapped, pool[j].mapped); check(j, op); } break;
		case 8: { P c = pool[i].p->convert(); if (c) { op = "convert"; std::string w = pool[i].want; bool m = pool[i].mapped; if (pool.size() < 9) add(std::move(c), w, m); else { pool[i].p = std::move(c); } check(pool.size() - 1, op); } break; }
		case 9: if (sameKind && pool[i].p->canGlue()) { op = "glue"; P g = pool[i].p->glue(*pool[j].p, 1500);
			// a fresh gluing of reloaded operands must print the same; the result must outlive the operands
			std::string w = g->print(20, 3);
			bool e1 = pool[i].p->isEmpty(), e2 = pool[j].p->isEmpty();
			if (!g->isEmpty() && g->regexpsCount() != pool[i].p->regexpsCount() + pool[j].p->regexpsCount()) run.fail(kindName(pool[i]) + ":glued-regexps-count", log);
			if (e1 != e2) { P& src = e1 ? pool[j].p : pool[i].p; g->seed = src->seed; w = g->print(20, 3); bool renumbers = g->kind == zoo::Counting || g->kind == zoo::Advanced || g->kind == zoo::NoLimit; /* C13 compares their counts */ if (!renumbers && w != (e1 ? pool[j] : pool[i]).want) run.fail(kindName(pool[i]) + ":glued-with-empty", src->desc.substr(0,200) + ": " + w + " expected " + (e1 ? pool[j] : pool[i]).want + " history:" + log); }
			if (g->size() < 2000 && !(g->kind == zoo::Capturing)) { bool m = pool[i].mapped || pool[j].mapped; size_t victim = i; if (pool.size() < 9) add(std::move(g), w, m); else { pool[victim].p = std::move(g); pool[victim].want = w; pool[victim].mapped = m; } check(j, op); }
			} break;
		case 10: { op = "save"; std::string img = pool[i].p->image(); check(i, op); P l;
			if (rng.chance(50) && sameKind && i != j) { op = "load"; std::istringstream s(img); pool[j].p->load(s); pool[j].p->seed = pool[i].p->seed; pool[j].p->desc = pool[i].p->desc; pool[j].want = pool[i].want; pool[j].mapped = false; pool[j].p->keep.clear(); check(j, op); }
			else if (pool.size() < 9) { op = "load"; l = pool[i].p->fresh(); l->seed = pool[i].p->seed; l->desc = pool[i].p->desc; std::istringstream s(img); l->load(s); add(std::move(l), pool[i].want, false); check(pool.size() - 1, op); }
			break; }
		case 11: if (pool[i].p->canMap()) { op = "map"; std::string img = pool[i].p->image(); size_t t = sameKind && i != j ? j : pool.size();
			if (t == pool.size()) { if (pool.size() >= 9) break; P l = pool[i].p->fresh(); l->seed = pool[i].p->seed; l->desc = pool[i].p->desc; add(std::move(l), pool[i].want, true); }
			std::vector<zoo::Keep> k; const char* m = copyBytes(img, k); pool[t].p->map(m, img.size()); pool[t].p->keep = k;
			pool[t].p->seed = pool[i].p->seed; pool[t].p->desc = pool[i].p->desc; pool[t].want = pool[i].want; pool[t].mapped = true; check(t, op); } break;
		case 12: { op = "failed-load"; std::string img = pool[i].p->image(); std::istringstream s(img.substr(0, rng.below(img.size()))); try { pool[i].p->load(s); run.fail(kindName(pool[i]) + ":truncated-image-loaded", log); } catch (const Pire::Error&) {} break; }
		default: op = "destroy"; if (pool.size() > 1) { pool.erase(pool.begin() + i); i = rng.below(pool.size()); }
		}
		if (op.empty()) continue;
		log += " " + op + "(" + vf::str(i) + "," + vf::str(j) + ")";
		run.count("op " + op);
		if (i < pool.size()) check(i, op);
		if (rng.chance(50)) check(rng.below(pool.size()), op);
	}
	for (size_t i = 0; i < pool.size(); ++i) check(i, "everything");
	std::string ks; for (auto k : kinds) ks += std::string(zoo::names[k]) + " ";
	run.nontrivial(ks + log);
	run.sample(ks + log.substr(0, 400));
}

// --- automata -------------------------------------------------------------------------------------------------

std::string image(const Pire::Fsm& f)
{
	std::ostringstream o; o << f.Size() << ' ' << f.Initial() << ' ' << f.IsDetermined() << ';';
	for (size_t i = 0; i < f.Size(); ++i) {
		o << (f.IsFinal(i) ? 'F' : '-') << f.Tag(i);
		for (unsigned c = 0; c < Pire::MaxChar; ++c) { const Pire::Fsm::StatesSet& d = f.Destinations(i, c); if (d.empty()) continue; o << ' ' << c << ':'; std::set<size_t> s(d.begin(), d.end()); for (size_t t : s) o << t << ','; }
		o << ';';
	}
	return o.str();
}

void automata(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	std::vector<std::unique_ptr<Pire::Fsm> > pool; std::vector<std::string> want; std::vector<ref::Nfa> lang; std::vector<char> sparse; std::string log;
	auto add = [&](const Pire::Fsm& f, const ref::Nfa& n, bool sp) { pool.push_back(std::unique_ptr<Pire::Fsm>(new Pire::Fsm(f))); want.push_back(image(f)); lang.push_back(n); sparse.push_back(sp); };
	auto check = [&](size_t i, const std::string& op) { if (image(*pool[i]) != want[i]) run.fail("automaton:wrong-value-after-" + op, "object " + vf::str(i) + " history:" + log); run.count("values compared"); };
	for (int i = rng.range(2, 4); i > 0; --i) { raw::Auto a = raw::any(run, 6, 5); add(a.fsm, a.nfa, false); }
	int steps = rng.range(6, 18);
	for (int step = 0; step < steps; ++step) {
		size_t i = rng.below(pool.size()), j = rng.below(pool.size()); std::string op;
		switch (rng.below(10)) {
		case 0: op = "copy"; if (pool.size() < 8) { Pire::Fsm c(*pool[i]); if (image(c) != want[i]) run.fail("automaton:copy-differs", log); add(c, lang[i], sparse[i]); } break;
		case 1: op = "assign"; *pool[i] = *pool[j]; want[i] = want[j]; { ref::Nfa n = lang[j]; lang[i] = n; } sparse[i] = sparse[j]; break;
		case 2: op = "swap"; pool[i]->Swap(*pool[j]); std::swap(want[i], want[j]); if (i != j) { std::swap(lang[i], lang[j]); std::swap(sparse[i], sparse[j]); } break;
		case 3: op = "std-swap"; { using std::swap; swap(*pool[i], *pool[j]); } std::swap(want[i], want[j]); if (i != j) { std::swap(lang[i], lang[j]); std::swap(sparse[i], sparse[j]); } break;
		case 4: op = "move"; { Pire::Fsm m(std::move(*pool[i])); pool[i].reset(new Pire::Fsm(m)); } break;
		case 5: op = "move-assign"; if (i != j) { *pool[i] = std::move(*pool[j]); want[i] = want[j]; lang[i] = lang[j]; sparse[i] = sparse[j]; pool[j].reset(new Pire::Fsm(*pool[i])); want[j] = want[i]; lang[j] = lang[i]; sparse[j] = sparse[i]; } break;
		case 6: op = "canonize"; { ref::determinize(lang[i], 200); Pire::Fsm c(*pool[i]); c.Canonize(); check(i, op); pool[i].reset(new Pire::Fsm(c)); want[i] = image(c); sparse[i] = true; } break;
		case 7: if (!sparse[i] && !sparse[j] && pool[i]->Size() + pool[j]->Size() < 60) { op = "alternate"; Pire::Fsm r = *pool[i] | *pool[j]; check(j, op); check(i, op); ref::Nfa n = ref::alt(lang[i], lang[j]); *pool[i] |= *pool[j]; lang[i] = n; if (i != j) check(j, op); want[i] = image(*pool[i]); } break;
		case 8: if (!sparse[i] && !sparse[j] && pool[i]->Size() + pool[j]->Size() < 60) { op = "append"; ref::Nfa n = ref::cat(lang[i], lang[j]); *pool[i] += *pool[j]; lang[i] = n; if (i != j) check(j, op); want[i] = image(*pool[i]); } break;
		default: op = "compile"; { ref::Dfa d = ref::minimize(ref::determinize(lang[i], 300)); if (d.size() > 80) break; Pire::Fsm f(*pool[i]); Pire::Scanner s = f.Compile<Pire::Scanner>(); check(i, op);
			// the scanner does not depend on the automaton it was made from
			f = Pire::Fsm::MakeFalse(); f.Append('x');
			vw::walk1(run, s, d, "compiled", [&]() { return "object " + vf::str(i) + " history:" + log; }); } break;
		}
		if (op.empty()) continue;
		log += " " + op + "(" + vf::str(i) + "," + vf::str(j) + ")"; run.count("automaton op " + op);
		check(i, op); if (j < pool.size()) check(j, op); check(rng.below(pool.size()), op);
	}
	run.nontrivial("automata" + log);
}

// States are values too: a copied state goes its own way
void states(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	P p = zoo::make(run);
	std::string w1 = p->print(5, 2), w2 = p->print(5, 2);
	if (w1 != w2) run.fail(std::string(zoo::names[p->kind]) + ":runs-differ", p->desc);
	// destroyed in another order than made, while a copy of a copy lives on
	P a = p->copy(), b = a->copy(), c = b->copy();
	std::vector<P*> v; v.push_back(&p); v.push_back(&a); v.push_back(&b); v.push_back(&c);
	for (size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[rng.below(i)]); (*v[i - 1]).reset(); if ((*v[0]) && (*v[0])->print(5, 2) != w1) run.fail(std::string(zoo::names[(*v[0])->kind]) + ":copy-depends-on-another", (*v[0])->desc); }
	run.nontrivial("states " + (*v[0])->desc);
}

} // namespace

void vf_case(vf::Run& run)
{
	int k = run.rng.below(10);
	if (k < 6) scanners(run); else if (k < 9) automata(run); else states(run);
}
