// C05: operators on automata obey the laws of the languages.
#include "rawfsm.h"
const char* vf_prop = "C05";

namespace {

struct Val { Pire::Fsm f; ref::Nfa n; std::string d; };

std::string dump(const Pire::Fsm& f) { std::ostringstream o; f.DumpTo(o); o << f.Initial() << f.IsDetermined(); return o.str(); }

ref::Nfa small(const ref::Nfa& n) { return n.size() <= 60 ? n : ref::toNfa(ref::minimize(ref::determinize(n, 300))); }

struct Gen {
	vf::Run& run; vf::Rng& rng; int budget; bool raws, manyDone;
	Gen(vf::Run& r, int b): run(r), rng(r.rng), budget(b), raws(r.rng.chance(35)), manyDone(false) {}

	char byte() { return rng.chance(85) ? 'a' + rng.below(3) : (char) rng.below(256); }
	std::string word(size_t lo, size_t hi) { std::string s; for (size_t n = rng.range(lo, hi); n; --n) s += byte(); return s; }

	Val leaf() {
		Val v;
		switch (rng.below(raws ? 12 : 9)) {
		case 0: v.n = ref::empty(); v.d = "Fsm()"; break;
		case 1: v.f = Pire::Fsm::MakeFalse(); v.n = ref::nothing(); v.d = "False"; break;
		default: if (raws && rng.chance(30)) { raw::Auto a = raw::random(rng, 5, rng.chance(30)); v.f = a.fsm; v.n = a.nfa; v.d = a.desc; run.count("op raw automaton"); return v; } // fall through
		case 2: case 3: case 4: { std::string w = word(1, 3); v.f.Append(w); v.n = ref::word(w); v.d = "\"" + vf::show(w) + "\""; } break;
		case 5: v.f.AppendDot(); v.n = ref::sym(ref::anyByte()); v.d = "Dot"; break;
		case 6: strings(v); break;
		case 7: special(v); break;
		case 8: { char c = byte(); v.f.Append(c); v.n = ref::word(std::string(1, c)); v.d = "'" + vf::show(std::string(1, c)) + "'"; } break;
		}
		return v;
	}
	void strings(Val& v) {
		Pire::TVector<Pire::ystring> ss; ref::Nfa u = ref::nothing(); std::string d;
		for (size_t n = rng.range(1, 5); n; --n) { std::string w = word(1, 4); ss.push_back(w); u = ref::alt(u, ref::word(w)); d += " " + vf::show(w); }
		v.f.AppendStrings(ss); v.n = ref::cat(v.n.size() == 1 && !v.n.fin[0] && v.d.empty() ? ref::empty() : v.n, u); v.d = v.d + ".Strings(" + d + " )"; run.count("op AppendStrings");
	}
	void special(Val& v) { bool b = rng.chance(50); v.f.AppendSpecial(b ? Pire::BeginMark : Pire::EndMark); v.n = ref::cat(v.d.empty() ? ref::empty() : v.n, ref::sym(ref::one(b ? ref::BM : ref::EM))); v.d += b ? ".Begin" : ".End"; }

	Val expr(int depth) {
		if (depth <= 0 || --budget <= 0) return leaf();
		Val a = expr(depth - 1);
		int k = rng.below(20);
		if (k < 10) { // binary
			int op = rng.below(8); // += |= &= by copy or in place
			bool self = rng.chance(12);
			Val b; if (self) b = a; else b = expr(depth - 1);
			std::string before = dump(b.f);
			bool copy = rng.chance(40);
			std::string beforeA = dump(a.f);
			Pire::Fsm r(a.f);
			Pire::Fsm* lhs = copy ? &a.f : &r;
			const Pire::Fsm& rhs = self ? *lhs : b.f;
			if (op < 4) { if (copy) r = a.f + rhs; else r += rhs; a.n = ref::cat(a.n, b.n); run.count("op +"); }
			else if (op < 7) { if (copy) r = a.f | rhs; else r |= rhs; a.n = ref::alt(a.n, b.n); run.count("op |"); }
			else {
				ref::Dfa x = ref::minimize(ref::determinize(a.n, 200)), y = ref::minimize(ref::determinize(b.n, 200));
				if (copy) r = a.f & rhs; else r &= rhs;
				a.n = ref::conj(ref::toNfa(x), ref::toNfa(y)); run.count("op &");
			}
			if (self) run.count("op on itself");
			else if (dump(b.f) != before) run.fail("operand-changed", "right operand of " + std::string("+|&").substr(op < 4 ? 0 : op < 7 ? 1 : 2, 1) + " changed: " + b.d);
			if (copy && dump(a.f) != beforeA) run.fail("operand-changed", "left operand changed: " + a.d);
			a.f = r; a.d = "(" + a.d + (op < 4 ? " + " : op < 7 ? " | " : " & ") + (self ? "itself" : b.d) + ")";
			a.n = small(a.n);
			return a;
		}
		bool copy = rng.chance(40);
		std::string beforeA = dump(a.f);
		Pire::Fsm r(a.f);
		if ((k == 15 || k == 16) && a.d.find('~') != std::string::npos) {
			// A complement contains words with the letters the library keeps for itself (256 and some behind the marks), which no
			// text has; what is left of them in prefixes and suffixes may be bytes
			Pire::Fsm real; for (unsigned c = 0; c < ref::NSYM; ++c) real.Connect(0, 0, vw::letter(c)); real.SetFinal(0, true);
			a.f &= real; r = a.f; beforeA = dump(a.f);
		}
		switch (k) {
		case 10: case 11: if (copy) r = *a.f; else r.Iterate(); a.n = ref::star(a.n); a.d = "*(" + a.d + ")"; run.count("op iterate"); break;
		case 12: { ref::determinize(a.n, 300); if (copy) r = ~a.f; else r.Complement(); a.n = ref::complement(a.n); a.d = "~(" + a.d + ")"; run.count("op complement"); break; }
		case 13: { bool many = rng.chance(15) && !manyDone && a.n.size() <= 12 && a.f.Size() <= 12; if (many) manyDone = true; size_t n = many ? rng.below(14) : rng.below(4); if (copy) r = a.f * n; else r *= n; a.n = ref::repeat(a.n, n, n); a.d = "(" + a.d + ")*" + vf::str(n); run.count("op repeat"); break; }
		case 14: r.Reverse(); a.n = ref::reverse(a.n); a.d = "Reverse(" + a.d + ")"; run.count("op reverse"); break;
		case 15: r.MakePrefix(); a.n = ref::prefixes(a.n); a.d = "Prefixes(" + a.d + ")"; run.count("op prefix closure"); break;
		case 16: r.MakeSuffix(); a.n = ref::suffixes(a.n); a.d = "Suffixes(" + a.d + ")"; run.count("op suffix closure"); break;
		case 17: switch (rng.below(3)) {
			case 0: if (copy) r = a.f.Surrounded(); else r.Surround(); a.n = ref::surround(a.n); a.d = "Surround(" + a.d + ")"; run.count("op surround"); break;
			case 1: r.PrependAnything(); a.n = ref::cat(ref::anything(), a.n); a.d = "PrependAnything(" + a.d + ")"; run.count("op prepend anything"); break;
			default: r.AppendAnything(); a.n = ref::cat(a.n, ref::anything()); a.d = "AppendAnything(" + a.d + ")"; run.count("op append anything"); break;
			} break;
		case 18: { // appending in place
			Val v; v.f = r; v.n = a.n; v.d = a.d;
			switch (rng.below(5)) {
			case 0: { char c = byte(); v.f.Append(c); v.n = ref::cat(v.n, ref::word(std::string(1, c))); v.d += ".Append(" + vf::show(std::string(1, c)) + ")"; break; }
			case 1: { std::string w = word(0, 3); v.f.Append(w); v.n = ref::cat(v.n, ref::word(w)); v.d += ".Append(\"" + vf::show(w) + "\")"; break; }
			case 2: v.f.AppendDot(); v.n = ref::cat(v.n, ref::sym(ref::anyByte())); v.d += ".AppendDot()"; break;
			case 3: special(v); break;
			default: strings(v);
			}
			run.count("op append"); a.n = small(v.n); a.f = v.f; a.d = v.d;
			return a; }
		default: // preserved languages in the middle of an expression
			if (rng.chance(50)) { r.RemoveDeadEnds(); a.d = "RemoveDeadEnds(" + a.d + ")"; } else { Pire::Fsm t(r); Pire::Fsm u; u.Swap(t); r = u; a.d = "Copy(" + a.d + ")"; }
		}
		if (copy && dump(a.f) != beforeA) run.fail("operand-changed", "operand of a copying operator changed: " + a.d);
		a.f = r; a.n = small(a.n);
		return a;
	}
};

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	Gen g(run, rng.chance(60) ? 10 : run.thorough ? 30 : 20);
	Val v = g.expr(rng.range(1, 5));
	ref::Dfa d = ref::minimize(ref::determinize(v.n, 1000));
	if (d.size() > 300 || v.d.size() > 6000) throw ref::TooBig();
	auto desc = [&]() { return v.d; };
	size_t pairs;
	switch (rng.below(4)) {
	case 0: { Pire::Fsm f(v.f); pairs = vw::walk1(run, f.Compile<Pire::SimpleScanner>(), d, "simple", desc); break; }
	case 1: { Pire::Fsm f(v.f); pairs = vw::walk1(run, f.Compile<Pire::SlowScanner>(), d, "slow", desc, false, 1000); break; }
	default: { Pire::Fsm f(v.f); pairs = vw::walk1(run, f.Compile<Pire::Scanner>(), d, "multi", desc); }
	}
	run.seen("reference states", d.size());
	if (d.size() > 2) run.nontrivial(v.d);
	if (d.size() > 3 && v.d.size() < 300) run.sample(v.d + " -> " + vf::str(d.size()) + " states");
}
