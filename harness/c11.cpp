// C11: incompatible, misaligned or cut-off images are refused, nothing outside them is read, the target stays as it was.
#include "zoo.h"
const char* vf_prop = "C11";

namespace {

using zoo::Any;
typedef std::unique_ptr<Any> P;

// Read-only bytes whose end (rounded up to 8 for the start's alignment) touches an inaccessible page: reading the page faults,
// and reading the few bytes in between shows in the sanitizer for heap copies
struct Bytes {
	std::unique_ptr<obs::Guarded> g; char* heap; char* p; size_t n;
	Bytes(const char* d, size_t n_, bool guarded): heap(0), n(n_) {
		if (guarded) {
			g.reset(new obs::Guarded(n / 4096 + 2));
			// the last byte is the last of the page whenever the start would still be aligned, else as near as possible
			p = (char*) ((size_t) (g->end() - n) & ~(size_t) 7);
		} else { heap = (char*) malloc(n ? n : 1); p = heap; }
		memcpy(p, d, n);
	}
	~Bytes() { free(heap); }
};

// The target, whose content a refusal must leave alone
struct Target {
	P t; std::string before, all; size_t asked;
	Target(vf::Run& run, const Any& a) { t = run.rng.chance(30) ? zoo::makeEmpty(run.rng, a.kind) : zoo::make(run, a.kind); before = t->print(0, 1); all = t->print(10, 3); asked = 0; }
	// a quick look each time, a thorough one now and then
	bool same() { return t->print(0, 1) == before && (++asked % 50 || t->print(10, 3) == all); }
	~Target() {}
};

struct Damage { vf::Run& run; const Any& a; std::string kind;
	Damage(vf::Run& r, const Any& x): run(r), a(x), kind(zoo::names[x.kind]) {}

	void refusedMap(Target& t, const char* p, size_t n, const std::string& what, const std::string& key) {
		bool threw = false;
		try { t.t->map(p, n); } catch (const Pire::Error& e) { threw = true; if (!*e.what()) run.fail(kind + ":error-without-message", a.desc + " " + what); }
		catch (const std::exception& e) { threw = true; }
		if (!threw) run.fail(kind + ":" + key + "-mapped", a.desc + ": " + what);
		if (!t.same()) run.fail(kind + ":" + key + "-mapping-changed-target", a.desc + ": " + what + " target " + t.t->desc);
		run.count("refused mappings");
	}
	void refusedLoad(Target& t, const char* p, size_t n, int how, const std::string& what, const std::string& key) {
		bool threw = false;
		try {
			if (how == 0) { std::istringstream s(std::string(p, n)); t.t->load(s); }
			else if (how == 1) { std::istringstream s(std::string(p, n)); s.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit); t.t->load(s); }
			else { Pire::MemoryInput s(p, n); t.t->load(s); }
		} catch (const std::exception& e) { threw = true; }
		if (!threw) run.fail(kind + ":" + key + "-loaded", a.desc + ": " + what + (how == 0 ? " plain stream" : how == 1 ? " throwing stream" : " memory stream"));
		if (!t.same()) run.fail(kind + ":" + key + "-loading-changed-target", a.desc + ": " + what + " target " + t.t->desc);
		run.count("refused loads");
	}
};

void truncated(vf::Run& run, const Any& a)
{
	vf::Rng& rng = run.rng;
	std::string img = a.image();
	Damage d(run, a);
	// every length of a small image; of a big one the ends, the beginning, and samples
	std::set<size_t> cuts;
	if (img.size() <= 700) for (size_t i = 0; i < img.size(); ++i) cuts.insert(i);
	else { for (size_t i = 0; i < 90; ++i) cuts.insert(i); for (size_t i = 0; i < 30; ++i) cuts.insert(img.size() - 1 - i); for (int i = 0; i < 120; ++i) cuts.insert(rng.below(img.size())); for (int i = 0; i < 40; ++i) cuts.insert(rng.below(img.size()) & ~(size_t) 7); }
	Target m(run, a), l(run, a);
	for (size_t n : cuts) {
		std::string what = "cut to " + vf::str(n) + " of " + vf::str(img.size()) + " bytes";
		if (a.canMap()) { Bytes b(img.data(), n, rng.chance(50)); d.refusedMap(m, b.p, n, what, "truncated-image"); }
		if (rng.chance(60)) d.refusedLoad(l, img.data(), n, rng.below(3), what, "truncated-image");
	}
	if (m.t->print(10, 3) != m.all) run.fail(d.kind + ":truncated-image-mapping-changed-target", a.desc);
	if (l.t->print(10, 3) != l.all) run.fail(d.kind + ":truncated-image-loading-changed-target", a.desc);
	run.count("truncations " + d.kind, cuts.size());
	run.nontrivial("cut " + a.desc);
}

// One field of the header, or of what follows it that names the layout, is another
void header(vf::Run& run, const Any& a)
{
	vf::Rng& rng = run.rng;
	const std::string img = a.image(); Damage d(run, a);
	static const char* fields[] = {"magic", "version", "pointer size", "word size", "type", "header size"};
	bool loaded = a.kind == zoo::Counting || a.kind == zoo::Advanced || a.kind == zoo::NoLimit || a.kind == zoo::Capturing;
	Target m(run, a), l(run, a);
	for (int f = 0; f < 6; ++f) for (int k = 0; k < 4; ++k) {
		uint32_t v, o; memcpy(&o, &img[f * 4], 4);
		switch (rng.below(7)) {
		case 0: v = o + 1; break; case 1: v = o - 1; break; case 2: v = __builtin_bswap32(o); break; case 3: v = 0; break;
		case 4: v = o ^ (1u << rng.below(32)); break; case 5: v = rng.below(16); break; default: v = rng.next();
		}
		if (v == o) continue;
		if (f == 1 && (v == 6 || v == 7)) continue;        // the older version is read as well
		if (f == 4 && loaded && (v == 4 || v == 5)) continue; // the loaded kinds read one another's images
		std::string bad(img); memcpy(&bad[f * 4], &v, 4);
		std::string what = std::string(fields[f]) + " " + vf::str(v) + " instead of " + vf::str(o), key = "wrong-header";
		if (a.canMap()) { Bytes b(bad.data(), bad.size(), rng.chance(50)); d.refusedMap(m, b.p, bad.size(), what, key); }
		d.refusedLoad(l, bad.data(), bad.size(), rng.below(3), what, key);
		run.seen("headers altered", vf::mix(f, v));
	}
	if (a.kind <= zoo::NonrelocNoMask || (a.kind >= zoo::Half && a.kind <= zoo::HalfNonrelocNoMask)) {
		// the image names another way of skipping, and, when mapped, another transition format
		for (int k = 0; k < 3; ++k) {
			size_t at = 24 + 12 + 4 + 8 + 8; // header, counts, initial, final table size; then the transition format, then the way of skipping
			bool reloc = k == 0; if (!reloc) at += 8;
			size_t o, v; memcpy(&o, &img[at], 8); v = rng.chance(50) ? o + 1 : rng.next(); if (v == o) continue;
			std::string bad(img); memcpy(&bad[at], &v, 8);
			std::string what = std::string(reloc ? "transition format " : "shortcut format ") + vf::str(v) + " instead of " + vf::str(o), key = reloc ? "wrong-relocation" : "wrong-shortcutting";
			if (a.canMap()) { Bytes b(bad.data(), bad.size(), rng.chance(50)); d.refusedMap(m, b.p, bad.size(), what, key); }
			if (!reloc) d.refusedLoad(l, bad.data(), bad.size(), rng.below(3), what, key);
		}
	}
	run.count("headers altered in " + d.kind);
	run.nontrivial("header " + a.desc);
}

int group(zoo::Kind k) // kinds that may read one another's images
{
	switch (k) {
	case zoo::Multi: case zoo::Nonreloc: case zoo::Half: case zoo::HalfNonreloc: return 0;
	case zoo::MultiNoMask: case zoo::NonrelocNoMask: case zoo::HalfNoMask: case zoo::HalfNonrelocNoMask: return 1;
	case zoo::Simple: return 2;
	case zoo::Slow: case zoo::SlowCapturing: return 3;
	default: return 4;
	}
}

void otherKind(vf::Run& run, const Any& a)
{
	vf::Rng& rng = run.rng;
	std::string img = a.image();
	for (int i = 0; i < 6; ++i) {
		zoo::Kind k = (zoo::Kind) rng.below(zoo::KINDS);
		if (group(k) == group(a.kind)) continue;
		P proto = zoo::makeEmpty(rng, k);
		Target m(run, *proto), l(run, *proto); Damage d(run, *proto);
		std::string what = std::string("image of ") + a.desc;
		if (proto->canMap()) { Bytes b(img.data(), img.size(), rng.chance(50)); d.refusedMap(m, b.p, img.size(), what, "other-kind"); }
		d.refusedLoad(l, img.data(), img.size(), rng.below(3), what, "other-kind");
		run.seen("pairs of kinds", k * 100 + a.kind);
	}
	run.nontrivial("other kind " + a.desc);
}

void misaligned(vf::Run& run, const Any& a)
{
	vf::Rng& rng = run.rng;
	if (!a.canMap()) return;
	std::string img = a.image(); Damage d(run, a); Target m(run, a);
	std::vector<char> buf(img.size() + 64); char* base = (char*) (((size_t) buf.data() + 15) & ~(size_t) 15);
	for (int off = 0; off < 16; ++off) {
		memcpy(base + off, img.data(), img.size());
		if (off % 8) d.refusedMap(m, base + off, img.size(), "at an address " + vf::str(off) + " mod 16", "misaligned-address");
		else { // and a right one is taken, with bytes after it left alone
			P t = a.fresh(); t->seed = a.seed;
			if (t->map(base + off, img.size()) != base + off + img.size() || t->print() != a.print()) run.fail(d.kind + ":aligned-image-not-mapped", a.desc + " at " + vf::str(off));
		}
	}
	run.count("misaligned " + d.kind);
	run.nontrivial("misaligned " + a.desc);
	(void) rng;
}

// A refused load in the middle of a sequence does not keep the others from being read
void recovery(vf::Run& run, Any& a)
{
	vf::Rng& rng = run.rng;
	std::string img = a.image(); size_t cut = rng.below(img.size());
	Target t(run, a); Damage d(run, a);
	d.refusedLoad(t, img.data(), cut, rng.below(3), "cut to " + vf::str(cut), "truncated-image");
	std::istringstream s(img); t.t->load(s); t.t->seed = a.seed;
	if (t.t->print() != a.print()) run.fail(d.kind + ":load-after-refusal-differs", a.desc);
	run.count("loads after a refusal");
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	P a = zoo::make(run);
	switch (rng.below(8)) {
	case 0: case 1: case 2: truncated(run, *a); break;
	case 3: case 4: header(run, *a); break;
	case 5: otherKind(run, *a); break;
	case 6: misaligned(run, *a); break;
	default: recovery(run, *a); truncated(run, *a);
	}
	run.sample(a->desc.substr(0, 300));
}
