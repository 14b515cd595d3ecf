// C10: saving and loading or mapping back reproduces the scanner; images in one stream or buffer are independent.
#include "zoo.h"
const char* vf_prop = "C10";

namespace {

using zoo::Any;
typedef std::unique_ptr<Any> P;

// A stream that hands out its bytes in small pieces, as a pipe does
struct Trickle: std::streambuf {
	std::string data; size_t pos; vf::Rng rng;
	Trickle(const std::string& d, uint64_t seed): data(d), pos(0), rng(seed) {}
	int_type underflow() { if (pos >= data.size()) return traits_type::eof(); size_t n = std::min<size_t>(data.size() - pos, rng.range(1, 50)); char* b = &data[pos]; setg(b, b, b + n); pos += n; return traits_type::to_int_type(*b); }
	size_t consumed() const { return pos - (egptr() - gptr()); }
};

// Read-only memory that ends (or begins) at an inaccessible page, at an address that is a multiple of 8
struct Mapped {
	obs::Guarded g; char* p;
	Mapped(const std::string& s, vf::Rng& rng): g(s.size() / 4096 + 2) {
		size_t slack = (8 - s.size() % 8) % 8;
		p = rng.chance(60) ? g.end() - s.size() - slack : g.begin() + 8 * rng.below(16);
		memset(g.begin(), 0xA5, g.size());
		memcpy(p, s.data(), s.size());
		mprotect(g.begin(), g.size(), PROT_READ);
	}
};

std::string desc(const Any& a) { return a.desc; }

// What a target may hold before something is loaded into it
P target(vf::Run& run, const Any& a) {
	P t = run.rng.chance(50) ? a.fresh() : run.rng.chance(50) ? zoo::make(run, a.kind) : zoo::makeEmpty(run.rng, a.kind);
	t->seed = a.seed; t->desc = "image of " + a.desc;
	return t;
}

void same(vf::Run& run, const Any& a, const std::string& want, const char* how) {
	std::string got = a.print();
	if (got != want) run.fail(std::string(zoo::names[a.kind]) + ":" + how + "-differs", desc(a) + ": " + got + " expected " + want);
	run.count(std::string(how) + " " + zoo::names[a.kind]);
}

void roundTrip(vf::Run& run, Any& a, int depth)
{
	vf::Rng& rng = run.rng;
	std::string kind = zoo::names[a.kind], want = a.print(), img = a.image();
	if (a.image() != img) run.fail(kind + ":saved-twice-differs", desc(a));
	if (a.print() != want) run.fail(kind + ":saving-changed-it", desc(a));
	run.seen("image sizes", img.size());
	P l = target(run, a);
	switch (rng.below(3)) {
	case 0: { std::istringstream s(img + "tail"); if (rng.chance(50)) s.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit); l->load(s);
		if (s.tellg() != (std::streamoff) img.size()) run.fail(kind + ":load-consumed-wrong-number-of-bytes", desc(a) + ": " + vf::str(s.tellg()) + " of " + vf::str(img.size())); break; }
	case 1: { Pire::MemoryInput s(img.data(), img.size()); l->load(s); break; }
	default: { Trickle b(img + "some more", rng.next()); std::istream s(&b); l->load(s);
		if (b.consumed() != img.size()) run.fail(kind + ":load-consumed-wrong-number-of-bytes", desc(a) + ": " + vf::str(b.consumed()) + " of " + vf::str(img.size())); }
	}
	same(run, *l, want, "loaded");
	if (l->image() != img) run.fail(kind + ":loaded-saves-differently", desc(a));
	P c = l->copy(); l.reset(); same(run, *c, want, "copy of loaded");
	if (a.canMap()) {
		auto m = std::make_shared<Mapped>(img, rng);
		P t = target(run, a);
		const void* end = t->map(m->p, img.size());
		t->keep.push_back(m);
		if (end != m->p + img.size()) run.fail(kind + ":mapping-returned-wrong-end", desc(a) + ": " + vf::str((char*) end - m->p) + " of " + vf::str(img.size()));
		same(run, *t, want, "mapped");
		if (t->image() != img) run.fail(kind + ":mapped-saves-differently", desc(a));
		if (depth < 2 && rng.chance(40)) { P cc = t->copy(); t.reset(); roundTrip(run, *cc, depth + 1); run.count("chains load-map-save"); }
		else if (a.canGlue() && a.kind != zoo::Capturing && rng.chance(30)) { // a mapped scanner glued gives what the original glued gives
			P o = zoo::make(run, a.kind);
			P g1 = a.glue(*o, 3000), g2 = t->glue(*o, 3000); g2->seed = g1->seed;
			if (g1->print() != g2->print()) run.fail(kind + ":mapped-glues-differently", desc(a) + " and " + desc(*o));
			run.count("mapped scanners glued");
		}
	} else if (depth < 2 && rng.chance(40)) roundTrip(run, *c, depth + 1);
	if (a.isEmpty()) run.count("empty images");
}

// Several images one after another
void sequence(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	std::vector<P> v; std::vector<std::string> want, img; std::string all; std::vector<size_t> ends; std::string d;
	bool mapping = rng.chance(50);
	for (int n = rng.range(2, 6); n > 0; --n) {
		P a = zoo::make(run);
		if (mapping && !a->canMap()) continue;
		want.push_back(a->print()); img.push_back(a->image()); d += (d.empty() ? "" : ", ") + a->desc;
		all += img.back(); ends.push_back(all.size());
		v.push_back(std::move(a));
		// images of this kind are not padded, so whoever puts another one after it has to
		if (mapping) while (all.size() % 8) all += (char) 0xEE;
	}
	if (v.empty()) return;
	run.nontrivial("sequence " + d);
	if (mapping) {
		auto m = std::make_shared<Mapped>(all, rng); const char* p = m->p;
		std::vector<P> r;
		for (size_t i = 0; i < v.size(); ++i) {
			P t = target(run, *v[i]);
			const char* e = (const char*) t->map(p, m->p + all.size() - p);
			if (e != m->p + ends[i]) run.fail(std::string(zoo::names[v[i]->kind]) + ":mapping-in-sequence-returned-wrong-end", d + ": image " + vf::str(i));
			p = m->p + (ends[i] + 7) / 8 * 8;
			r.push_back(std::move(t));
		}
		for (size_t i = 0; i < r.size(); ++i) same(run, *r[i], want[i], "mapped in sequence");
		run.count("buffers of several images");
	} else {
		std::istringstream s(all); if (rng.chance(50)) s.exceptions(std::ios::badbit | std::ios::failbit);
		std::vector<P> r;
		for (size_t i = 0; i < v.size(); ++i) {
			P t = target(run, *v[i]); t->load(s);
			if (s.tellg() != (std::streamoff) ends[i]) run.fail(std::string(zoo::names[v[i]->kind]) + ":load-in-sequence-consumed-wrong-number-of-bytes", d + ": image " + vf::str(i));
			r.push_back(std::move(t));
		}
		for (size_t i = 0; i < r.size(); ++i) same(run, *r[i], want[i], "loaded in sequence");
		run.count("streams of several images");
	}
}

// The older format of the loaded kinds, with a second action table between transitions and tags
void oldFormat(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	static const zoo::Kind ks[] = {zoo::Counting, zoo::Advanced, zoo::Capturing};
	P a = zoo::make(run, ks[rng.below(3)]);
	std::string img = a->image(), want = a->print();
	uint32_t states, letters; memcpy(&states, &img[24], 4); memcpy(&letters, &img[28], 4);
	size_t locals = 24, at = 24 + locals + Pire::MaxChar; // header, locals, letters
	size_t jumps = (size_t) states * letters * 8;
	std::string old = img.substr(0, at + jumps); std::string table((size_t) states * letters * 4, '\x5A'); while (table.size() % 8) table += '\0';
	old += table + img.substr(at + jumps);
	old[4] = 6;
	std::string kind = zoo::names[a->kind];
	P l = target(run, *a); std::istringstream s(old); l->load(s);
	if (s.tellg() != (std::streamoff) old.size()) run.fail(kind + ":old-format-load-consumed-wrong-number-of-bytes", desc(*a));
	same(run, *l, want, "loaded from the older format");
	auto m = std::make_shared<Mapped>(old, rng); P t = target(run, *a); const char* e = (const char*) t->map(m->p, old.size()); t->keep.push_back(m);
	if (e != m->p + old.size()) run.fail(kind + ":old-format-mapping-returned-wrong-end", desc(*a));
	same(run, *t, want, "mapped from the older format");
	if (l->image() != img || t->image() != img) run.fail(kind + ":old-format-saves-differently", desc(*a));
	run.nontrivial("old format " + a->desc);
}

// Kinds that read one another's images
void across(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	static const zoo::Kind from[] = {zoo::Multi, zoo::MultiNoMask, zoo::Nonreloc, zoo::NonrelocNoMask, zoo::Half, zoo::HalfNoMask, zoo::HalfNonreloc, zoo::HalfNonrelocNoMask};
	static const zoo::Kind to[]   = {zoo::Nonreloc, zoo::NonrelocNoMask, zoo::Multi, zoo::MultiNoMask, zoo::HalfNonreloc, zoo::HalfNonrelocNoMask, zoo::Half, zoo::HalfNoMask};
	int i = rng.below(8);
	P a = zoo::make(run, from[i]), b = zoo::make(run, to[i]); b->seed = a->seed; b->desc = "image of " + a->desc;
	std::istringstream s(a->image()); b->load(s);
	same(run, *b, a->print(), "loaded across kinds");
	if (b->image() != a->image()) run.fail(std::string(zoo::names[a->kind]) + ":other-relocation-saves-differently", desc(*a));
	run.nontrivial("across " + a->desc);
}

} // namespace

void vf_case(vf::Run& run)
{
	vf::Rng& rng = run.rng;
	int k = rng.below(20);
	if (k < 5) { sequence(run); return; }
	if (k < 7) { oldFormat(run); return; }
	if (k < 9) { across(run); return; }
	P a = zoo::make(run);
	if (rng.chance(15)) { P c = a->copy(); a = std::move(c); }
	if (rng.chance(10)) { P c = a->convert(); if (c) a = std::move(c); }
	roundTrip(run, *a, 0);
	if (!a->isEmpty()) run.nontrivial(a->desc);
	run.sample(a->desc.substr(0, 300) + ": image of " + vf::str(a->image().size()) + " bytes");
}
