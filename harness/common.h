// Shared frame of all harnesses: deterministic random cases, monitors' verdicts, and counters of what was observed.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <algorithm>
#include <functional>
#include <exception>
#include <stdexcept>

namespace vf {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1): s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	size_t below(size_t n) { return n ? next() % n : 0; }
	size_t range(size_t a, size_t b) { return a + below(b - a + 1); } // inclusive
	bool chance(unsigned percent) { return below(100) < percent; }
	template<class C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x100000001B3ull ^ (b + 0x632BE59BD9B4E019ull)); r.next(); return r.next(); }
inline uint64_t hashStr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char) s[i]; h *= 1099511628211ull; } return h; }

inline std::string jsonStr(const std::string& s) {
	std::string r = "\"";
	char b[16];
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

inline std::string show(const std::string& s) { // printable form of bytes
	std::string r; char b[16];
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c >= 32 && c < 127 && c != '\\') r += c; else { snprintf(b, sizeof b, "\\x%02X", c); r += b; }
	}
	return r;
}

template<class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }

struct Violation { uint64_t idx; std::string key, detail; };
struct StopCase {};      // thrown after a violation so that the case ends
struct SkipCase { std::string why; explicit SkipCase(const std::string& w): why(w) {} };

struct Run {
	std::string prop, tier;
	uint64_t seed;
	bool thorough;
	bool verbose;
	uint64_t idx;
	Rng rng;
	uint64_t evaluations, skipped;
	std::set<uint64_t> distinct;
	std::map<std::string, uint64_t> counters;
	std::map<std::string, std::set<uint64_t> > distinctSets;
	std::vector<std::string> samples;
	std::vector<Violation> violations;
	std::map<std::string, size_t> perKey;
	volatile uint64_t* progress;

	Run(): seed(1), thorough(false), verbose(false), idx(0), evaluations(0), skipped(0), progress(0) {}

	void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
	void seen(const std::string& k, uint64_t h) { std::set<uint64_t>& s = distinctSets[k]; if (s.size() < 200000) s.insert(h); }
	// A case that exercised the property in a non-trivial way; sig identifies it for the distinctness count
	void nontrivial(const std::string& sig) { distinct.insert(hashStr(sig)); }
	void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s.substr(0, 600)); }
	void note(const std::string& key, const std::string& detail) {
		if (verbose) fprintf(stderr, "VIOLATION-CASE %llu key=%s %s\n", (unsigned long long) idx, key.c_str(), detail.c_str());
		if (perKey[key]++ < 3) { Violation v; v.idx = idx; v.key = key; v.detail = detail.substr(0, 3000); violations.push_back(v); }
	}
	void fail(const std::string& key, const std::string& detail) { note(key, detail); throw StopCase(); }
	void check(bool ok, const std::string& key, const std::string& detail) { if (!ok) fail(key, detail); }
};

} // namespace vf

// Provided by each harness
extern const char* vf_prop;
void vf_case(vf::Run& run);

#ifndef VF_NO_MAIN
extern "C" {
static volatile uint64_t* vf_progress_ptr = 0;
static void vf_on_timer(int) {
	if (vf_progress_ptr) vf_progress_ptr[1] = 77;
	_exit(77);
}
}
static void vf_arm(long seconds) {
	struct itimerval t; memset(&t, 0, sizeof t);
	t.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &t, 0);
}

int main(int argc, char** argv)
{
	vf::Run run;
	run.prop = vf_prop;
	uint64_t from = 0, to = 1, stride = 1; long caseLimit = 60; std::string out, prog;
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i], v = argv[i+1];
		if (a == "--seed") run.seed = strtoull(v.c_str(), 0, 10);
		else if (a == "--from") from = strtoull(v.c_str(), 0, 10);
		else if (a == "--to") to = strtoull(v.c_str(), 0, 10);
		else if (a == "--stride") stride = strtoull(v.c_str(), 0, 10);
		else if (a == "--tier") { run.tier = v; run.thorough = (v == "thorough"); }
		else if (a == "--out") out = v;
		else if (a == "--progress") prog = v;
		else if (a == "--limit") caseLimit = strtol(v.c_str(), 0, 10);
		else if (a == "--verbose") run.verbose = v == "1";
		else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
	}
	uint64_t dummy[2] = {0, 0};
	run.progress = dummy;
	if (!prog.empty()) {
		int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
		if (fd < 0 || ftruncate(fd, 16) != 0) return 3;
		void* p = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (p == MAP_FAILED) return 3;
		run.progress = (volatile uint64_t*) p;
	}
	vf_progress_ptr = run.progress;
	signal(SIGPROF, vf_on_timer);
	for (uint64_t i = from; i < to; i += stride) {
		run.idx = i;
		run.progress[0] = i; run.progress[1] = 1;
		run.rng = vf::Rng(vf::mix(vf::mix(vf::hashStr(run.prop), run.seed), i));
		vf_arm(caseLimit);
		++run.evaluations;
		try { vf_case(run); }
		catch (const vf::StopCase&) {}
		catch (const vf::SkipCase& s) { ++run.skipped; run.count("skipped: " + s.why); }
		catch (const std::exception& e) { run.note(std::string("unexpected-exception"), e.what()); }
		if (run.violations.size() >= 12) break;
	}
	vf_arm(0);
	run.progress[1] = 2;
	std::string tmp = out + ".tmp";
	FILE* f = out.empty() ? stdout : fopen(tmp.c_str(), "w");
	if (!f) return 3;
	fprintf(f, "{\"evaluations\":%llu,\"skipped\":%llu,\"counters\":{", (unsigned long long) run.evaluations, (unsigned long long) run.skipped);
	bool first = true;
	for (std::map<std::string, uint64_t>::iterator i = run.counters.begin(); i != run.counters.end(); ++i, first = false)
		fprintf(f, "%s%s:%llu", first ? "" : ",", vf::jsonStr(i->first).c_str(), (unsigned long long) i->second);
	fprintf(f, "},\"sets\":{");
	first = true;
	for (std::map<std::string, std::set<uint64_t> >::iterator i = run.distinctSets.begin(); i != run.distinctSets.end(); ++i, first = false) {
		fprintf(f, "%s%s:[", first ? "" : ",", vf::jsonStr(i->first).c_str());
		bool f2 = true;
		for (std::set<uint64_t>::iterator j = i->second.begin(); j != i->second.end(); ++j, f2 = false)
			fprintf(f, "%s%llu", f2 ? "" : ",", (unsigned long long) *j);
		fprintf(f, "]");
	}
	fprintf(f, "},\"distinct\":[");
	first = true;
	for (std::set<uint64_t>::iterator i = run.distinct.begin(); i != run.distinct.end(); ++i, first = false)
		fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long) *i);
	fprintf(f, "],\"samples\":[");
	for (size_t i = 0; i < run.samples.size(); ++i)
		fprintf(f, "%s%s", i ? "," : "", vf::jsonStr(run.samples[i]).c_str());
	fprintf(f, "],\"violations\":[");
	for (size_t i = 0; i < run.violations.size(); ++i)
		fprintf(f, "%s{\"case\":%llu,\"key\":%s,\"detail\":%s}", i ? "," : "", (unsigned long long) run.violations[i].idx,
			vf::jsonStr(run.violations[i].key).c_str(), vf::jsonStr(run.violations[i].detail).c_str());
	fprintf(f, "]}\n");
	if (f != stdout) { fclose(f); if (rename(tmp.c_str(), out.c_str())) return 3; }
	return 0;
}
#endif
#endif
