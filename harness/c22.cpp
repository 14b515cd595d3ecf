// C22: the samples pigrep and blacklist, run as processes.
// Oracle: lines searched by the automaton of the pattern's syntax tree; addresses compared with the domains letter by letter.
#include "cexpr.h"
#include "proc.h"
const char* vf_prop = "C22";

namespace {

using proc::Dir; using proc::Result;
typedef std::vector<std::string> Args;

std::string bytes(const pat::Text& t, bool utf)
{
	std::string s;
	for (unsigned c : t) {
		if (!utf || c < 0x80) s += (char) c;
		else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
		else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
		else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	}
	return s;
}

void compare(vf::Run& run, const std::string& tool, const Args& argv, const Result& r, const std::string& want, bool ok, const std::string& more)
{
	std::string desc = tool + proc::show(argv) + more;
	if (r.timeout) run.fail(tool + ":hang", desc);
	if (!proc::clean(r)) run.fail(tool + ":crash", desc + ": " + (r.signalled ? "signal " : "status ") + vf::str(r.status) + " " + r.err.substr(0, 1500));
	if ((r.status == 0) != ok) run.fail(tool + (ok ? ":fails" : ":error-unnoticed"), desc + ": status " + vf::str(r.status) + " " + r.err.substr(0, 300));
	if (!ok && r.err.empty()) run.fail(tool + ":silent-error", desc);
	if (r.out != want) {
		size_t i = 0; while (i < r.out.size() && i < want.size() && r.out[i] == want[i]) ++i;
		run.fail(tool + ":wrong-output", desc + ": differs at " + vf::str(i) + ": \"" + vf::show(r.out.substr(i > 20 ? i - 20 : 0, 80)) + "\" expected \"" + vf::show(want.substr(i > 20 ? i - 20 : 0, 80)) + "\"");
	}
}

std::string lineFor(vf::Rng& r, const ref::Dfa& d, const std::string& pat)
{
	std::string t; int q = d.step(d.start, ref::BM), n = r.chance(10) ? r.range(20, 120) : r.range(0, 9);
	for (int i = 0; i < n; ++i) {
		unsigned c = 0;
		for (int a = 0; a < 4; ++a) { do c = r.chance(35) && !pat.empty() ? (unsigned char) pat[r.below(pat.size())] : r.chance(70) ? "abcABCxyz 019_-.\t\r"[r.below(18)] : r.below(256); while (c == '\n'); if (d.step(q, c) != q) break; }
		t += (char) c; q = d.step(q, c);
	}
	if (r.chance(50) && d.live[q]) { // go on to a match
		std::map<int, std::pair<int, unsigned> > from; std::deque<int> b(1, q); from[q] = std::make_pair(-1, 0u); int hit = -1;
		while (!b.empty() && hit < 0) { int x = b.front(); b.pop_front(); if (d.fin[d.step(x, ref::EM)]) { hit = x; break; } for (unsigned c0 = 0, o = r.below(256); c0 < 256; ++c0) { unsigned c = (c0 + o) & 255; if (c == '\n') continue; int y = d.step(x, c); if (!from.count(y)) { from[y] = std::make_pair(x, c); b.push_back(y); } } }
		if (hit >= 0) { std::string tail; for (int x = hit; from[x].first >= 0; x = from[x].first) tail += (char) from[x].second; t.append(tail.rbegin(), tail.rend()); }
	}
	return t;
}

void pigrep(vf::Run& run)
{
	vf::Rng& r = run.rng; pat::Features f; f.random(r); f.glyphs = false; pat::Gen g(r, f); if (r.chance(30)) g.smallAlphabet = true;
	pat::Pattern p = g.pattern(r.range(1, r.chance(60) ? 5 : 10));
	for (unsigned c : p.text) { if (!c) throw vf::SkipCase("NUL in a pattern"); if (c >= 0xD800 && c < 0xE000) throw vf::SkipCase("surrogates"); if (!f.utf8 && c >= 0x80) throw vf::SkipCase("not in Latin-1 input"); }
	if (r.chance(12) && p.prec >= 2 && !(p.text.size() && p.text[0] == '~')) { p.text.insert(p.text.begin(), '^'); p.nfa = ref::cat(ref::sym(ref::one(ref::BM)), p.nfa); }
	ref::Dfa d = ref::minimize(ref::determinize(ref::surround(p.nfa), 1500)); std::string pat = bytes(p.text, f.utf8);
	Dir dir; Args argv(1, proc::tool("VF_PIGREP")); bool bad = false;
	// options in any order, before or after the pattern
	Args opts; if (f.ci) opts.push_back("-i"); if (f.utf8) opts.push_back("-u"); if (f.andnot) opts.push_back("-x");
	if (r.chance(10) && opts.size()) opts.push_back(opts[0]);
	for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[r.below(i)]);
	if (r.chance(7)) { static const char* const wrong[] = {"(a", "a**", "[a", "*", "a{3,1}", ")", "a|*"}; pat = wrong[r.below(7)]; bad = true; }
	size_t before = r.chance(80) ? opts.size() : r.below(opts.size() + 1); argv.insert(argv.end(), opts.begin(), opts.begin() + before);
	if ((!pat.empty() && pat[0] == '-') || r.chance(25)) argv.push_back("-e"); argv.push_back(pat); argv.insert(argv.end(), opts.begin() + before, opts.end());
	// inputs
	std::string want, stdinText; size_t yes = 0, no = 0; int files = r.chance(30) ? 0 : r.range(1, 3); std::string more;
	auto text = [&](const std::string& prefix) -> std::string {
		std::string s; int n = r.chance(10) ? 0 : r.range(1, 14);
		for (int i = 0; i < n; ++i) {
			std::string l = lineFor(r, d, pat); if (r.chance(1)) l += std::string(r.range(4000, 70000), 'q'); int q = d.step(d.start, ref::BM); for (char c : l) q = d.step(q, (unsigned char) c);
			bool last = i == n - 1 && r.chance(40); s += l; if (!last) s += '\n'; else if (l.empty()) continue;
			bool m = d.fin[d.step(q, ref::EM)]; if (m) want += prefix + l + "\n"; (m ? yes : no)++;
		}
		return s;
	};
	bool missing = false;
	if (!files) stdinText = text("");
	bool usedStdin = false;
	for (int i = 0; i < files; ++i) {
		if (r.chance(6)) { argv.push_back("nosuchfile"); missing = true; more = " (missing file)"; continue; } // the ones before it are already printed
		std::string keep = want; 
		if (!usedStdin && r.chance(15)) { usedStdin = true; argv.push_back("-"); stdinText = text(files == 1 ? "" : "(stdin): "); }
		else { std::string name = r.chance(20) ? "file " + vf::str(i) : "f" + vf::str(i) + ".txt"; if (r.chance(20)) name = "./" + name; argv.push_back(name); dir.write(name, text(files == 1 ? "" : name + ": ")); }
		if (missing) want = keep;
	}
	if (bad) want = "";
	Result res = proc::run(dir, argv, stdinText);
	compare(run, "pigrep", argv, res, want, !bad && !missing, more);
	run.count("pigrep: lines matching", yes); run.count("pigrep: lines not matching", no); run.count(bad ? "pigrep: bad patterns" : missing ? "pigrep: missing files" : "pigrep: runs"); run.count("pigrep: files " + vf::str(files));
	if (yes && no && !bad) run.nontrivial(proc::show(argv) + want); run.sample("pigrep" + proc::show(argv) + ": " + vf::str(yes) + " of " + vf::str(yes + no) + " lines");
}

void usage(vf::Run& run)
{
	vf::Rng& r = run.rng; Dir dir; bool pg = r.chance(50); Args a(1, proc::tool(pg ? "VF_PIGREP" : "VF_BLACKLIST")); dir.write("d", "x");
	static const char* const wrongP[] = {"", "-i", "-u|-x", "-e", "-z", "-z|a", "-i|-e"}; static const char* const wrongB[] = {"", "-g", "-u", "-d", "-d|d", "-x", "-g|-d", "-u|-d|d|extra"};
	std::string w = pg ? wrongP[r.below(7)] : wrongB[r.below(8)]; std::string x; for (char c : w + "|") { if (c != '|') x += c; else { if (!x.empty()) a.push_back(x); x.clear(); } }
	compare(run, pg ? "pigrep" : "blacklist", a, proc::run(dir, a, "abc\n"), "", false, " (wrong usage)"); run.count("wrong usages");
}

bool labelChar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-'; }

bool listed(const std::set<std::string>& domains, const std::string& url)
{
	std::vector<size_t> starts(1, 0); size_t i = 0; while (i < url.size() && url[i] >= 'a' && url[i] <= 'z') ++i;
	if (i && url.compare(i, 3, "://") == 0) starts.push_back(i + 3);
	for (size_t s : starts) for (size_t p = s; ; ) {
		// here a domain may begin
		for (size_t e = p + 1; e <= url.size(); ++e) if ((e == url.size() || url[e] == '/') && domains.count(url.substr(p, e - p))) return true;
		size_t q = p; while (q < url.size() && labelChar(url[q])) ++q;
		if (q == p || q >= url.size() || url[q] != '.') break;
		p = q + 1;
	}
	return false;
}

std::string label(vf::Rng& r) { static const char* const common[] = {"a", "b", "ab", "example", "com", "ru", "www", "mail", "x-y", "0"}; if (r.chance(55)) return common[r.below(10)]; std::string s; for (int n = r.range(1, 6); n > 0; --n) s += "abcxyzABZ0189-"[r.below(14)]; return s; }
std::string domain(vf::Rng& r) { std::string s = label(r); for (int n = r.below(3); n > 0; --n) s += "." + label(r); if (r.chance(4)) s += "_*.[("[r.below(5)]; if (r.chance(2)) s += "/sub"; if (r.chance(2)) s += (char) r.range(128, 255); return s; }
std::string space(vf::Rng& r) { static const char* const s[] = {"\n", "\n", "\n", " ", "\t", "\r\n", "\n\n", " \n "}; return s[r.below(8)]; }

void blacklist(vf::Run& run)
{
	vf::Rng& r = run.rng; Dir dir; std::vector<std::string> list; std::set<std::string> set; std::string in;
	int n = r.chance(5) ? 0 : r.chance(70) ? r.range(1, 12) : r.range(10, 60);
#ifndef __SANITIZE_ADDRESS__
	if (r.chance(run.thorough ? 3 : 2)) n = r.range(300, run.thorough ? 4000 : 1200);
#endif
	if (r.chance(10)) in += space(r);
	for (int i = 0; i < n; ++i) { list.push_back(domain(r)); set.insert(list.back()); in += list.back(); if (i < n - 1 || r.chance(70)) in += space(r); }
	const char* bl = proc::tool("VF_BLACKLIST"); std::string name = r.chance(50) ? "dict" : dir.file("d i c t"); if (r.chance(20)) dir.write("dict", std::string(100000, 'z')); // an older file there
	Args a(1, bl); if (r.chance(50)) { a.push_back("-g"); a.push_back("-d"); a.push_back(name); } else { a.push_back("-d"); a.push_back(name); a.push_back("-g"); }
	std::string show; for (size_t i = 0; i < list.size() && i < 8; ++i) show += " " + vf::show(list[i]); show = " (" + vf::str(n) + " domains:" + show + ")";
	compare(run, "blacklist", a, proc::run(dir, a, in), "", true, show);
	std::string fn = name == "dict" ? "dict" : "d i c t", dict = dir.read(fn); bool broken = false;
	if (r.chance(10)) { // damage the dictionary
		size_t len = dict.size(); static const int cuts[] = {0, 1, 3, 23, 24, 48}; size_t cut = r.chance(40) ? cuts[r.below(6)] : r.chance(50) ? len - 1 - r.below(std::min<size_t>(len - 1, 64)) : r.below(len);
		if (r.chance(70)) dir.write(fn, dict.substr(0, cut)); else { std::string x = dict; x[r.below(24)] ^= 1 + r.below(255); dir.write(fn, x); } broken = true;
	}
	std::string urls, want; size_t yes = 0, no = 0;
	for (int i = r.chance(5) ? 0 : r.range(1, n > 100 ? 200 : 40); i > 0; --i) {
		std::string u; static const char* const schemes[] = {"http://", "https://", "ftp://", "HTTP://", "h2://", "://", "http:/", "a://b://"};
		if (r.chance(50)) u += r.chance(80) ? schemes[r.below(3)] : schemes[r.below(8)];
		for (int k = r.below(3); k > 0; --k) u += label(r) + (r.chance(94) ? "." : r.chance(50) ? ".." : "_");
		if (r.chance(3)) u += ".";
		std::string dm = !list.empty() && r.chance(75) ? list[r.below(list.size())] : domain(r);
		if (r.chance(12) && !dm.empty()) { size_t at = r.below(dm.size()); switch (r.below(3)) { case 0: dm[at] ^= 1; break; case 1: dm.erase(at, 1); break; default: dm.insert(at, 1, "ax.-"[r.below(4)]); } }
		u += dm; if (r.chance(40)) { static const char* const tails[] = {"/", "/index.html", "/a/b?c=d", ":80", ":80/x", ".", "/://x.com", "?q", "x", "//"}; u += tails[r.below(10)]; }
		bool clean = !u.empty(); for (char c : u) if (isspace((unsigned char) c)) clean = false; if (!clean) continue;
		bool m = listed(set, u); if (m) want += u + "\n"; (m ? yes : no)++; urls += u + (i > 1 || r.chance(70) ? space(r) : "");
	}
	Args b(1, bl); if (r.chance(50)) { b.push_back("-u"); b.push_back("-d"); b.push_back(name); } else { b.push_back("-d"); b.push_back(name); b.push_back("-u"); }
	Result res = proc::run(dir, b, urls);
	if (broken) { compare(run, "blacklist", b, res, "", false, " (damaged dictionary)" + show); run.count("blacklist: damaged dictionaries"); return; }
	compare(run, "blacklist", b, res, want, true, show + " addresses \"" + vf::show(urls.substr(0, 1200)) + "\"");
	run.count("blacklist: addresses passed", yes); run.count("blacklist: addresses held back", no); run.count("blacklist: domains", n); if (n > 100) run.count("blacklist: long lists");
	if (r.chance(8)) { // files that cannot be opened or written
		bool gen = r.chance(50); Args c(1, bl); c.push_back(gen ? "-g" : "-u"); c.push_back("-d"); c.push_back(dir.file("nodir/dict"));
		compare(run, "blacklist", c, proc::run(dir, c, "example.com\n"), "", false, " (no such directory)"); run.count("blacklist: files that cannot be opened");
	}
	if (yes && no) run.nontrivial(in + want); run.sample("blacklist" + show + ": " + vf::str(yes) + " of " + vf::str(yes + no) + " addresses");
}

} // namespace

void vf_case(vf::Run& run)
{
	if (run.rng.chance(6)) return usage(run);
	if (run.rng.chance(65)) pigrep(run); else blacklist(run);
}
