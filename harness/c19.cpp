// C19: the inlining preprocessor, run as a process on random sources.
// Text outside PIRE_REGEXP must come out as it was; the output is compiled with g++ and run, and the scanners it holds are walked next to the
// automata of the patterns' syntax trees; string literals and line numbers seen by the compiled program are compared as well.
#include "cexpr.h"
#include "walk.h"
#include "proc.h"
const char* vf_prop = "C19";

namespace {

using proc::Dir; using proc::Result;
typedef std::vector<std::string> Args;

std::string bytes(const pat::Text& t, bool utf)
{
	std::string s;
	for (unsigned c : t) {
		if (!utf || c < 0x80) s += (char) c;
		else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
		else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
		else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	}
	return s;
}

// A string literal (or several) for these bytes; arg: only the escapes the preprocessor promises to know
std::string literal(vf::Rng& r, const std::string& s, bool arg)
{
	std::string o = "\""; bool hex = false; char buf[8];
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (hex && isxdigit(c)) { o += "\""; o += r.chance(50) ? "\"" : r.chance(50) ? " \"" : "\n\t\""; }
		hex = false;
		if (r.chance(2)) o += "\" \"";
		if (r.chance(2)) o += "\\\n";
		bool must = c < 32 || c == '"' || c == '\\' || c == '?' || (c >= 127 && !arg);
		if (c == '?' ) { o += o[o.size() - 1] == '?' ? "\\077" : "?"; if (o[o.size() - 1] == '7') {} continue; }
		if (!must && !r.chance(6)) { o += c; continue; }
		if (c == '\n' && r.chance(60)) { o += "\\n"; continue; }
		if (c == '\t' && r.chance(60)) { o += "\\t"; continue; }
		if ((c == '"' || c == '\\' || c == '\'') && r.chance(80)) { o += '\\'; o += c; continue; }
		if (r.chance(50)) { bool digit = i + 1 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '7'; snprintf(buf, sizeof buf, digit || r.chance(50) ? "\\%03o" : "\\%o", c); o += buf; }
		else { snprintf(buf, sizeof buf, r.chance(50) ? "\\x%02X" : "\\x%x", c); o += buf; hex = true; }
	}
	return o + "\"";
}

struct Use { std::string text; std::vector<ref::Dfa> dfas; std::string desc; };

std::string gap(vf::Rng& r)
{
	static const char* const g[] = {"", "", "", " ", " ", "\t", "\n", "\n\t\t", " /* a comment */ ", "/* \") PIRE_REGEXP( \n */", " // a comment, \"with\" (things)\n", "/***/", "\r\n"};
	return g[r.below(13)];
}

// PIRE_REGEXP(...) of one to four random patterns
Use use(vf::Run& run, int maxSize)
{
	vf::Rng& r = run.rng; Use u; u.text = std::string("PIRE_REGEXP") + (r.chance(15) ? " " : r.chance(5) ? "\t " : "") + "("; int n = r.chance(65) ? 1 : r.range(2, 4);
	for (int i = 0; i < n; ++i) {
		for (int tries = 0; ; ++tries) {
			if (tries > 30) throw vf::SkipCase("no pattern");
			pat::Features f; f.random(r); f.glyphs = false; pat::Gen g(r, f); if (r.chance(30)) g.smallAlphabet = true; pat::Pattern p = g.pattern(r.range(1, n > 1 ? 4 : maxSize)); bool ok = true;
			for (unsigned c : p.text) if ((c >= 0xD800 && c < 0xE000) || (!f.utf8 && c >= 0x80)) ok = false;
			if (!ok) continue;
			bool s = false, gr = false, rev = r.chance(15); if (r.chance(35)) s = true; else if (r.chance(15)) gr = true;
			try {
				ref::Nfa a = p.nfa; if (rev) a = ref::reverse(a);
				if (gr) a = ref::cat(ref::toNfa(ref::minimize(ref::determinize(ref::complement(ref::surround(a)), 400))), a); else if (s) a = ref::surround(a);
				ref::Dfa d = ref::minimize(ref::determinize(a, 400)); if (d.size() > (n > 1 ? 15 : 120)) continue; u.dfas.push_back(d);
			} catch (const ref::TooBig&) { continue; }
			std::string opts; if (f.ci) opts += 'i'; if (f.utf8) opts += 'u'; if (f.andnot) opts += 'a'; if (s) opts += 's'; if (gr) opts += 'g'; if (rev) opts += 'r';
			for (size_t k = opts.size(); k > 1; --k) std::swap(opts[k - 1], opts[r.below(k)]);
			std::string b = bytes(p.text, f.utf8); if (i) u.text += "," ; u.text += gap(r) + literal(r, b, true) + gap(r) + "," + gap(r) + literal(r, opts, true) + gap(r);
			u.desc += (i ? ", " : "") + std::string("/") + vf::show(b) + "/ " + opts; break;
		}
	}
	u.text += ")"; return u;
}

// Text the preprocessor has no business with; sets value to what a string literal holds
std::string token(vf::Rng& r, std::string* value)
{
	static const char* const plain[] = {"x", "y1", "MY_PIRE_REGEXP(\"a\", \"\")", "PIRE_REGEXPS(\"a\",\"\")", "PIRE_REGEXP2", "xPIRE_REGEXP(z)", "_PIRE_REGEXP (\"(\", \"\")", "42", "0x1F", "1.5e-3", "+", "->", "<<", "/", "%", "(", ")", "[", "]", "{", "}", ";", ",", "::", "#", "&&", "'a'", "'\"'", "'\\''", "'\\\\'", "'/*'", "L'x'", "pire_regexp(\"a\", \"\")", "PIRE_REGEX", "*", "/ *", "PIRE _REGEXP"};
	static const char* const comments[] = {"/* PIRE_REGEXP(\"a\", \"\") */", "/**/", "/***/", "/* * / ** // */", "/*/ \" ' */", "/* it's\n a \"comment */", "// PIRE_REGEXP(\"a\", \"\")\n", "// \" '\n", "// continued \\\n PIRE_REGEXP(\"a\", \"\")\n", "//\n", "/* // */", "// /*\n", "// c:\\\\\\\r\n PIRE_REGEXP(\"(\")\n", "/* \x01\xff\xd0\x96 */", "/*\\*/"};
	static const char* const raws[] = {"R\"(PIRE_REGEXP(\"a\", \"\"))\"", "R\"(a\"b)\"", "R\"x()\" ) PIRE_REGEXP(\"a\",\"\") )x\"", "u8R\"--(\\)--\"", "LR\"()\"", "R\"( // /* ' )\"", "R\"a(\n)b\" )a\""};
	size_t k = r.below(100);
	if (k < 50) return plain[r.below(sizeof plain / sizeof *plain)];
	if (k < 68) return comments[r.below(15)];
	if (k < 74) return raws[r.below(7)];
	std::string v; static const char* const parts[] = {"PIRE_REGEXP(\"a\", \"\")", "\\", "\"", "'", "/*", "*/", "//", "abc", "x", " ", "\n", "\t", ")", "\xd0\x96", "\\\"", "%s", "\x01", "R\"(", "7", "f"};
	for (int n = r.below(6); n > 0; --n) v += parts[r.below(20)];
	if (value) *value = v;
	return literal(r, v, false);
}

struct Source { std::vector<std::string> texts; std::vector<Use> uses; bool hasUse(size_t i) const { return i < uses.size(); } };

void checkTexts(vf::Run& run, const Source& s, const std::string& out, const std::string& desc)
{
	size_t at = 0; while (at < out.size() && out[at] == '#' && out.compare(at, 5, "#line") == 0) { at = out.find('\n', at); at = at == std::string::npos ? out.size() : at + 1; if (out.compare(at, s.texts[0].size(), s.texts[0]) == 0) break; }
	if (out.compare(at, s.texts[0].size(), s.texts[0]) != 0) run.fail("text-changed", desc + ": the text before the first pattern: \"" + vf::show(out.substr(0, 2000)) + "\" should be \"" + vf::show(s.texts[0]) + "\"");
	at += s.texts[0].size();
	for (size_t i = 1; i < s.texts.size(); ++i) {
		size_t p = i + 1 == s.texts.size() && out.size() >= at + s.texts[i].size() ? (out.compare(out.size() - s.texts[i].size(), std::string::npos, s.texts[i]) == 0 ? out.size() - s.texts[i].size() : std::string::npos) : out.find(s.texts[i], at);
		if (p == std::string::npos || p < at) run.fail("text-changed", desc + ": text after pattern " + vf::str(i) + ": \"" + vf::show(s.texts[i]) + "\" is not in \"" + vf::show(out.substr(at, 200)) + "..." + vf::show(out.substr(out.size() > 1200 ? out.size() - 1200 : 0)) + "\"");
		at = p + s.texts[i].size();
	}
	if (at != out.size()) run.fail("text-added", desc + ": \"" + vf::show(out.substr(at, 200)) + "\"");
}

// Runs the tool with input and output given in different ways; the result's out is what it wrote
Result inlined(vf::Run& run, const Dir& dir, const std::string& source)
{
	Args a(1, proc::tool("VF_INLINE")); bool toFile = run.rng.chance(60), fromFile = run.rng.chance(70);
	if (toFile) { a.push_back("-o"); a.push_back("out.cpp"); } if (fromFile) { a.push_back("in.cpp"); dir.write("in.cpp", source); }
	Result r = proc::run(dir, a, fromFile ? "" : source); if (toFile) r.out = dir.read("out.cpp");
	if (r.timeout) run.fail("hang", "\"" + vf::show(source) + "\"");
	if (!proc::clean(r)) run.fail("crash", "\"" + vf::show(source.substr(0, 600)) + "\": " + (r.signalled ? "signal " : "status ") + vf::str(r.status) + " " + r.err.substr(0, 1500));
	return r;
}

void passThrough(vf::Run& run)
{
	vf::Rng& r = run.rng; Source s; int uses = r.chance(40) ? 0 : r.range(1, 3), k = 0;
	auto text = [&](bool first, bool last) { std::string t; if (!first) t += "/*<" + vf::str(k++) + ">*/"; for (int n = r.below(12); n > 0; --n) { t += token(r, 0); static const char* const sp[] = {" ", " ", "\n", "\t", "  ", "\r\n", " \\\n"}; t += sp[r.below(7)]; }
		if (!last) t += "/*[" + vf::str(k++) + "]*/"; else if (r.chance(15)) t += r.chance(50) ? "// PIRE_REGEXP(\"a\", \"\")" : "x"; return t; };
	std::string src;
	for (int i = 0; i <= uses; ++i) { s.texts.push_back(text(i == 0, i == uses)); src += s.texts.back(); if (i < uses) { s.uses.push_back(use(run, 3)); src += s.uses.back().text; } }
	Dir dir; Result res = inlined(run, dir, src); std::string desc = "source \"" + vf::show(src) + "\"";
	if (res.status) run.fail("valid-source-refused", desc + ": " + res.err.substr(0, 300));
	checkTexts(run, s, res.out, desc); run.count("sources"); run.count("patterns in sources", uses); run.nontrivial(src); run.sample(vf::show(src.substr(0, 300)));
}

void errors(vf::Run& run)
{
	vf::Rng& r = run.rng; std::string src; for (int n = r.below(5); n > 0; --n) src += token(r, 0) + "\n";
	static const char* const bad[] = {"PIRE_REGEXP(\"(a\", \"\")", "PIRE_REGEXP(\"a**\", \"\")", "PIRE_REGEXP(\"a\")", "PIRE_REGEXP(\"a\", \"\", \"b\")", "PIRE_REGEXP()", "PIRE_REGEXP(\"a\", \"z\")", "PIRE_REGEXP(\"a\", \"gs\")", "PIRE_REGEXP(\"a\", \"sg\")",
		"PIRE_REGEXP(\"a\", x)", "PIRE_REGEXP(pattern, \"\")", "PIRE_REGEXP(\"a\" + \"b\", \"\")", "PIRE_REGEXP(\"a\", \"\"", "PIRE_REGEXP(", "PIRE_REGEXP(\"a", "PIRE_REGEXP(\"a\", \"\" /* x", "/* no end", "PIRE_REGEXP(\"\\q\", \"\")", "PIRE_REGEXP(\"\xd0\x96\", \"\")",
		"PIRE_REGEXP(\"\xd0\", \"u\")", "PIRE_REGEXP(\"a\", 'i')", "R\"x( )\"", "PIRE_REGEXP(\"a\", \"\", \"(\", \"\")", "PIRE_REGEXP(\"[a\", \"\")", "PIRE_REGEXP(\"a{3,1}\", \"\")", "PIRE_REGEXP(\"a\", \"\";"};
	std::string b = bad[r.below(25)]; src += b; if (b.find("/*") == std::string::npos && b[0] != 'R' && b != "PIRE_REGEXP(\"a" && r.chance(60)) src += ";\nint y;\n";
	Dir dir; Result res;
	switch (r.below(12)) {
	case 0: { Args a(1, proc::tool("VF_INLINE")); a.push_back("nosuchfile.cpp"); res = proc::run(dir, a, ""); src = "(missing file)"; break; }
	case 1: { Args a(1, proc::tool("VF_INLINE")); a.push_back("-o"); a.push_back(r.chance(50) ? "/dev/full" : "nodir/out"); res = proc::run(dir, a, "int x;\n"); src = "(output that cannot be written)"; break; }
	case 2: { Args a(1, proc::tool("VF_INLINE")); a.push_back("a"); a.push_back("b"); res = proc::run(dir, a, "int x;\n"); src = "(wrong usage)"; break; }
	default: res = inlined(run, dir, src);
	}
	std::string desc = "source \"" + vf::show(src) + "\"";
	if (!proc::clean(res)) run.fail("crash", desc + ": " + res.err.substr(0, 1500));
	if (!res.status) run.fail("error-unnoticed", desc);
	if (res.err.empty()) run.fail("silent-error", desc);
	run.count("invalid sources"); run.nontrivial(src);
}

Args compiler() { Args a; std::string s = proc::tool("VF_CXX"), x; for (char c : s + "\x1f") { if (c == '\x1f') { a.push_back(x); x.clear(); } else x += c; } return a; }

void compiled(vf::Run& run)
{
	vf::Rng& r = run.rng; int n = 40; Source s; std::string src, t = "#include <pire/pire.h>\n#include <fstream>\n#include <stdio.h>\n"; std::vector<std::string> values; std::vector<size_t> lines;
	t += "static void save(int i, const Pire::Scanner& sc) { char name[20]; sprintf(name, \"s%d\", i); std::ofstream o(name, std::ios::binary); sc.Save(&o); }\n";
	t += "static void value(const char* p, unsigned n) { printf(\"V\"); for (unsigned i = 0; i < n; ++i) printf(\"%02x\", (unsigned char) p[i]); printf(\"\\n\"); }\nstatic int id(int x) { return x; }\n";
	auto lineOf = [&]() { size_t l = 1; for (char c : src + t) if (c == '\n') ++l; return l; };
	auto inert = [&]() { for (int k = r.below(3); k > 0; --k) { std::string v; switch (r.below(4)) {
		case 0: { std::string x = token(r, &v); if (x[0] == '"') { t += "\tvalue(" + x + ", " + vf::str(v.size()) + ");\n"; values.push_back(v); } break; }
		case 1: t += "\t/* it's \" PIRE_REGEXP(\"(\", \"\")\n */ // and PIRE_REGEXP(\n"; break;
		case 2: t += "\tid('\"'); id('\\''); id('\\\\'); /**/ // \\\n PIRE_REGEXP(\"a\", \"\")\n"; break;
		default: { static const char* const raw[] = {"a\"b", "PIRE_REGEXP(\"a\", \"\")", "\\", "x\ny"}; v = raw[r.below(4)]; t += "\tvalue(R\"q(" + v + ")q\", " + vf::str(v.size()) + ");\n"; values.push_back(v); } } } };
	for (int i = 0; i < n; ++i) {
		t += "static void f" + vf::str(i) + "()\n{\n"; inert();
		Use u; for (int k = 0; ; ++k) { try { u = use(run, 6); break; } catch (const vf::SkipCase&) { if (k > 5) throw; } }
		bool arg = r.chance(50); t += arg ? "\tsave(" + vf::str(i) + "," + (r.chance(30) ? "\n\t\t" : " ") : std::string("\tPire::Scanner sc = ");
		src += t; s.texts.push_back(t); src += u.text; s.uses.push_back(u);
		t = arg ? ");" : "; save(" + vf::str(i) + ", sc);"; t += r.chance(50) ? "" : "\n"; if (r.chance(50)) inert();
		lines.push_back(lineOf()); t += " printf(\"L%d\\n\", (int) __LINE__); /* " + vf::str(i) + " */\n}\n";
	}
	t += "int main()\n{\n"; for (int i = 0; i < n; ++i) t += "\tf" + vf::str(i) + "();\n"; t += "}\n"; src += t; s.texts.push_back(t);
	Dir dir; Result res = inlined(run, dir, src); std::string desc = "source \"" + vf::show(src.substr(0, 1500)) + "...\"";
	if (res.status) {
		// some are too complicated to be glued, or to be determined: alone they are still so
		run.fail("valid-source-refused", res.err.substr(0, 300) + " " + desc); }
	checkTexts(run, s, res.out, desc); dir.write("gen.cpp", res.out);
	Args a = compiler(), b; for (auto& x : a) b.push_back(x == "@in" ? "gen.cpp" : x == "@out" ? "prog" : x);
	Result c = proc::run(dir, b, "", 200);
	if (c.status || c.signalled) {
		dir.write("plain.cpp", "#include <pire/pire.h>\nint main() { Pire::Scanner s; return !s.Empty(); }\n"); for (auto& x : b) if (x == "gen.cpp") x = "plain.cpp";
		Result p = proc::run(dir, b, "", 200); if (p.status || p.signalled) { fprintf(stderr, "the compiler does not work: %s\n", p.err.substr(0, 1000).c_str()); _exit(3); }
		run.fail("output-does-not-compile", c.err.substr(0, 1200) + " " + desc); }
	Args e(1, dir.file("prog")); Result o = proc::run(dir, e, "");
	if (o.status || o.signalled) run.fail("output-fails", "status " + vf::str(o.status) + " " + o.err.substr(0, 800) + " " + desc);
	std::istringstream in(o.out); std::string l; size_t vi = 0, li = 0;
	while (std::getline(in, l)) {
		if (l[0] == 'V') { std::string h; char buf[4]; if (vi >= values.size()) run.fail("too-many-literals", desc); for (unsigned char ch : values[vi]) { snprintf(buf, sizeof buf, "%02x", ch); h += buf; } if (l.substr(1) != h) run.fail("literal-changed", "literal " + vf::show(values[vi]) + " became " + l); ++vi; }
		if (l[0] == 'L') { if (li >= lines.size() || l.substr(1) != vf::str(lines[li])) run.fail("line-number", "line after pattern " + vf::str(li) + " is " + l.substr(1) + " not " + (li < lines.size() ? vf::str(lines[li]) : "") + " after " + s.uses[std::min(li, s.uses.size() - 1)].text); ++li; }
	}
	if (vi != values.size() || li != lines.size()) run.fail("output-incomplete", desc);
	for (int i = 0; i < n; ++i) {
		std::string d = "inlined " + s.uses[i].desc + " written " + vf::show(s.uses[i].text); Pire::Scanner sc;
		try { std::istringstream im(dir.read("s" + vf::str(i))); sc.Load(&im); } catch (const Pire::Error& x) { run.fail("saved-image-unreadable", d + ": " + x.what()); }
		if (sc.RegexpsCount() != s.uses[i].dfas.size()) run.fail("inlined:regexps-count", d + ": " + vf::str(sc.RegexpsCount()));
		std::vector<const ref::Dfa*> refs; for (auto& x : s.uses[i].dfas) refs.push_back(&x); vw::Opts opts; opts.maxPairs = 800;
		vw::walk(run, sc, refs, "inlined", [&]() { return d; }, opts);
		run.nontrivial(s.uses[i].text);
	}
	run.count("compiled sources"); run.count("inlined patterns", n); run.count("literals compared", values.size()); run.sample(s.uses[0].text);
}

} // namespace

void vf_case(vf::Run& run)
{
	if (run.idx % 25 == 0) return compiled(run);
	if (run.rng.chance(25)) errors(run); else passThrough(run);
}
