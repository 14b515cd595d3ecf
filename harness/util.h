// Small helpers around the library's interface, shared by the harnesses.
#ifndef VERIF_UTIL_H
#define VERIF_UTIL_H
#include <pire/pire.h>
#include <pire/extra.h>
#include "pat.h"

namespace vu {

inline Pire::Fsm parse(const pat::Text& t, const pat::Features& f)
{
	std::vector<Pire::wchar32> w(t.begin(), t.end());
	Pire::Lexer lexer(w.begin(), w.end());
	if (f.utf8) lexer.SetEncoding(Pire::Encodings::Utf8());
	if (f.ci) lexer.AddFeature(Pire::Features::CaseInsensitive());
	if (f.andnot) lexer.AddFeature(Pire::Features::AndNotSupport());
	if (f.glyphs) lexer.AddFeature(Pire::Features::GlueSimilarGlyphs());
	return lexer.Parse();
}

} // namespace vu
#endif
