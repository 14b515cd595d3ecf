From e1aa9aad835847282c476f32c1795cf59bb73089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 01/60] fix: concatenation with a nullable right operand keeps
 the left operand's accepting states

---
 pire/fsm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index d3dc599..a7c08e3 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -485,7 +485,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 				outputs[final].insert(ymake_pair(toAndOutput.first + lhsSize, toAndOutput.second));
 		}
 
-	ClearFinal();
+	// If rhs accepts an empty string, then all the strings accepted by lhs remain accepted
+	if (!rhs.IsFinal(rhs.initial))
+		ClearFinal();
 	for (auto&& letter : rhs.m_final)
 		SetFinal(letter + lhsSize, true);
 	determined = false;
-- 
2.43.0


From 2af54c7d63da343b3725e184f1c46edaf180c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 02/60] fix: a complemented automaton can be appended to

Complement() left the transitions packed by letter classes, so letters
appended afterwards were lost or stood for their whole class.
---
 pire/fsm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index a7c08e3..34569fc 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -564,6 +564,11 @@ Fsm& Fsm::Complement()
 	if (!Determine())
 		throw Error("Regexp pattern too complicated");
 	Minimize();
+
+	// Letter classes are of no use for further building of the FSM
+	Unsparse();
+	letters = LettersTbl(LettersEquality(m_transitions));
+
 	Resize(Size() + 1);
 	for (size_t i = 0; i < Size(); ++i)
 		if (!IsFinal(i))
-- 
2.43.0


From 43f97528ee4f9aad173414e01f2c8e62077f9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 03/60] fix: swapping automata keeps their letter classes valid

Fsm::Swap exchanged the letter classes but not the flag telling that the
transitions are packed by them, so Destinations() and Connected() of a
swapped automaton looked letters up wrongly.
---
 pire/fsm.cpp            | 3 +++
 pire/half_final_fsm.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 34569fc..9d32dc4 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -256,6 +256,7 @@ void Fsm::Swap(Fsm& fsm)
 	DoSwap(initial, fsm.initial);
 	DoSwap(m_final, fsm.m_final);
 	DoSwap(letters, fsm.letters);
+	DoSwap(m_sparsed, fsm.m_sparsed);
 	DoSwap(determined, fsm.determined);
 	DoSwap(outputs, fsm.outputs);
 	DoSwap(tags, fsm.tags);
@@ -610,6 +611,7 @@ Fsm& Fsm::Reverse()
 	Fsm out;
 	out.Resize(Size() + 1);
 	out.letters = Letters();
+	out.m_sparsed = m_sparsed;
 
 	// Invert transitions
 	for (size_t from = 0; from < Size(); ++from)
@@ -926,6 +928,7 @@ public:
 		mNewFsm.initial = 0;
 		mNewFsm.determined = true;
 		mNewFsm.letters = Letters();
+		mNewFsm.m_sparsed = mFsm.m_sparsed;
 		mNewFsm.m_final.clear();
 		for (size_t ns = 0; ns < states.size(); ++ns) {
 			PIRE_IFDEBUG(Cdbg << "State " << ns << " = [" << Join(states[ns].begin(), states[ns].end(), ", ") << "]" << Endl);
diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index e45d03b..692c2ee 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -274,6 +274,7 @@ namespace Pire {
 				mNewFsm.SetInitial(0);
 				mNewFsm.SetIsDetermined(true);
 				mNewFsm.letters = Letters();
+				mNewFsm.m_sparsed = mFsm.m_sparsed;
 				mNewFsm.ClearFinal();
 				for (size_t i = 0; i < newStates.size(); i++) {
 					newStates[i].CopyData(mNewFsm, i);
-- 
2.43.0


From 34fab5881c9bd3b0f27929c2be65b14a6eef829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 04/60] fix: an automaton can be concatenated and alternated
 with itself

Import() reallocated the transition table it was reading from.
---
 pire/fsm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 9d32dc4..5698c34 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -470,6 +470,9 @@ unsigned long Fsm::Output(size_t from, size_t to) const
 
 Fsm& Fsm::operator += (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this += Fsm(rhs);
+
 	size_t lhsSize = Size();
 	Import(rhs);
 
@@ -501,6 +504,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 
 Fsm& Fsm::operator |= (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this |= Fsm(rhs);
+
 	size_t lhsSize = Size();
 
 	Import(rhs);
-- 
2.43.0


From c312c173c5ce07d3fb16a14ac1c6644512abb51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 05/60] fix: MakeSuffix() accepts suffixes only

If the initial state had incoming transitions or some states were not
reachable, words which are not suffixes were accepted; and a determined
automaton was not marked as nondeterministic afterwards.
---
 pire/fsm.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 5698c34..0705f60 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -606,9 +606,15 @@ void Fsm::MakePrefix()
 
 void Fsm::MakeSuffix()
 {
-	for (size_t i = 0; i < Size(); ++i)
-		if (i != initial)
-			Connect(initial, i);
+	// The old initial state may be entered again in the middle of a word, so it cannot serve as the new one
+	TSet<size_t> dead = DeadStates();
+	size_t newInitial = Resize(Size() + 1);
+	for (size_t i = 0; i < newInitial; ++i)
+		if (dead.find(i) == dead.end())
+			Connect(newInitial, i);
+	initial = newInitial;
+
+	determined = false;
 	ClearHints();
 }
 	
-- 
2.43.0


From 4c7f0dbb58c8a756ad495db2af0332bc3312604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 06/60] fix: RemoveDeadEnds() on a determined automaton

The automaton stayed marked as determined though some of its transitions
were gone, which broke Minimize() and everything based on it.
---
 pire/fsm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 0705f60..4468abe 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -726,6 +726,10 @@ void Fsm::RemoveDeadEnds()
 			for (auto&& k : j)
 				k.second.erase(i);
 	}
+
+	// Transitions to dead states are missing now, and determined FSM has exactly one for each letter
+	if (!dead.empty())
+		determined = false;
 	ClearHints();
 
 	PIRE_IFDEBUG(Cdbg << "Result:" << Endl << *this << Endl);
-- 
2.43.0


From aa0d917babc6b2d816a89b3697b5b6afde579fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 07/60] fix: approximate matching finds all edits

Swaps were missed where an epsilon separates two letters, insertions were
missed after states without outgoing transitions, and an automaton that
had been determined gave a wrong or invalid result.
---
 pire/approx_matching.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 23f74ca..768e955 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -23,7 +23,14 @@
 #include "approx_matching.h"
 
 namespace Pire {
-	Fsm CreateApproxFsm(const Fsm& regexp, size_t distance) {
+	Fsm CreateApproxFsm(const Fsm& fsm, size_t distance) {
+		// Work on plain letters: neither epsilons (they would hide adjacent letters from each other)
+		// nor letter classes (the classes of the result are different).
+		Fsm regexp = fsm;
+		regexp.RemoveEpsilons();
+		regexp.Unsparse();
+		regexp.SetIsDetermined(false);
+
 		Fsm approxFsm = regexp;
 
 		TVector<TSet<Char>> outgoingLettersTable(regexp.Size());
@@ -53,10 +60,10 @@ namespace Pire {
 
 						approxFsm.Connect(state + shift, to + shift + regexp.Size(), Epsilon);
 					}
+				}
 
-					for (Char ch = 0; ch < MaxChar; ++ch) {
-						approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
-					}
+				for (Char ch = 0; ch < MaxChar; ++ch) {
+					approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
 				}
 
 				if (regexp.IsFinal(state)) {
-- 
2.43.0


From ee162b682a71358c7484b009d5c74e73e69a7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 08/60] fix: reversed and overflowing repetition counts are
 rejected

{3,1} was repeated about 2^64 times, {4294967296} overflowed, and digits
of other scripts were taken for decimal digits.
---
 pire/re_lexer.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 33acf42..724e0ee 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -24,6 +24,7 @@
 #include <ctype.h>
 #include "stub/utf8.h"
 #include "stub/singleton.h"
+#include <limits>
 #include <stdexcept>
 #include "re_lexer.h"
 #include "re_parser.h"
@@ -293,13 +294,7 @@ namespace {
 			if (ch == (Control | '{') || ch == (Control | '}'))
 				return Term::Character(ch & ~ControlMask);
 			ch = GetChar();
-			int lower = 0, upper = 0;
-
-			if (!is_digit(ch))
-				Error("Wrong repetition count");
-
-			for (; is_digit(ch); ch = GetChar())
-				lower = lower * 10 + (ch - '0');
+			int lower = ReadCount(ch);
 			if (ch == '}')
 				return Term::Repetition(lower, lower);
 			else if (ch != ',')
@@ -308,15 +303,30 @@ namespace {
 			ch = GetChar();
 			if (ch == '}')
 				return Term::Repetition(lower, Inf);
-			else if (!is_digit(ch))
-				Error("Wrong repetition count");
-			for (; is_digit(ch); ch = GetChar())
-				upper = upper * 10 + (ch - '0');
+			int upper = ReadCount(ch);
 
-			if (ch != '}')
+			if (ch != '}' || upper < lower)
 				Error("Wrong repetition count");
 			return Term::Repetition(lower, upper);
 		}
+
+	private:
+		int ReadCount(wchar32& ch)
+		{
+			static const int max = std::numeric_limits<int>::max();
+
+			if (ch < '0' || ch > '9')
+				Error("Wrong repetition count");
+
+			int count = 0;
+			for (; ch >= '0' && ch <= '9'; ch = GetChar()) {
+				int digit = ch - '0';
+				if (count > (max - digit) / 10)
+					Error("Repetition count is too large");
+				count = count * 10 + digit;
+			}
+			return count;
+		}
 	};
 
 	class CaseInsensitiveImpl: public Feature {
-- 
2.43.0


From 95f26fb899d253c799479bf37d32ce0f349e16c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 09/60] fix: characters U+F000..U+F0FF in patterns are literal

They were mixed up with escaped characters, and U+F0FF with the end of
the pattern; an escaped character beyond U+00FF became another character.
---
 pire/re_lexer.cpp | 2 ++
 pire/re_lexer.h   | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 724e0ee..1627972 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -55,6 +55,8 @@ wchar32 Lexer::GetChar()
 		if (m_input.empty())
 			Error("Regexp must not end with a backslash");
 		wchar32 ch = m_input.front();
+		if (ch & ControlMask)
+			Error("Wrong escaped character");
 		m_input.pop_front();
 		return Control | ch;
 	} else {
diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 6db4242..7e3a66c 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -42,8 +42,9 @@ namespace Pire {
 namespace Consts {
 enum { Inf = -1 };
 
-static const wchar32 Control     = 0xF000;
-static const wchar32 ControlMask = 0xFF00;
+// Values which do not belong to any character, including those of private use
+static const wchar32 Control     = 0xF0000000;
+static const wchar32 ControlMask = 0xFFFFFF00;
 static const wchar32 End         = Control | 0xFF;
 };
 
-- 
2.43.0


From e4e929f7673dabb93e7409ee5f68ae583a471f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 10/60] fix: a negated class mixed with other characters in
 brackets is rejected

[a\D] was taken for [^a\d] and [\D\S] for [^\d\s].
---
 pire/classes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pire/classes.cpp b/pire/classes.cpp
index b65f417..39c75bb 100644
--- a/pire/classes.cpp
+++ b/pire/classes.cpp
@@ -131,7 +131,8 @@ namespace {
 					} else
 						altered.insert(i);
 
-				if (neg && (pos || range.second))
+				// A set of characters and a negated class cannot be united, nor can two negated classes
+				if (neg && (pos || range.second || old.size() != 1))
 					Error("Positive and negative character ranges mixed");
 				t = Term(t.Type(), Term::CharacterRange(altered, neg || range.second));
 			}
-- 
2.43.0


From 3cc095f9cd633e6564954845992ec7781f16889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 11/60] fix: a lexer can be assigned a new pattern after a
 wrong one

---
 pire/re_lexer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 7e3a66c..de65f5a 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -137,6 +137,7 @@ public:
 	template<class Iter> void Assign(Iter begin, Iter end)
 	{
 		m_input.clear();
+		m_errmsg.clear();
 		std::copy(begin, end, std::back_inserter(m_input));
 	}
 
-- 
2.43.0


From a08596e24b4807691bfa227ffadf9cdd99639e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 12/60] fix: Utf8::FromLocal() does not read past the end of an
 empty range

---
 pire/encoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/encoding.cpp b/pire/encoding.cpp
index 5726096..e3afead 100644
--- a/pire/encoding.cpp
+++ b/pire/encoding.cpp
@@ -78,6 +78,8 @@ namespace {
 
 		wchar32 FromLocal(const char*& begin, const char* end) const
 		{
+			if (begin == end)
+				throw Error("EOF reached in Pire::Utf8::fromLocal()");
 			wchar32 rune;
 			size_t len;
 			if (utf8_read_rune(rune, len, reinterpret_cast<const unsigned char*>(begin), reinterpret_cast<const unsigned char*>(end)) != RECODE_OK)
-- 
2.43.0


From 74a0c3ff01b34d388a10b7d3dec3ac738ac7caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 13/60] fix: no leak when a negation or a conjunction is too
 complicated

The exception left yyparse() without releasing what was on its stack.
---
 pire/re_parser.y | 51 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/pire/re_parser.y b/pire/re_parser.y
index 14e7aa5..03e18b2 100644
--- a/pire/re_parser.y
+++ b/pire/re_parser.y
@@ -56,6 +56,8 @@ void yyerror(Pire::Lexer&, const char*);
 
 Fsm& ConvertToFSM(const Encoding& encoding, Any* any);
 void AppendRange(const Encoding& encoding, Fsm& a, const Term::CharacterRange& cr);
+bool Conjunct(Lexer& rlex, Any* lhs, Any* rhs);
+bool Negate(Lexer& rlex, Any* any);
 
 #ifdef YYBYACC
 #define YYPARSE_PARAM ,Pire::Lexer& rlex /* Yes, the leading comma is really needed here */
@@ -96,12 +98,32 @@ alternative
 
 conjunction
 	: negation
-	| conjunction YRE_AND negation { ConvertToFSM(rlex.Encoding(), ($$ = $1)) &= ConvertToFSM(rlex.Encoding(), $3); delete $2; delete $3; }
+	| conjunction YRE_AND negation
+		{
+			if (!Conjunct(rlex, $1, $3)) {
+				delete $1;
+				delete $2;
+				delete $3;
+				YYABORT;
+			}
+			$$ = $1;
+			delete $2;
+			delete $3;
+		}
 	;
 
 negation
 	: concatenation
-	| YRE_NOT concatenation { ConvertToFSM(rlex.Encoding(), ($$ = $2)).Complement(); delete $1; }
+	| YRE_NOT concatenation
+		{
+			if (!Negate(rlex, $2)) {
+				delete $1;
+				delete $2;
+				YYABORT;
+			}
+			$$ = $2;
+			delete $1;
+		}
 	;
 
 concatenation
@@ -242,6 +264,31 @@ Fsm& ConvertToFSM(const Encoding& encoding, Any* any)
 	return a;
 }
 
+// These two may find the pattern too complicated. Exceptions must not
+// propagate through yyparse(), since its stack would be left unreleased.
+
+bool Conjunct(Lexer& rlex, Any* lhs, Any* rhs)
+{
+	try {
+		ConvertToFSM(rlex.Encoding(), lhs) &= ConvertToFSM(rlex.Encoding(), rhs);
+		return true;
+	} catch (Pire::Error& e) {
+		rlex.SetErrMsg(e.what());
+		return false;
+	}
+}
+
+bool Negate(Lexer& rlex, Any* any)
+{
+	try {
+		ConvertToFSM(rlex.Encoding(), any).Complement();
+		return true;
+	} catch (Pire::Error& e) {
+		rlex.SetErrMsg(e.what());
+		return false;
+	}
+}
+
 } // namespace
 
 #if defined(PPP) && !defined(HAVE_CONFIG_H)
-- 
2.43.0


From 4a4207c123eaafdc9cd2097ca5f972a5d6e047ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 14/60] fix: LongestPrefix() takes the bytes skipped by a
 shortcut into account

---
 pire/scanners/multi.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 417e580..8ae205b 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -984,6 +984,10 @@ public:
 			// Do fast forwarding while it is possible
 			const Word* skipEnd = Shortcutting::Run(scanner, state, alignOffset, head, tail);
 			PIRE_IF_CHECKED(ValidateSkip(scanner, state, (const char*)head, (const char*)skipEnd));
+			if (head != skipEnd && pred(scanner, state, (const char*)skipEnd) == Stop) {
+				st = state;
+				return Stop;
+			}
 			head = skipEnd;
 			noShortcut = true;
 		}
-- 
2.43.0


From 248c018ba533eb0bd371d6c86f4762ccc9503b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 15/60] fix: ShortestSuffix() returns the suffix found before
 the begin mark

---
 pire/run.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/run.h b/pire/run.h
index d359ed2..645740d 100644
--- a/pire/run.h
+++ b/pire/run.h
@@ -353,10 +353,10 @@ inline const char* ShortestSuffix(const Scanner& scanner, const char* rbegin, co
 	PIRE_IFDEBUG(Cdbg << "Initial state " << StDump(scanner, state) << Endl);
 
 	for (; rbegin != rend && !scanner.Final(state) && !scanner.Dead(state); --rbegin) {
-		scanner.Next(state, (unsigned char)*rbegin);
+		Step(scanner, state, (unsigned char)*rbegin);
 		PIRE_IFDEBUG(Cdbg << *rbegin << " => state " << StDump(scanner, state) << Endl);
 	}
-	if (throughBeginMark)
+	if (throughBeginMark && !scanner.Final(state))
 		Step(scanner, state, BeginMark);
 	return scanner.Final(state) ? rbegin : 0;
 }
-- 
2.43.0


From 08952e970e6015bd1d1cec8fe4ffff6979256e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 16/60] fix: a scanner mapped from memory can be saved

---
 pire/scanner_io.cpp   | 18 +++++++++++++-----
 pire/scanners/multi.h |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 4f4256d..7e607f8 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -42,10 +42,8 @@ void SimpleScanner::Save(yostream* s) const
 	Impl::AlignSave(s, sizeof(mc));
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
-	if (!Empty()) {
-		Y_ASSERT(m_buffer);
-		Impl::AlignedSaveArray(s, m_buffer.get(), BufSize());
-	}
+	if (!Empty())
+		Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(m_transitions), BufSize());
 }
 
 void SimpleScanner::Load(yistream* s)
@@ -77,10 +75,20 @@ void SlowScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(!m_vec.empty());
 		Impl::AlignedSaveArray(s, m_letters, MaxChar);
 		Impl::AlignedSaveArray(s, m_finals, m.statesCount);
 
+		if (IsMmaped()) {
+			const size_t jumpPosCount = m.statesCount * m.lettersCount + 1;
+			const size_t jumpsCount = m_jumpPos[jumpPosCount - 1];
+			Impl::AlignedSaveArray(s, m_jumpPos, jumpPosCount);
+			Impl::AlignedSaveArray(s, m_jumps, jumpsCount);
+			if (need_actions)
+				Impl::AlignedSaveArray(s, m_actions, jumpsCount);
+			return;
+		}
+		Y_ASSERT(!m_vec.empty());
+
 		size_t c = 0;
 		SavePodType<size_t>(s, 0);
 		for (auto&& i : m_vec) {
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 8ae205b..bdd1edf 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -569,7 +569,7 @@ struct ScannerSaver {
 		SavePodType(s, scanner.Empty());
 		Impl::AlignSave(s, sizeof(scanner.Empty()));
 		if (!scanner.Empty())
-			Impl::AlignedSaveArray(s, scanner.m_buffer.get(), scanner.BufSize());
+			Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(scanner.m_letters), scanner.BufSize());
 	}
 
 	template<class Shortcutting>
-- 
2.43.0


From e21ad89ff7db15eb783dd8b9a2d61118c49d272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 17/60] fix: mapping a saved empty SimpleScanner makes the
 target empty

---
 pire/scanners/simple.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 9297ca5..6212712 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -143,11 +143,11 @@ public:
 			if (size < s.BufSize())
 				throw Error("EOF reached while mapping NPire::Scanner");
 			s.Markup(const_cast<size_t*>(p));
+			Impl::AdvancePtr(p, size, s.BufSize());
 			s.m.initial += reinterpret_cast<size_t>(s.m_transitions);
-
-			Swap(s);
-			Impl::AdvancePtr(p, size, BufSize());
 		}
+
+		Swap(s);
 		return Impl::AlignPtr(p, size);
 	}
 
-- 
2.43.0


From bb474253f5b15b6f9c9a41ba2d0ec4cb7fe75525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 18/60] fix: empty SlowScanner can be copied and mapped, action
 mode survives mapping

---
 pire/scanner_io.cpp  | 3 ++-
 pire/scanners/slow.h | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 7e607f8..cb40fd4 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -126,10 +126,11 @@ void SlowScanner::Load(yistream* s)
 	bool empty;
 	LoadPodType(s, empty);
 	Impl::AlignLoad(s, sizeof(empty));
-	sc.need_actions = need_actions;
 	if (empty) {
 		sc.Alias(Null());
+		sc.need_actions = need_actions;
 	} else {
+		sc.need_actions = need_actions;
 		sc.m_vec.resize(sc.m.lettersCount * sc.m.statesCount);
 		if (sc.need_actions)
 			sc.m_actionsvec.resize(sc.m.lettersCount * sc.m.statesCount);
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 1669389..80987e9 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -195,8 +195,9 @@ public:
 			Impl::MapPtr(s.m_jumps, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
-			Swap(s);
 		}
+		s.need_actions = need_actions;
+		Swap(s);
 		return (const void*) p;
 	}
 
@@ -235,7 +236,7 @@ public:
 			m_actions = s.m_actions;
 			m_jumpPos = s.m_jumpPos;
 			m_letters = s.m_letters;
-			m_vecptr = 0;
+			m_vecptr = s.m_vecptr;
 		} else {
 			// In-memory scanner, perform deep copy
 			alloc(m_letters, MaxChar);
-- 
2.43.0


From 260672a626e198342ee7d3a64eb5483c657ac38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:55 +0000
Subject: [PATCH 19/60] fix: images truncated within padding or the emptiness
 flag are refused when mapped

---
 pire/align.h           | 5 +++--
 pire/scanners/multi.h  | 6 +++---
 pire/scanners/simple.h | 6 +++---
 pire/scanners/slow.h   | 6 +++---
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/pire/align.h b/pire/align.h
index 3c10b48..2b97eea 100644
--- a/pire/align.h
+++ b/pire/align.h
@@ -87,9 +87,10 @@ namespace Pire {
 		{
 			if (!IsAligned(p, sizeof(size_t))) {
 				const size_t* next = AlignUp(p, sizeof(size_t));
-				if (next > p+size)
+				const size_t padding = (const char*) next - (const char*) p;
+				if (padding > size)
 					throw Error("EOF reached in NPire::Impl::align");
-				size -= (next - p);
+				size -= padding;
 				p = next;
 			}
 			return (const void*) p;
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index bdd1edf..195fb5e 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -260,9 +260,9 @@ public:
 		if (Shortcutting::Signature != s.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* emptyPtr;
+		Impl::MapPtr(emptyPtr, 1, p, size);
+		const bool empty = *emptyPtr;
 		
 		if (empty)
 			s.Alias(Null());
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 6212712..163987a 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -133,9 +133,9 @@ public:
 		Impl::AdvancePtr(p, size, sizeof(s.m));
 		Impl::AlignPtr(p, size);
 
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* emptyPtr;
+		Impl::MapPtr(emptyPtr, 1, p, size);
+		const bool empty = *emptyPtr;
 		
 		if (empty)
 			s.Alias(Null());
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 80987e9..8d746a1 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -181,9 +181,9 @@ public:
 		Impl::MapPtr(locals, 1, p, size);
 		memcpy(&s.m, locals, sizeof(s.m));
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* emptyPtr;
+		Impl::MapPtr(emptyPtr, 1, p, size);
+		const bool empty = *emptyPtr;
 		
 		if (empty)
 			s.Alias(Null());
-- 
2.43.0


From cfb8d0561c645fcbf5f70e015eff8d9eed566657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 20/60] fix: truncated images are refused when loaded from a
 stream

---
 pire/stub/saveload.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/stub/saveload.h b/pire/stub/saveload.h
index eb9744f..8646c2f 100644
--- a/pire/stub/saveload.h
+++ b/pire/stub/saveload.h
@@ -150,6 +150,8 @@ namespace Pire {
 	void LoadPodType(yistream* s, T& t)
 	{
 		s->read((char*) &t, sizeof(t));
+		if (static_cast<size_t>(s->gcount()) != sizeof(t))
+			throw Error("Unexpected end of stream");
 	}
 	template<class T>
 	void Save(yostream* s, const T& t) { t.Save(s);}
@@ -167,6 +169,8 @@ namespace Pire {
 	void LoadPodArray(yistream* s, T* t, size_t len)
 	{
 		s->read((char*) t, len * sizeof(*t));
+		if (static_cast<size_t>(s->gcount()) != len * sizeof(*t))
+			throw Error("Unexpected end of stream");
 	}
 };
 
-- 
2.43.0


From 2f191f2c613d4fc4320427be83e73fc72bf734f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 21/60] fix: empty counting and capturing scanners stay empty
 when saved and loaded

---
 pire/scanner_io.cpp    | 10 ++++++++--
 pire/scanners/loaded.h |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index cb40fd4..390c641 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -187,8 +187,12 @@ void LoadedScanner::Save(yostream* s, ui32 type) const
 	Y_ASSERT(type == ScannerIOTypes::LoadedScanner || type == ScannerIOTypes::NoGlueLimitCountingScanner);
 	SavePodType(s, Header(type, sizeof(m)));
 	Impl::AlignSave(s, sizeof(Header));
-	Locals mc = m;
-	mc.initial -= reinterpret_cast<size_t>(m_jumps);
+	Locals mc;
+	memset(&mc, 0, sizeof(mc));
+	mc.statesCount = m.statesCount;
+	mc.lettersCount = m.lettersCount;
+	mc.regexpsCount = RegexpsCount(); // zero denotes an empty scanner
+	mc.initial = m.initial - reinterpret_cast<size_t>(m_jumps);
 	SavePodType(s, mc);
 	Impl::AlignSave(s, sizeof(mc));
 
@@ -220,6 +224,8 @@ void LoadedScanner::Load(yistream* s, ui32* type)
 	}
 	Impl::AlignedLoadArray(s, sc.m_tags, sc.m.statesCount);
 	sc.m.initial += reinterpret_cast<size_t>(sc.m_jumps);
+	if (!sc.m.regexpsCount)
+		sc.Alias(Null());
 	Swap(sc);
 }
 
diff --git a/pire/scanners/loaded.h b/pire/scanners/loaded.h
index cc91742..527ba1d 100644
--- a/pire/scanners/loaded.h
+++ b/pire/scanners/loaded.h
@@ -145,6 +145,8 @@ public:
 		Impl::MapPtr(s.m_tags, s.m.statesCount, p, size);
 
 		s.m.initial += reinterpret_cast<size_t>(s.m_jumps);
+		if (!s.m.regexpsCount)
+			s.Alias(Null());
 		Swap(s);
 
 		return (const void*) p;
-- 
2.43.0


From 94fc02314f0e11519e7b5be008c4bc4d365981b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 22/60] fix: loading and mapping a NoGlueLimitCountingScanner
 checks the size and replaces the whole scanner

---
 pire/extra/count.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 270d9b3..3612536 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1018,25 +1018,24 @@ void NoGlueLimitCountingScanner::Save(yostream* s) const {
 }
 
 void NoGlueLimitCountingScanner::Load(yistream* s) {
+	NoGlueLimitCountingScanner scanner;
 	ui32 type;
-	LoadedScanner::Load(s, &type);
+	scanner.LoadedScanner::Load(s, &type);
 	ActionIndex actionsSize;
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
 		LoadPodType(s, actionsSize);
 
-		if (actionsSize == 0) {
-			ActionsBuffer.reset();
-			Actions = nullptr;
-		} else {
-			ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
-			ActionsBuffer[0] = actionsSize;
-			LoadPodArray(s, &ActionsBuffer[1], actionsSize - 1);
-			Actions = ActionsBuffer.get();
+		if (actionsSize != 0) {
+			scanner.ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
+			scanner.ActionsBuffer[0] = actionsSize;
+			LoadPodArray(s, &scanner.ActionsBuffer[1], actionsSize - 1);
+			scanner.Actions = scanner.ActionsBuffer.get();
 		}
 	} else {
 		Y_ASSERT(type == ScannerIOTypes::LoadedScanner);
-		AdvancedScannerCompatibilityMode = true;
+		scanner.AdvancedScannerCompatibilityMode = true;
 	}
+	Swap(scanner);
 }
 
 const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
@@ -1045,11 +1044,16 @@ const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
 	auto p = static_cast<const size_t*> (scanner.LoadedScanner::Mmap(ptr, size, &type));
 
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
+		size -= reinterpret_cast<const char*>(p) - static_cast<const char*>(ptr);
+		if (size < sizeof(ActionIndex))
+			throw Error("EOF reached while mapping Pire::NoGlueLimitCountingScanner");
 		scanner.Actions = reinterpret_cast<const ActionIndex*>(p);
 		if (*scanner.Actions == 0) {
 			scanner.Actions = nullptr;
 			Impl::AdvancePtr(p, size, sizeof(ActionIndex));
 		} else {
+			if (size / sizeof(ActionIndex) < *scanner.Actions)
+				throw Error("EOF reached while mapping Pire::NoGlueLimitCountingScanner");
 			Impl::AdvancePtr(p, size, *scanner.Actions * sizeof(ActionIndex));
 		}
 	} else {
-- 
2.43.0


From 76f4896dcff9bd5acef2960cfb21f0c397072630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 23/60] fix: gluing scanners fails instead of overflowing the
 lookup table

---
 pire/scanners/multi.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 195fb5e..52eaae4 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -1103,7 +1103,9 @@ Impl::Scanner<Relocation, Shortcutting> Impl::Scanner<Relocation, Shortcutting>:
 	
 	static const size_t DefMaxSize = 80000;
 	Impl::ScannerGlueTask< Impl::Scanner<Relocation, Shortcutting> > task(lhs, rhs);
-	return Impl::Determine(task, maxSize ? maxSize : DefMaxSize);
+	// The lookup table of the glued states has a fixed capacity
+	static const size_t TableLimit = Impl::ScannerGlueTask< Impl::Scanner<Relocation, Shortcutting> >::InvStates::MaxSize - 2;
+	return Impl::Determine(task, ymin(maxSize ? maxSize : DefMaxSize, size_t(TableLimit)));
 }
 
 
-- 
2.43.0


From 9525479b5673ae24f1bab78754e3c0bd99a28210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 24/60] fix: pire_inline decodes octal and hexadecimal escapes

---
 pire/inline.lpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 174d2e3..a4134c8 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -99,16 +99,18 @@ void eatComment(void (*action)(char));
 				s.push_back('\n');
 			else if (*p == 't')
 				s.push_back('\t');
-			else if (isdigit(*p)) {
+			else if (*p >= '0' && *p <= '7') {
 				const char* beg = p;
-				while (isdigit(*p))
+				while (p != beg + 3 && *p >= '0' && *p <= '7')
 					++p;
 				s.push_back(strtol(ystring(beg, p).c_str(), 0, 8));
-			} else if (*p == 'x') {
-				const char* beg = p;
-				while (isdigit(*p) || (*p > 'a' && *p <= 'f') || (*p > 'A' && *p < 'F'))
+				--p;
+			} else if (*p == 'x' && isxdigit(static_cast<unsigned char>(p[1]))) {
+				const char* beg = ++p;
+				while (isxdigit(static_cast<unsigned char>(*p)))
 					++p;
 				s.push_back(strtol(ystring(beg, p).c_str(), 0, 16));
+				--p;
 			} else
 				Die() << "unknown escape sequence (\\" <<  *p << ")";
 		} else
-- 
2.43.0


From 2f48a63822bb993db92ef2d93f3e1b9cfae94a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 25/60] fix: pire_inline recognizes string literals with
 escaped backslashes and character literals

---
 pire/inline.lpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index a4134c8..af5a81c 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -80,12 +80,13 @@ void eatComment(void (*action)(char));
 <INITIAL>"//".*\n        { ++line; fprintf(yyout, "%s", yytext); }
 <Regexp>"//".*\n         { ++line; }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
-"\""([^\"]|\\.)*"\""     { fprintf(yyout, "%s", yytext); }
+"\""([^\"\\]|\\.)*"\""   { fprintf(yyout, "%s", yytext); }
+"'"([^\'\\\n]|\\.)*"'"   { fprintf(yyout, "%s", yytext); }
 \n                       { ++line; putc('\n', yyout); }
 
 
-<INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
-<Regexp>"\""([^\"]|\\.)*"\"" {
+<INITIAL>"PIRE_REGEXP"[ \t]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
+<Regexp>"\""([^\"\\]|\\.)*"\"" {
 	ystring& s = args.back();
 	const char* p;
 	for (p = yytext + 1; *p && p[1]; ++p) {
-- 
2.43.0


From d5686a5a25cf5d80aa319b93e18231f7a1d662fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 26/60] fix: pire_inline output is not broken by line breaks
 and trailing backslashes in patterns

---
 pire/inline.lpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index af5a81c..9eb3184 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -186,7 +186,11 @@ void eatComment(void (*action)(char));
 	AlignedOutput stream(&buf);
 	Save(&stream, sc);
 
-	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // %s \n    \"", pattern.c_str());
+	// The text goes to a one-line comment: it must neither contain line breaks nor end with a backslash
+	for (auto&& c : pattern)
+		if (static_cast<unsigned char>(c) < ' ')
+			c = ' ';
+	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // '%s'\n    \"", pattern.c_str());
 	size_t pos = 5;
 	for (auto i = buf.Buffer().Begin(), ie = buf.Buffer().End(); i != ie; ++i) {
 		pos += fprintf(yyout, "\\x%02X", static_cast<unsigned char>(*i));
-- 
2.43.0


From fe5b14191e4f6d3423db6ddb3a5262dc89ce96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:46 +0000
Subject: [PATCH 27/60] fix: pire_inline decodes patterns according to their
 encoding

---
 pire/inline.lpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 9eb3184..0b3ef79 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -133,7 +133,7 @@ void eatComment(void (*action)(char));
 	ystring pattern;
 	for (auto i = args.begin(), ie = args.end(); i != ie; i += 2) {
 
-		Pire::Lexer lexer(i->c_str(), i->c_str() + i->size());
+		Pire::Lexer lexer;
 		bool surround = false;
 		bool greedy = false;
 		bool reverse = false;
@@ -156,6 +156,9 @@ void eatComment(void (*action)(char));
 
 		Pire::Fsm fsm;
 		try {
+			std::vector<Pire::wchar32> text;
+			lexer.Encoding().FromLocal(i->c_str(), i->c_str() + i->size(), std::back_inserter(text));
+			lexer.Assign(text.begin(), text.end());
 			fsm = lexer.Parse();
 		}
 		catch (std::exception& e) {
-- 
2.43.0


From 4b6b3939b70683cc999b90d49093a912090dfda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 28/60] fix: pire_inline reports regexps which cannot be glued
 together

---
 pire/inline.lpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 0b3ef79..733057f 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -180,6 +180,8 @@ void eatComment(void (*action)(char));
 			tsc.Swap(sc);
 		} else {
 			sc = Pire::Scanner::Glue(sc, tsc);
+			if (sc.Empty())
+				Die() << "regexps are too complicated to be glued together";
 			pattern += " | ";
 			pattern += *i;
 		}
-- 
2.43.0


From c9191de63623c890cb1949e2a303067d4a856f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 29/60] fix: pigrep names the file it cannot open

---
 samples/pigrep/pigrep.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/pigrep/pigrep.cpp b/samples/pigrep/pigrep.cpp
index 5918ad0..5273448 100644
--- a/samples/pigrep/pigrep.cpp
+++ b/samples/pigrep/pigrep.cpp
@@ -98,7 +98,7 @@ int main(int argc, char** argv)
                 if (*filename != std::string("-")) {
                     fs.open(*filename);
                     if (!fs)
-                        throw std::runtime_error("cannot open file " + std::string(argv[0]));
+                        throw std::runtime_error("cannot open file " + std::string(*filename));
                     prefix = *filename;
                     s = &fs;
                 }
-- 
2.43.0


From 0c2675c095e95bc37a7da470c3d5915a535bd065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 30/60] fix: blacklist reports failures to write the dictionary

---
 samples/blacklist/blacklist.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/samples/blacklist/blacklist.cpp b/samples/blacklist/blacklist.cpp
index 0124963..88cec94 100644
--- a/samples/blacklist/blacklist.cpp
+++ b/samples/blacklist/blacklist.cpp
@@ -72,6 +72,9 @@ void Generate(const std::string& outputFile)
     
     std::fstream ofs(outputFile.c_str(), std::ios::out | std::ios::binary);
     Pire::Scanner(re).Save(&ofs);
+    ofs.close();
+    if (!ofs)
+        throw std::runtime_error("cannot write file " + outputFile);
 }
 
 void Filter(const Pire::Scanner& sc)
-- 
2.43.0


From 8be5af25f913d03f3ea206766679109d198af315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 31/60] fix: deeply nested patterns are parsed, the parser's
 stack grows

---
 pire/re_parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/re_parser.y b/pire/re_parser.y
index 03e18b2..78601f6 100644
--- a/pire/re_parser.y
+++ b/pire/re_parser.y
@@ -42,7 +42,7 @@
 #include "stub/stl.h"
 
 #define YYSTYPE Any*
-#define YYSTYPE_IS_TRIVIAL 0
+#define YYSTYPE_IS_TRIVIAL 1
 
 namespace {
 
-- 
2.43.0


From 6466af5e96066a63946a3f006db0290c30821174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 32/60] fix: ranges beyond the last code point are rejected

---
 pire/re_lexer.cpp   | 3 +++
 pire/read_unicode.h | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 1627972..20d545d 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -264,6 +264,9 @@ namespace {
 							Error("Wrong character range");
 					}
 
+					if (end > MaxUnicode)
+						Error("Wrong character range");
+
 					for (ch = begin; ch <= end; ++ch) {
 						cs.first.insert(Term::String(1, ch));
 					}
diff --git a/pire/read_unicode.h b/pire/read_unicode.h
index 400ba75..fc8fdfe 100644
--- a/pire/read_unicode.h
+++ b/pire/read_unicode.h
@@ -32,9 +32,10 @@ namespace Pire {
 	public:
 		wchar32 ReadUnicodeCharacter();
 
-	private:
+	protected:
 		static const wchar32 MaxUnicode = 0x10FFFF;
 
+	private:
 		bool IsHexDigit(wchar32 ch);
 		ystring ReadHexDigit(std::function<bool(wchar32, size_t)> shouldStop);
 		wchar32 HexToDec(const ystring& hexStr);
-- 
2.43.0


From 12064587ae8fe2f16c69710c6b450925f6e097c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 33/60] fix: the zero character may begin a range

---
 pire/re_lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 20d545d..8910aea 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -196,7 +196,7 @@ void Lexer::Parenthesized(Fsm& fsm)
 
 wchar32 Feature::CorrectChar(wchar32 c, const char* controls)
 {
-	bool ctrl = (strchr(controls, c & 0xFF) != 0);
+	bool ctrl = ((c & 0xFF) != 0 && strchr(controls, c & 0xFF) != 0);
 	if ((c & ControlMask) == Control && ctrl)
 		return c & ~ControlMask;
 	if (c <= 0xFF && ctrl)
-- 
2.43.0


From b57f8e9e5b964bc4c94871051d2f51c01dd3ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:58 +0000
Subject: [PATCH 34/60] fix: hexadecimal code points beyond 32 bits are
 rejected

---
 pire/read_unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/read_unicode.cpp b/pire/read_unicode.cpp
index f29adae..62924dc 100644
--- a/pire/read_unicode.cpp
+++ b/pire/read_unicode.cpp
@@ -64,7 +64,7 @@ namespace Pire {
 	}
 
 	wchar32 UnicodeReader::HexToDec(const ystring &hexStr) {
-		wchar32 converted;
+		unsigned long converted;
 		try {
 			converted = std::stoul(hexStr, 0, 16);
 		} catch (std::out_of_range &) {
-- 
2.43.0


From 6564e83f5629dbd592380c080f5a17ce4f52df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 35/60] fix: running an empty SlowCapturingScanner read through
 null pointers

---
 pire/extra/capture.h | 4 ++--
 pire/scanners/slow.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 213ee44..f2f4b0a 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -398,9 +398,9 @@ public:
 		} else {
 			size_t num = GetPosition(state, letter);
 			const auto& jumpVec = GetJumpsVec(num);
-			const auto& actionVec = GetActionsVec(num);
+			// An empty scanner has no actions at all
 			for (size_t i = 0; i < jumpVec.size(); ++i)
-				nextStates.emplace_back(jumpVec[i], actionVec[i]);
+				nextStates.emplace_back(jumpVec[i], GetActionsVec(num)[i]);
 		}
 	}
 
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 8d746a1..c0a5686 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -319,7 +319,7 @@ protected:
 
 	const TVector<unsigned int>& GetJumpsVec(size_t from) const
 	{
-		return m_vec[from];
+		return (*m_vecptr)[from];
 	}
 
 	size_t* GetJumpPos() const
-- 
2.43.0


From 5dade197aa8f7ce7513c3d4f122a48b05bdd2c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 36/60] fix: two empty counting scanners glued together are
 empty

---
 pire/extra/count.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 3612536..097a78c 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -979,6 +979,8 @@ private:
 	
 CountingScanner CountingScanner::Glue(const CountingScanner& lhs, const CountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (lhs.Empty() && rhs.Empty())
+		return CountingScanner();
 	if (lhs.RegexpsCount() + rhs.RegexpsCount() > MAX_RE_COUNT) {
 		return CountingScanner();
 	}
@@ -989,6 +991,8 @@ CountingScanner CountingScanner::Glue(const CountingScanner& lhs, const Counting
 
 AdvancedCountingScanner AdvancedCountingScanner::Glue(const AdvancedCountingScanner& lhs, const AdvancedCountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (lhs.Empty() && rhs.Empty())
+		return AdvancedCountingScanner();
 	if (lhs.RegexpsCount() + rhs.RegexpsCount() > MAX_RE_COUNT) {
 		return AdvancedCountingScanner();
 	}
@@ -999,6 +1003,8 @@ AdvancedCountingScanner AdvancedCountingScanner::Glue(const AdvancedCountingScan
 
 NoGlueLimitCountingScanner NoGlueLimitCountingScanner::Glue(const NoGlueLimitCountingScanner& lhs, const NoGlueLimitCountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (lhs.Empty() && rhs.Empty())
+		return NoGlueLimitCountingScanner();
 	static constexpr size_t DefMaxSize = 250000;
 	Impl::NoGlueLimitCountingScannerGlueTask task(lhs, rhs);
 	return Impl::Determine(task, maxSize ? maxSize : DefMaxSize);
-- 
2.43.0


From 49d15a1baf57a6cdfbc575313a372d15f3759277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 37/60] fix: CountingScanner does not count letters after it
 lost both matches

---
 pire/extra/count.cpp | 5 +++++
 pire/extra/count.h   | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 097a78c..88ab1b6 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -805,6 +805,11 @@ CountingScanner::CountingScanner(const Fsm& re, const Fsm& sep)
 				PIRE_IFDEBUG(dbgout = ((sep_re.Tag(ns.first) & Matched) ? ", ++cur" : ", max <- cur"));
 				outputs = DeadFlag | (sep_re.Tag(ns.first) & Matched);
 				ns.first = ns.second;
+				if (dead.find(ns.first) != dead.end()) {
+					// Nothing to continue with, start over from this letter
+					outputs |= Restarted;
+					ns.first = ns.second = *sep_re.Destinations(sep_re.Initial(), letter).begin();
+				}
 			}
 			if (sep_re.IsFinal(ns.first) || (sep_re.IsFinal(ns.second) && !(sep_re.Tag(ns.first) & Matched)))
 				ns.second = sep_re.Initial();
diff --git a/pire/extra/count.h b/pire/extra/count.h
index 9dd9872..014930e 100644
--- a/pire/extra/count.h
+++ b/pire/extra/count.h
@@ -240,6 +240,7 @@ public:
 	using State = CountingState<MAX_RE_COUNT>;
 	enum {
 		Matched = 2,
+		Restarted = 4,
 	};
 	
 	CountingScanner() {}
@@ -262,7 +263,9 @@ private:
 	{
 		if (action == (Matched | DeadFlag))
 			return 1;
-		else if (action == DeadFlag)
+		else if (action == (Matched | DeadFlag | Restarted))
+			return 1 | (1 << MAX_RE_COUNT);
+		else if (action & DeadFlag)
 			return 1 << MAX_RE_COUNT;
 		else
 			return 0;
-- 
2.43.0


From f2147835a6977ec9ce67025fda4b6d9590c41229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 38/60] fix: counting and capturing scanners refuse more letter
 classes than they can number

---
 pire/scanners/loaded.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/scanners/loaded.h b/pire/scanners/loaded.h
index 527ba1d..bf2803a 100644
--- a/pire/scanners/loaded.h
+++ b/pire/scanners/loaded.h
@@ -24,6 +24,7 @@
 #ifndef PIRE_SCANNERS_LOADED_H
 #define PIRE_SCANNERS_LOADED_H
 
+#include <limits>
 #include <string.h>
 #include "common.h"
 #include "../approx_matching.h"
@@ -160,6 +161,8 @@ public:
 		template<class Eq>
 	void Init(size_t states, const Partition<Char, Eq>& letters, size_t startState, size_t regexpsCount = 1)
 	{
+		if (letters.Size() > static_cast<size_t>(std::numeric_limits<Letter>::max()) + 1)
+			throw Error("regexp pattern too complicated");
 		m.statesCount = states;
 		m.lettersCount = letters.Size();
 		m.regexpsCount = regexpsCount;
-- 
2.43.0


From e1f57aac102aa3f86ea420c257b4cbf9f9b64849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 39/60] fix: the capital of the micro sign is a Greek letter,
 not a code point beyond Unicode

---
 pire/stub/unidata_h.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pire/stub/unidata_h.h b/pire/stub/unidata_h.h
index c8a8451..3424c70 100644
--- a/pire/stub/unidata_h.h
+++ b/pire/stub/unidata_h.h
@@ -378,6 +378,9 @@ wchar32 to_lower(wchar32 ch)
 }
 wchar32 to_upper(wchar32 ch)
 {
+	// The distance from the micro sign to its capital, GREEK CAPITAL LETTER MU, does not fit into the table
+	if (ch == 0x00B5)
+		return 0x039C;
 	i32 i = wc_info(ch);
 	return (wchar32)(ch - ((i & TO_UPPER) ? (i >> SVAL_OFFSET) : 0));
 }
@@ -391,7 +394,7 @@ wchar32 to_title(wchar32 ch)
 		else if (wc_istype(ch, _(Ll_LOWER)))
 			ret--;
 	} else if (i & TO_UPPER) {
-		ret = (wchar32)(ret - (i >> SVAL_OFFSET));
+		ret = to_upper(ch);
 	}
 	return ret;
 }
-- 
2.43.0


From f3953a1b3f36c56090fb21666395ef62daf6f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 40/60] fix: a title case letter in a case insensitive pattern
 matches itself

---
 pire/re_lexer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 8910aea..f2afa9d 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -343,11 +343,12 @@ namespace {
 				const CharSet& old = t.Value().As<Term::CharacterRange>().first;
 				CharSet altered;
 				for (auto&& i : old) {
+					// A title case letter is neither its capital nor its small one
+					altered.insert(i);
 					if (i.size() == 1) {
 						altered.insert(Term::String(1, to_upper(i[0])));
 						altered.insert(Term::String(1, to_lower(i[0])));
-					} else
-						altered.insert(i);
+					}
 				}
 				t = Term(t.Type(), Term::CharacterRange(altered, t.Value().As<Term::CharacterRange>().second));
 			}
-- 
2.43.0


From db291e66d700433c56b768b77d16a06a10b04aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 41/60] fix: greedy counter does not count a longer match twice

---
 pire/half_final_fsm.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 692c2ee..71cf73a 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -186,9 +186,11 @@ namespace Pire {
 
 			void AddState(size_t state, size_t count, bool reachedFinal, bool force = false) {
 				size_t newLastFinalCount = LastFinalCount;
-				if (mFsm.IsFinal(state) && !reachedFinal) {
-					++count;
-					reachedFinal = true;
+				if (mFsm.IsFinal(state)) {
+					if (!reachedFinal) {
+						++count;
+						reachedFinal = true;
+					}
 					newLastFinalCount = count;
 				}
 				for (const auto& addedState : States) {
-- 
2.43.0


From 9f31041c607b8de704b6fca1d67a116cf2f4f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 42/60] fix: HalfFinalFsm::Compile() returns the scanner

---
 pire/half_final_fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/half_final_fsm.h b/pire/half_final_fsm.h
index 83828f8..2e14ed8 100644
--- a/pire/half_final_fsm.h
+++ b/pire/half_final_fsm.h
@@ -43,6 +43,6 @@ namespace Pire {
 
 	template<class Scanner>
 	Scanner HalfFinalFsm::Compile() const {
-		auto scanner = Scanner(*this);
+		return Scanner(*this);
 	}
 }
-- 
2.43.0


From c204ff140306f0899dc1f96728b7cce7d6390f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 43/60] fix: greedy counter goes on from the last match, not
 from the last attempt

---
 pire/half_final_fsm.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 71cf73a..41be42d 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -134,7 +134,7 @@ namespace Pire {
 						next.AddState(nextState, state.Count, state.ReachedFinal);
 					}
 				}
-				next.FinishBuild(maxCount, States.back().Count);
+				next.FinishBuild(maxCount);
 				if (letter == EndMark) {
 					next.ToAdd += next.LastFinalCount;
 					next.LastFinalCount = 0;
@@ -204,11 +204,8 @@ namespace Pire {
 				}
 			}
 
-			void FinishBuild(size_t maxCount, size_t lastCount = 0) {
-				if (!States.empty() && mFsm.IsFinal(States.back().State)) {
-					lastCount = States.back().Count;
-				}
-				AddState(mFsm.Initial(), lastCount, false, true);
+			void FinishBuild(size_t maxCount) {
+				AddState(mFsm.Initial(), LastFinalCount, false, true);
 				LastFinalCount = std::min(LastFinalCount, maxCount);
 				size_t minCount = States[0].Count;
 				for (auto& state : States) {
-- 
2.43.0


From dbe8eca858cccded234d2e14b9b8702de5245a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 44/60] fix: greedy counter counts matches which end at the end
 mark

---
 pire/half_final_fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 41be42d..310eb24 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -234,6 +234,9 @@ namespace Pire {
 			{
 				size_t oldSize = mFsm.Size();
 				mFsm.Import(fsm);
+				for (size_t state = 0; state < oldSize; ++state) {
+					mFsm.SetFinal(oldSize + state, mFsm.IsFinal(state));
+				}
 				mFsm.Unsparse();
 				for (size_t state = 0; state < mFsm.Size(); ++state) {
 					for (Char letter = 0; letter < MaxChar; ++letter) {
-- 
2.43.0


From bee2b00ad4b2304a991b85dcde51926f9815efc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 45/60] fix: greedy counter of an expression without matches
 has all transitions

---
 pire/half_final_fsm.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 310eb24..7db55c2 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -110,7 +110,6 @@ namespace Pire {
 		if (simplify) {
 			fsm.Minimize();
 		}
-		fsm.RemoveDeadEnds();
 	}
 
 	namespace Impl {
-- 
2.43.0


From b26e3b64698a85b7cb8318e84e15841cd36812ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:10 +0000
Subject: [PATCH 46/60] fix: removing epsilon transitions keeps the outputs of
 indirect ones

---
 pire/fsm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 4468abe..452bcc9 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -794,14 +794,14 @@ void Fsm::ShortCutEpsilon(size_t from, size_t thru, TVector< TSet<size_t> >& inv
 {
 	PIRE_IFDEBUG(Cdbg << "In Fsm::ShortCutEpsilon(" << from << ", " << thru << ")\n");
 	const StatesSet& to = Destinations(thru, Epsilon);
-	Outputs::iterator outIt = outputs.find(from);
 	unsigned long fromThruOut = Output(from, thru);
 	for (auto&& toElement : to) {
 		PIRE_IFDEBUG(Cdbg << "Epsilon connecting " << from << " --> " << thru << " --> " << toElement << "\n");
 		Connect(from, toElement, Epsilon);
 		inveps[toElement].insert(from);
-		if (outIt != outputs.end())
-			outIt->second[toElement] |= (fromThruOut | Output(thru, toElement));
+		unsigned long output = fromThruOut | Output(thru, toElement);
+		if (output)
+			outputs[from][toElement] |= output;
 	}
 }
 
-- 
2.43.0


From f235e9c6c03cb2cbab1ba014a425f8206aefc4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 47/60] fix: minimization does not unite transitions with
 different outputs

---
 pire/fsm.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 452bcc9..bbf6251 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -1070,14 +1070,34 @@ public:
 	{
 		Y_ASSERT(mFsm.IsDetermined());
 
-		TMap<bool, size_t> FinalStateClassMap;
+		// States are united along with the outputs of their transitions, hence these outputs must be the same.
+		// A state which can be entered with different outputs is not united with others.
+		TVector<TVector<unsigned long>> outgoing(mFsm.Size());
+		TVector<TSet<unsigned long>> incoming(mFsm.Size());
+		if (!mFsm.outputs.empty()) {
+			for (size_t state = 0; state < mFsm.Size(); ++state) {
+				for (const auto& transition : mFsm.m_transitions[state]) {
+					auto destination = *transition.second.begin();
+					outgoing[state].push_back(mFsm.Output(state, destination));
+					incoming[destination].insert(outgoing[state].back());
+				}
+			}
+		}
+
+		typedef ypair<TVector<unsigned long>, TSet<unsigned long>> StateOutputs;
+		TMap<ypair<bool, StateOutputs>, size_t> StateClassMap;
 
 		for (size_t state = 0; state < mFsm.Size(); ++state) {
 			reversedTransitions[state].resize(mFsm.Letters().Size());
-			if (FinalStateClassMap.find(mFsm.IsFinal(state)) == FinalStateClassMap.end()) {
-				FinalStateClassMap[mFsm.IsFinal(state)] = Classes++;
+			if (incoming[state].size() > 1) {
+				StateClass[state] = Classes++;
+				continue;
+			}
+			auto key = ymake_pair(mFsm.IsFinal(state), StateOutputs(outgoing[state], incoming[state]));
+			if (StateClassMap.find(key) == StateClassMap.end()) {
+				StateClassMap[key] = Classes++;
 			}
-			StateClass[state] = FinalStateClassMap[mFsm.IsFinal(state)];
+			StateClass[state] = StateClassMap[key];
 		}
 
 		for (size_t state = 0; state < mFsm.Size(); ++state) {
-- 
2.43.0


From bc512f5228816562de6998cb7b8fa9932d7e8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 48/60] fix: a capture does not end before it begins

---
 pire/extra/capture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index f2f4b0a..b349483 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -97,7 +97,7 @@ public:
 	{
 		if ((a & BeginCapture) && !s.Captured())
 			s.m_begin = s.m_counter - 1;
-		else if ((a & EndCapture) && !s.Captured())
+		else if ((a & EndCapture) && s.m_begin != State::npos && !s.Captured())
 			s.m_end = s.m_counter - 1;
 	}
 
-- 
2.43.0


From 897d99a4ef1594cf4260a8ce24fc7dc2bf29eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 49/60] fix: SlowCapturingScanner follows the priorities of
 alternatives and repetitions

---
 pire/extra/capture.h | 241 ++++++++++++++++---------------------------
 1 file changed, 91 insertions(+), 150 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index b349483..aa17c1c 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -336,43 +336,6 @@ public:
 		}
 	};
 
-	class PriorityStates {
-	private:
-		TVector<SingleState> m_nonGreedy;
-		TVector<SingleState> m_nothing;
-		TVector<SingleState> m_greedy;
-
-	public:
-		void Push(const SingleState& st, RepetitionTypes repetition)
-		{
-			Get(repetition).push_back(st);
-		}
-
-		TVector<SingleState>& Get(RepetitionTypes repetition)
-		{
-			switch (repetition) {
-				case NonGreedyRepetition:
-					return m_nonGreedy;
-				case NoRepetition:
-					return m_nothing;
-				case GreedyRepetition:
-					return m_greedy;
-			}
-		}
-
-		const TVector<SingleState>& Get(RepetitionTypes repetition) const
-		{
-			switch (repetition) {
-				case NonGreedyRepetition:
-					return m_nonGreedy;
-				case NoRepetition:
-					return m_nothing;
-				case GreedyRepetition:
-					return m_greedy;
-			}
-		}
-	};
-
 	SlowScanner::State GetNextStates(const SingleState& cur, Char letter) const
 	{
 		SlowScanner::State st(GetSize());
@@ -404,141 +367,121 @@ public:
 		}
 	}
 
-	void InsertStates(const PriorityStates& states, TVector<SingleState>& nonGreedy, TVector<SingleState>& nothing, TVector<SingleState>& greedy) const
+	// Says when an Epsilon-transition should be tried: leaving a non-greedy repetition is preferred to anything else,
+	// and leaving a greedy one is the last resort. Repetitions are left through a state with a marked transition.
+	RepetitionTypes GetRepetition(const Transition& trans) const
 	{
-		for (auto& greed : {ymake_pair(&nonGreedy, NonGreedyRepetition), ymake_pair(&nothing, NoRepetition), ymake_pair(&greedy, GreedyRepetition)}) {
-			auto& vec = greed.first;
-			auto& tag = greed.second;
-			vec->insert(vec->end(), states.Get(tag).begin(), states.Get(tag).end());
-		}
+		Action action = trans.GetAction();
+		if (!(action & (EndRepetition | EndNonGreedyRepetition))) {
+			TVector<Transition> nextStates;
+			NextStates(trans.GetState(), Translate(Epsilon), nextStates);
+			for (const auto& next : nextStates)
+				action |= next.GetAction();
+		}
+		if (action & EndNonGreedyRepetition)
+			return NonGreedyRepetition;
+		return (action & EndRepetition) ? GreedyRepetition : NoRepetition;
 	}
 
-	void NextAndGetToGroups(PriorityStates& states, const SingleState& cur,
-							Char letter, size_t pos, TVector<bool>& used) const
+	enum Places {
+		BeforeBeginMark = 1,
+		AfterBeginMark = 2
+	};
+
+	// Appends a state to the list along with all states reachable through Epsilon-transitions, the most preferred ones first.
+	// Places on both sides of BeginMark are the same position of the text, so they are looked through together.
+	void PushWithEpsilons(TVector<SingleState>& states, const SingleState& cur, size_t pos, TVector<char>& used, char places = AfterBeginMark) const
 	{
+		places &= ~used[cur.GetNum()];
+		if (!places)
+			return;
+		used[cur.GetNum()] |= places;
 		TVector<Transition> nextStates;
-		NextStates(cur, letter, nextStates);
-		for (const auto& trans : nextStates) {
-			size_t st = trans.GetState();
-			if (used[st])
+		NextStates(cur, Translate(Epsilon), nextStates);
+		for (const auto repetition : {NonGreedyRepetition, NoRepetition, GreedyRepetition}) {
+			for (const auto& trans : nextStates)
+				if (GetRepetition(trans) == repetition)
+					PushWithEpsilons(states, Follow(cur, trans, pos), pos, used, places);
+			if (repetition != NoRepetition)
 				continue;
-			used[st] = true;
-			SingleState state(st);
-			const auto& action = trans.GetAction();
-			state.SetBegin(cur.GetBegin());
-			state.SetEnd(cur.GetEnd());
-			if (action & BeginCapture && !cur.HasBegin()) {
-				state.SetBegin(pos);
-			}
-			if (action & EndCapture && !cur.HasEnd()) {
-				state.SetEnd(pos);
-			}
-			PriorityStates statesInside;
-			NextAndGetToGroups(statesInside, state, Translate(Epsilon), pos, used);
-			statesInside.Push(state, NoRepetition);
-			if (action & EndNonGreedyRepetition) {
-				auto& nongreedy = states.Get(NonGreedyRepetition);
-				InsertStates(statesInside, nongreedy, nongreedy, nongreedy);
-			}
-			else if (!(action & EndRepetition))
-				InsertStates(statesInside, states.Get(NonGreedyRepetition), states.Get(NoRepetition), states.Get(GreedyRepetition));
-			else {
-				auto& greedy = states.Get(GreedyRepetition);
-				InsertStates(statesInside, greedy, greedy, greedy);
-			}
+			if (places & AfterBeginMark)
+				states.push_back(cur);
+			if (places & BeforeBeginMark)
+				NextAndGetToGroups(states, cur, Translate(BeginMark), pos, used);
 		}
 	}
 
-	bool Captured(const SingleState& st, bool& matched) const
+	SingleState Follow(const SingleState& cur, const Transition& trans, size_t pos) const
 	{
-		matched = false;
-		if (IsFinal(st.GetNum())) {
-			matched = true;
-			if (st.HasBegin())
-				return true;
-		}
-		TVector<Transition> nextStates;
-		NextStates(st, Translate(EndMark), nextStates);
-		for (const auto& trans : nextStates)
-		{
-			size_t state = trans.GetState();
-			if (IsFinal(state)) {
-				matched = true;
-				if (st.HasBegin() || (trans.GetAction() & ActionsCapture))
-					return true;
-			} else { // After EndMark there can be Epsilon-transitions to the Final State
-				TVector<Transition> epsilonTrans;
-				SingleState newSt(state);
-				NextStates(newSt, Translate(Epsilon), epsilonTrans);
-				for (auto new_trans : epsilonTrans) {
-					size_t fin = new_trans.GetState();
-					if (IsFinal(fin)) {
-						matched = true;
-						if (st.HasBegin() || (trans.GetAction() & ActionsCapture))
-							return true;
-					}
-				}
-			}
-		}
-		return false;
+		SingleState state(trans.GetState());
+		state.SetBegin(cur.GetBegin());
+		state.SetEnd(cur.GetEnd());
+		if (trans.GetAction() & BeginCapture)
+			state.SetBegin(pos);
+		if (trans.GetAction() & EndCapture)
+			state.SetEnd(pos);
+		return state;
 	}
 
-	bool Matched(const SingleState& st) const
+	void NextAndGetToGroups(TVector<SingleState>& states, const SingleState& cur,
+							Char letter, size_t pos, TVector<char>& used) const
 	{
-		bool matched;
-		Captured(st, matched);
-		return matched;
+		TVector<Transition> nextStates;
+		NextStates(cur, letter, nextStates);
+		for (const auto& trans : nextStates)
+			PushWithEpsilons(states, Follow(cur, trans, pos), pos, used);
 	}
 
+	// Finds out what is matched if the text ends here
 	bool GetCapture(const State& st, SingleState& final) const
 	{
-		size_t pos = 0;
-		bool matched = false;
-		bool ans = false;
-		while (pos < st.GetSize() && !matched) {
-			ans = Captured(st.GetState(pos), matched);
-			++pos;
-		}
-		if (matched) {
-			final = st.GetState(pos - 1);
-			return ans;
-		} else {
-			if (st.IsMatched()) {
-				final = st.GetMatched();
-				return true;
-			}
-			return false;
+		for (const auto& state : st.GetStates()) {
+			TVector<SingleState> states;
+			TVector<char> used(GetSize());
+			if (IsFinal(state.GetNum()))
+				states.push_back(state);
+			else
+				NextAndGetToGroups(states, state, Translate(EndMark), st.GetPos(), used);
+			for (const auto& next : states)
+				if (IsFinal(next.GetNum())) {
+					final = next;
+					return final.Captured();
+				}
 		}
-	}
-
-	bool PushState(State& nlist, const SingleState& state) const
-	{
-		nlist.PushState(state);
-		if (Matched(state)) {
-			nlist.AddMatch(state);
-			return true;
+		if (st.IsMatched()) {
+			final = st.GetMatched();
+			return final.Captured();
 		}
 		return false;
 	}
 
-	void UpdateNList(State& nlist, const PriorityStates& states) const
+	bool UpdateNList(State& nlist, const TVector<SingleState>& states) const
 	{
-		static constexpr std::array<RepetitionTypes, 3> m_type_by_priority{{NonGreedyRepetition, NoRepetition, GreedyRepetition}};
-		for (const auto type : m_type_by_priority) {
-			for (const auto& state : states.Get(type)) {
-				if (PushState(nlist, state)) // Because we have strict priorities, after matching some state, we can be sure, that not states after will be better
-					return;
+		for (const auto& state : states) {
+			nlist.PushState(state);
+			if (IsFinal(state.GetNum())) { // Because we have strict priorities, after matching some state, we can be sure, that not states after will be better
+				nlist.AddMatch(state);
+				return true;
 			}
 		}
+		return false;
 	}
 
 	void Initialize(State& nlist) const
 	{
-		PriorityStates states;
+		nlist = State();
+		if (Empty())
+			return;
 		SingleState init(GetStart());
-		TVector<bool> used(GetSize());
-		NextAndGetToGroups(states, init, Translate(BeginMark), 0, used);
-		NextAndGetToGroups(states, 0, Translate(BeginMark), 0, used);
+		TVector<Transition> afterBegin;
+		NextStates(init, Translate(BeginMark), afterBegin);
+		char places = BeforeBeginMark;
+		for (const auto& trans : afterBegin)
+			if (trans.GetState() == init.GetNum())
+				places |= AfterBeginMark;
+		TVector<SingleState> states;
+		TVector<char> used(GetSize());
+		PushWithEpsilons(states, init, 0, used, places);
 		UpdateNList(nlist, states);
 	}
 
@@ -548,14 +491,12 @@ public:
 		if (clist.IsMatched())
 			nlist.AddMatch(clist.GetMatched());
 		nlist.SetPos(clist.GetPos() + 1);
-		size_t strpos = nlist.GetPos();
-		TVector<bool> used(GetSize());
-		size_t pos = 0;
-		while (pos < clist.GetSize()) {
-			PriorityStates states;
-			NextAndGetToGroups(states, clist.GetState(pos), letter, strpos, used);
-			UpdateNList(nlist, states);
-			++pos;
+		TVector<char> used(GetSize());
+		for (const auto& state : clist.GetStates()) {
+			TVector<SingleState> states;
+			NextAndGetToGroups(states, state, letter, nlist.GetPos(), used);
+			if (UpdateNList(nlist, states))
+				break;
 		}
 		DoSwap(clist, nlist);
 		return 0;
-- 
2.43.0


From 6f2339e298adc111bb3dd2159e44015c828cf1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 50/60] fix: pire_inline recognizes the ends of comments

An unterminated comment made pire_inline write zeros forever, and a line comment
at the end of file or continued with a backslash was not taken for a comment.
---
 pire/inline.lpp | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 733057f..b23b61c 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -65,9 +65,8 @@ Die DieHelper() {
 	return Die();
 }
 
-void putChar(char c) { putc(c, yyout); }
-void suppressChar(char) {}
-void eatComment(void (*action)(char));
+void echo();
+void countLines();
 
 #define YY_FATAL_ERROR(msg) DieHelper() << msg
 %}
@@ -75,10 +74,11 @@ void eatComment(void (*action)(char));
 %%
 
 
-<INITIAL>"/*"            { eatComment(putChar); }
-<Regexp>"/*"             { eatComment(suppressChar); }
-<INITIAL>"//".*\n        { ++line; fprintf(yyout, "%s", yytext); }
-<Regexp>"//".*\n         { ++line; }
+<INITIAL>"/*"([^*]|\*+[^*/])*\*+"/"        { echo(); }
+<Regexp>"/*"([^*]|\*+[^*/])*\*+"/"         { countLines(); }
+<INITIAL,Regexp>"/*"                       { Die() << "EOF in comment"; }
+<INITIAL>"//"([^\\\n]|\\(.|\r?\n))*        { echo(); }
+<Regexp>"//"([^\\\n]|\\(.|\r?\n))*         { countLines(); }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
 "\""([^\"\\]|\\.)*"\""   { fprintf(yyout, "%s", yytext); }
 "'"([^\'\\\n]|\\.)*"'"   { fprintf(yyout, "%s", yytext); }
@@ -215,28 +215,17 @@ void eatComment(void (*action)(char));
 
 %%
 
-void eatComment(void (*action)(char))
+void countLines()
 {
-	int c;
-	action('/'); action('*');
-	for (;;) {
-		while ((c = yyinput()) != EOF && c != '*') {
-			if (c == '\n')
-				++line;
-			action(c);
-		}
-		if (c == '*') {
-			action(c);
-			while ((c = yyinput()) == '*')
-				action(c);
-			if (c == '/') {
-				action(c);
-				break;
-			}
-		}
-		if (c == EOF)
-			Die() << "EOF in comment";
-	}
+	for (int i = 0; i < yyleng; ++i)
+		if (yytext[i] == '\n')
+			++line;
+}
+
+void echo()
+{
+	countLines();
+	fwrite(yytext, 1, yyleng, yyout);
 }
 
 int yywrap() { return 1; }
-- 
2.43.0


From 7c50fbf7b8ba8f54ae551b9342cd9bef65cce792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 51/60] fix: pire_inline handles line continuations and zero
 bytes in string literals

A string literal continued with a backslash at the end of a line was not taken
for a literal, and zero bytes cut literals short.
---
 pire/inline.lpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index b23b61c..e2b666a 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -80,20 +80,22 @@ void countLines();
 <INITIAL>"//"([^\\\n]|\\(.|\r?\n))*        { echo(); }
 <Regexp>"//"([^\\\n]|\\(.|\r?\n))*         { countLines(); }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
-"\""([^\"\\]|\\.)*"\""   { fprintf(yyout, "%s", yytext); }
-"'"([^\'\\\n]|\\.)*"'"   { fprintf(yyout, "%s", yytext); }
+"\""([^\"\\]|\\(.|\n))*"\""   { echo(); }
+"'"([^\'\\\n]|\\(.|\n))*"'"   { echo(); }
 \n                       { ++line; putc('\n', yyout); }
 
 
 <INITIAL>"PIRE_REGEXP"[ \t]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
-<Regexp>"\""([^\"\\]|\\.)*"\"" {
+<Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
 	ystring& s = args.back();
 	const char* p;
-	for (p = yytext + 1; *p && p[1]; ++p) {
+	const char* end = yytext + yyleng - 1;
+	countLines();
+	for (p = yytext + 1; p != end; ++p) {
 		if (*p == '\\') {
 			++p;
-			if (!*p)
-				Die() << "string ends with a backslash";
+			if (*p == '\n' || (*p == '\r' && p[1] == '\n' && ++p))
+				; // a line break after a backslash is not a part of the string
 			else if (*p == '\'' || *p == '\"' || *p == '\\')
 				s.push_back(*p);
 			else if (*p == 'n')
@@ -117,8 +119,6 @@ void countLines();
 		} else
 			s.push_back(*p);
 	}
-	if (!*p)
-		Die() << "string ends with a backslash";
 }
 <Regexp>[ \t]            {}
 <Regexp>\n               { ++line; }
-- 
2.43.0


From cacbf5b5b6322e91a891526014f3b15d53815a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 52/60] fix: pire_inline reports unexpected text and end of
 file in PIRE_REGEXP

Anything but strings, commas and comments in the arguments was moved out in front
of the scanner, and an unterminated PIRE_REGEXP silently ended the output.
---
 pire/inline.lpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index e2b666a..e414c65 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -120,7 +120,7 @@ void countLines();
 			s.push_back(*p);
 	}
 }
-<Regexp>[ \t]            {}
+<Regexp>[ \t\r\f\v]      {}
 <Regexp>\n               { ++line; }
 <Regexp>","              { args.push_back(ystring()); }
 <Regexp>")" {
@@ -208,6 +208,8 @@ void countLines();
 		(unsigned int) buf.Buffer().Size(), line, filename.c_str());
 	BEGIN(INITIAL);
 }
+<Regexp>.                { Die() << "unexpected character (" << *yytext << ") in PIRE_REGEXP"; }
+<Regexp><<EOF>>          { Die() << "EOF in PIRE_REGEXP"; }
 <INITIAL>.               { putc(*yytext, yyout); }
 
 
-- 
2.43.0


From bf82fc301d6305ad1fde8463eaea96967ba6f477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 53/60] fix: pire_inline does not take a part of an identifier
 for PIRE_REGEXP

---
 pire/inline.lpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index e414c65..2da30b1 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -85,6 +85,7 @@ void countLines();
 \n                       { ++line; putc('\n', yyout); }
 
 
+<INITIAL>[A-Za-z0-9_]+   { echo(); }
 <INITIAL>"PIRE_REGEXP"[ \t]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
 <Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
 	ystring& s = args.back();
-- 
2.43.0


From 4a74292fc8a712dcc4f5807d28eb93fa68870789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:05 +0000
Subject: [PATCH 54/60] fix: pire_inline recognizes raw string literals

---
 pire/inline.lpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 2da30b1..f978608 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -35,6 +35,7 @@
 ystring filename = "";
 int line = 1;
 TVector<ystring> args;
+ystring rawDelim;
 
 #ifdef _WIN32
 static int isatty(int) { return 0; }
@@ -71,6 +72,8 @@ void countLines();
 #define YY_FATAL_ERROR(msg) DieHelper() << msg
 %}
 %x Regexp
+%x RawString
+RAW_DELIM [^ ()\\\t\v\f\n\"]{0,16}
 %%
 
 
@@ -85,6 +88,20 @@ void countLines();
 \n                       { ++line; putc('\n', yyout); }
 
 
+<INITIAL>(u8|[uUL])?"R\""{RAW_DELIM}"(" {
+	echo();
+	rawDelim = ystring(yytext, 0, yyleng - 1);
+	rawDelim.erase(0, rawDelim.find('"') + 1);
+	BEGIN(RawString);
+}
+<RawString>")"{RAW_DELIM}"\"" {
+	echo();
+	if (rawDelim == ystring(yytext + 1, yyleng - 2))
+		BEGIN(INITIAL);
+}
+<RawString>.|\n          { echo(); }
+<RawString><<EOF>>       { Die() << "EOF in raw string"; }
+
 <INITIAL>[A-Za-z0-9_]+   { echo(); }
 <INITIAL>"PIRE_REGEXP"[ \t]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
 <Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
-- 
2.43.0


From 821413943bd2f122eb4771db2135ca50ffc7bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:29 +0000
Subject: [PATCH 55/60] fix: pire_inline reports failures to write its output

---
 pire/inline.lpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index f978608..b9d8b0c 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -280,6 +280,8 @@ int main(int argc, char** argv)
 
 		fprintf(yyout, "#line 1 \"%s\"\n", filename.c_str());
 		yylex();
+		if (fclose(yyout))
+			Die() << "cannot write output file";
 		return 0;
 	}
 	catch (std::exception& e) {
-- 
2.43.0


From a0e42bad36d493864b1a2c15e2d1090062880bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 56/60] fix: ToString keeps the whole text

It returned only the first word of a string and threw on an empty one, so messages
of pire_inline were cut.
---
 pire/stub/lexical_cast.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pire/stub/lexical_cast.h b/pire/stub/lexical_cast.h
index ac2a459..b6f1a19 100644
--- a/pire/stub/lexical_cast.h
+++ b/pire/stub/lexical_cast.h
@@ -59,7 +59,12 @@ template<class T, class F> struct LexicalCaster {
 
 template<class T, class F> T LexicalCast(const F& f) { return LexicalCaster<T, F>::lexical_cast(f); }
 	
-template<class F> std::string ToString(const F& f) { return LexicalCast<std::string>(f); }
+template<class F> std::string ToString(const F& f)
+{
+	std::stringstream s;
+	s << f;
+	return s.str();
+}
 template<class T> T FromString(const std::string& s) { return LexicalCast<T>(s); }
 
 template<class Iter>
-- 
2.43.0


From b4ef66f2cd1d08bd0715a600134426b1c744ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:12 +0000
Subject: [PATCH 57/60] fix: letters of removed transitions are not outgoing
 ones

---
 pire/fsm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index bbf6251..06828a4 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -239,7 +239,8 @@ TSet<Char> Fsm::OutgoingLetters(size_t state) const
 {
 	TSet<Char> ret;
 	for (auto&& i : m_transitions[state])
-		ret.insert(i.first);
+		if (!i.second.empty())
+			ret.insert(i.first);
 	return ret;
 }
 
-- 
2.43.0


From dad34d94d662da8e811f34725fa75472612f182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:46 +0000
Subject: [PATCH 58/60] fix: unpacking letters twice does not undo changes of
 transitions

---
 pire/fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 06828a4..ef2de12 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -875,6 +875,9 @@ void Fsm::Sparse(bool needEpsilons /* = false */)
 
 void Fsm::Unsparse()
 {
+	// Transitions are already unpacked, and might be altered since then
+	if (!m_sparsed)
+		return;
 	for (auto&& letter : letters)
 		for (auto&& i : m_transitions)
 			for (auto&& j : letter.second.second)
-- 
2.43.0


From 10b6ffd5589b0d0c5e70b491970ab0d9746517bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:24 +0000
Subject: [PATCH 59/60] fix: diverted transitions keep their outputs when there
 are others

---
 pire/fsm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index ef2de12..17dc172 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -1264,7 +1264,7 @@ void Fsm::Divert(size_t from, size_t to, size_t dest)
 		if (oi2 != oi->second.end()) {
 			unsigned long output = oi2->second;
 			oi->second.erase(oi2);
-			oi->second.insert(ymake_pair(dest, output));
+			oi->second[dest] |= output;
 		}
 	}
 
-- 
2.43.0


From eaf9e212b44f5c762d149c5a630743194cad14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 60/60] fix: importing an automaton whose letters were unpacked
 brings no old transitions

---
 pire/fsm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 17dc172..c34275a 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -385,7 +385,10 @@ void Fsm::Import(const Fsm& rhs)
 
 	size_t oldsize = Resize(Size() + rhs.Size());
 
+	// Letter classes are only valid while transitions are packed
 	for (auto&& outer : m_transitions) {
+		if (!m_sparsed)
+			break;
 		for (auto&& letter : letters) {
 			auto targets = outer.find(letter.first);
 			if (targets == outer.end())
@@ -405,6 +408,8 @@ void Fsm::Import(const Fsm& rhs)
 			dest->insert(ymake_pair(inner.first, targets));
 		}
 
+		if (!rhs.m_sparsed)
+			continue;
 		for (auto&& letter : rhs.letters) {
 			auto targets = dest->find(letter.first);
 			if (targets == dest->end())
@@ -427,6 +432,7 @@ void Fsm::Import(const Fsm& rhs)
 		tags.insert(ymake_pair(tag.first + oldsize, tag.second));
 
 	letters = LettersTbl(LettersEquality(m_transitions));
+	m_sparsed = false;
 }
 
 void Fsm::Connect(size_t from, size_t to, Char c /* = Epsilon */)
-- 
2.43.0

