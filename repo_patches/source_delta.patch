From 351c18309f9ef88b2231bec2791cf201cc40ae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 01/61] fix: honour a suppression comment that ends the file

Lexer::LexFromRawLexer() returns true once the end of the buffer is reached, also
when it just produced the last token. A "// clazy:skip" (or any other directive)
in a file without trailing newline was thus ignored.
---
 src/SuppressionManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 7a6d9f2..d99d540 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -146,7 +146,9 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
     std::stack<std::pair<LineNumber, std::string>> checkRangeStack;
 
     Token token;
-    while (!lexer.LexFromRawLexer(token)) {
+    bool atEnd = false;
+    while (!atEnd) {
+        atEnd = lexer.LexFromRawLexer(token); // Also true for a last token that ends with the file
         if (token.getKind() != tok::comment) {
             continue;
         }
-- 
2.43.0


From ca51d6e2384dbc866aaef1cb04801db3b05c239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 02/61] fix: NOLINT silences every warning on its line

Only the first warning on a line with NOLINT or NOLINTNEXTLINE was silenced, since
the line was forgotten once a warning had been asked about.
---
 src/SuppressionManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index d99d540..674a80b 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -104,7 +104,6 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     const LineNumber lineNumber = sm.getSpellingLineNumber(loc);
     if (suppressions.skipNextLine.count(lineNumber) > 0) {
-        suppressions.skipNextLine.erase(lineNumber);
         return true;
     }
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
-- 
2.43.0


From df025a4195905d8beed1caab77f9320bac1ceed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 03/61] fix: NOLINT(clazy-a,clazy-b) silences all the listed
 checks

Only one entry per line was kept, so further entries had no effect. A line with a
list also escaped from an enclosing NOLINTBEGIN/NOLINTEND block.
---
 src/SuppressionManager.cpp | 7 +++++--
 src/SuppressionManager.h   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 674a80b..d55d41b 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -109,8 +109,11 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
         return true;
 
-    if (auto it = suppressions.checkWildcardsToSkipByLine.find(lineNumber); it != suppressions.checkWildcardsToSkipByLine.end()) {
-        return it->second.match(checkName);
+    const auto [wildcardsBegin, wildcardsEnd] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
+    if (std::any_of(wildcardsBegin, wildcardsEnd, [&checkName](const auto &lineAndWildcard) {
+            return lineAndWildcard.second.match(checkName);
+        })) {
+        return true;
     }
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 0106a01..089733a 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -45,7 +45,7 @@ public:
         std::set<unsigned> skipNextLine;
         std::set<CheckName> checksToSkip;
         std::set<LineAndCheckName> checksToSkipByLine;
-        std::unordered_map<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
+        std::unordered_multimap<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
         std::vector<CheckBeginAndEnd> checkWildcardsRanges;
     };
 
-- 
2.43.0


From 184fa046321fcfb47811ce1c1b09cffc17adc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 04/61] fix: nested NOLINTBEGIN blocks all count

Only the innermost block around a line was consulted, so an inner block for one
check switched the outer block off.
---
 src/SuppressionManager.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index d55d41b..01ce427 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -116,16 +116,15 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
         return true;
     }
 
-    for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
-        if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
-            return rangeSuppression.checksToSkipWildcard.empty()
-                || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
-                       return regex.match(checkName);
-                   });
+    return std::ranges::any_of(suppressions.checkWildcardsRanges, [&checkName, lineNumber](const CheckBeginAndEnd &rangeSuppression) {
+        if (rangeSuppression.begin > lineNumber || rangeSuppression.end < lineNumber) {
+            return false;
         }
-    }
-
-    return false;
+        return rangeSuppression.checksToSkipWildcard.empty()
+            || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
+                   return regex.match(checkName);
+               });
+    });
 }
 
 void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const clang::LangOptions &lo) const
-- 
2.43.0


From 123b0a5248b916e88a8e52980c0e2a342b6945a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 05/61] fix: NOLINTBEGIN for other tools' checks does not
 silence clazy

A block such as NOLINTBEGIN(bugprone-foo) resulted in an empty list of clazy
checks, which is how a block for all checks is represented.
---
 src/SuppressionManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 01ce427..027ce14 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -174,8 +174,11 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
                     llvm::errs() << "unmatched 'NOLINTEND' comment without a previous 'NOLINTBEGIN' comment\n";
                 } else {
                     const auto [beginLineNumber, disabledChecks] = checkRangeStack.top();
+                    auto wildcards = splitDisabledChecksText(disabledChecks);
+                    if (disabledChecks.empty() || !wildcards.empty()) { // A list naming no clazy check does not concern us
+                        suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{std::move(wildcards), beginLineNumber, lineNumber});
+                    }
                     checkRangeStack.pop();
-                    suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{splitDisabledChecksText(disabledChecks), beginLineNumber, lineNumber});
                 }
 
             } else {
-- 
2.43.0


From 64195088f8f76c3323455d7b865a219b54c4965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 06/61] fix: accept blanks behind the comma of a NOLINT list

"NOLINTNEXTLINE(clazy-qfileinfo-exists, clazy-qstring-arg)", the example of the
release notes, only silenced the first check.
---
 src/SuppressionManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 027ce14..5fac115 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -53,9 +53,10 @@ static std::string parseDisabledChecks(const std::string &comment, size_t parent
 static std::vector<llvm::Regex> splitDisabledChecksText(const std::string &disableText)
 {
     std::vector<llvm::Regex> disabledChecksRegexes;
-    for (const auto &split : clazy::splitString(disableText, ',')) {
-        if (split.find("clazy-") == 0) {
-            StringRef sanitizedCheckName = llvm::StringRef(split).substr(strlen("clazy-")).rtrim();
+    for (const auto &entry : clazy::splitString(disableText, ',')) {
+        const StringRef split = llvm::StringRef(entry).trim();
+        if (split.starts_with("clazy-")) {
+            StringRef sanitizedCheckName = split.substr(strlen("clazy-"));
             disabledChecksRegexes.push_back(createRegexFromGlob(sanitizedCheckName));
         }
     }
-- 
2.43.0


From a1a64a050bb4da9c8cac04084287b2a3d92047f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 07/61] fix: line filter numbers beyond 32 bits are not
 truncated

---
 src/ClazyContext.cpp | 4 ++--
 src/ClazyContext.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index c870795..d8d8d77 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -64,7 +64,7 @@ static std::vector<ClazyContext::LineFilterEntry> parseLineFilter(const std::str
                 std::optional<int64_t> start = (*range)[0].getAsInteger();
                 std::optional<int64_t> end = (*range)[1].getAsInteger();
                 if (start && end) {
-                    entry.lineRanges.push_back({static_cast<unsigned>(*start), static_cast<unsigned>(*end)});
+                    entry.lineRanges.push_back({*start, *end});
                 }
             }
         }
@@ -203,7 +203,7 @@ bool ClazyContext::passesLineFilter(clang::SourceLocation loc) const
     }
 
     const llvm::StringRef fileName(ploc.getFilename());
-    const unsigned line = ploc.getLine();
+    const int64_t line = ploc.getLine();
 
     for (const LineFilterEntry &entry : m_lineFilter) {
         // clang-tidy matches by filename suffix, which copes with relative paths from a diff.
diff --git a/src/ClazyContext.h b/src/ClazyContext.h
index d532e2a..3531935 100644
--- a/src/ClazyContext.h
+++ b/src/ClazyContext.h
@@ -61,8 +61,8 @@ public:
     using OptionalFileEntryRef = clang::CustomizableOptional<clang::FileEntryRef>;
 
     struct LineRange {
-        unsigned start;
-        unsigned end;
+        int64_t start;
+        int64_t end;
     };
     struct LineFilterEntry {
         std::string fileName;
-- 
2.43.0


From aacdb5df40d4cc7680e01fd5f7ddd21a00e2bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 08/61] fix: -only-qt looks at each translation unit's own
 defines

---
 src/ClazyContext.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index d8d8d77..c9b7ad0 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -17,6 +17,7 @@
 #include <llvm/Support/JSON.h>
 #include <llvm/Support/Regex.h>
 
+#include <algorithm>
 #include <cstdlib>
 
 using namespace clang;
@@ -171,16 +172,10 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 
 bool ClazyContext::isQt() const
 {
-    static const bool s_isQt = [this] {
-        for (const auto &s : m_pp.Macros) {
-            if (s.first == "QT_CORE_LIB") {
-                return true;
-            }
-        }
-        return false;
-    }();
-
-    return s_isQt;
+    // Not cached in a static: clazy-standalone processes several translation units, each with its own defines
+    return std::ranges::any_of(m_pp.Macros, [](const auto &s) {
+        return s.first == "QT_CORE_LIB";
+    });
 }
 std::string ClazyContext::qtNamespace() const
 {
-- 
2.43.0


From cebc7818fcb83b3055c2642236ec4313dca73f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 09/61] fix: a warning's text is not a format string

---
 src/ClazyClangTidyModule.cpp | 2 +-
 src/ClazyContext.cpp         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index 1573384..d51fa93 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -138,7 +138,7 @@ public:
                clang::DiagnosticIDs::Level level,
                std::string error,
                const std::vector<clang::FixItHint> &fixits) {
-            clangTidyContext->diag("clazy-" + checkName, loc, error, level) << fixits;
+            clangTidyContext->diag("clazy-" + checkName, loc, "%0", level) << error << fixits; // The text may contain '%', it's not a format string
         };
 };
 
diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index c9b7ad0..3f3c3e1 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -102,8 +102,9 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
                                                         std::string error,
                                                         const std::vector<clang::FixItHint> &fixits) {
         auto &engine = astContext->getDiagnostics();
-        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, error.c_str());
+        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0"); // The text may contain '%', it's not a format string
         DiagnosticBuilder B = engine.Report(loc, id);
+        B << error;
         for (const FixItHint &fixit : fixits) {
             if (!fixit.isNull()) {
                 B.AddFixItHint(fixit);
-- 
2.43.0


From e9c6ec6fa283ab914c01f72198a43b36fe7a0868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 10/61] fix: reserve-candidates uses each translation unit's
 own Qt namespace

---
 src/QtUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 402eb1b..a25c7ea 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -313,7 +313,7 @@ bool clazy::isAReserveClass(CXXRecordDecl *recordDecl, const std::string &qtName
         return false;
     }
 
-    static const std::vector<std::string> classes = {
+    const std::vector<std::string> classes = {
         clazy::qtNamespaced("QVector", qtNamespace),
         "std::vector",
         clazy::qtNamespaced("QList", qtNamespace),
-- 
2.43.0


From ce5782fb509d94ed847280a99b9feab6315f34c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 11/61] fix: -DQT_CORE_LIB=1 defines QT_CORE_LIB, -UQT_CORE_LIB
 does not

Predefined macros were looked up by the whole -D argument, ignoring -U.
---
 src/ClazyContext.cpp |  5 ++---
 src/MacroUtils.h     | 11 ++++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 3f3c3e1..6c305f5 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -7,6 +7,7 @@
 #include "ClazyContext.h"
 #include "AccessSpecifierManager.h"
 #include "FixItExporter.h"
+#include "MacroUtils.h"
 #include "PreProcessorVisitor.h"
 #include "checkmanager.h"
 
@@ -174,9 +175,7 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 bool ClazyContext::isQt() const
 {
     // Not cached in a static: clazy-standalone processes several translation units, each with its own defines
-    return std::ranges::any_of(m_pp.Macros, [](const auto &s) {
-        return s.first == "QT_CORE_LIB";
-    });
+    return clazy::isPredefined(m_pp, "QT_CORE_LIB");
 }
 std::string ClazyContext::qtNamespace() const
 {
diff --git a/src/MacroUtils.h b/src/MacroUtils.h
index 7849255..fec3992 100644
--- a/src/MacroUtils.h
+++ b/src/MacroUtils.h
@@ -31,15 +31,16 @@ namespace clazy
  */
 inline bool isPredefined(const clang::PreprocessorOptions &ppOpts, const llvm::StringRef &macroName)
 {
-    const auto &macros = ppOpts.Macros;
+    bool defined = false;
 
-    for (const auto &macro : macros) {
-        if (macro.first == macroName) {
-            return true;
+    for (const auto &[macro, isUndef] : ppOpts.Macros) {
+        // -Dfoo, -Dfoo=1 or -Ufoo, the last one wins
+        if (llvm::StringRef(macro).split('=').first == macroName) {
+            defined = !isUndef;
         }
     }
 
-    return false;
+    return defined;
 }
 
 /**
-- 
2.43.0


From ba0d745f022ba257dd8011aa2c6785ed65f51932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 12/61] fix: clang-tidy plugin analyses every translation unit,
 not only the first

The list of enabled checks was never emptied, so that no check felt
responsible for the following translation units.
---
 src/ClazyClangTidyModule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index d51fa93..cdfa386 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -75,6 +75,8 @@ public:
 
     void registerMatchers(ast_matchers::MatchFinder *Finder) override
     {
+        // All checks of this translation unit are known now, the next translation unit creates its own
+        const auto enabledChecks = std::exchange(s_enabledChecks, {});
         if (!m_shouldRunClazyChecks) {
             return;
         }
@@ -83,7 +85,7 @@ public:
         const auto checks = CheckManager::instance()->availableChecks(ManualCheckLevel);
         for (const auto &availCheck : checks) {
             const std::string checkName = "clazy-" + availCheck.name;
-            if (std::ranges::find(s_enabledChecks, checkName) == s_enabledChecks.end()) {
+            if (std::ranges::find(enabledChecks, checkName) == enabledChecks.end()) {
                 continue;
             }
             auto *check = availCheck.factory();
-- 
2.43.0


From f7effbdb5c53475afc25a3a06249244ecaaff92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 13/61] fix: exported message and name of warnings without
 [-Wclazy-...] tag

E.g. the "Type declared here:" of missing-typeinfo was exported under the
name "pe declared here:".
---
 src/FixItExporter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2e5fe40..fe77938 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -81,13 +81,15 @@ tooling::Diagnostic FixItExporter::ConvertDiagnostic(const Diagnostic &Info)
     std::string checkName = DiagEngine.getDiagnosticIDs()->getWarningOptionForDiag(Info.getID()).str();
     std::string messageText;
 
-    if (checkName.empty()) {
+    const llvm::StringRef text = TmpMessageText;
+    const size_t tag = checkName.empty() && text.ends_with("]") ? text.rfind(" [-W") : llvm::StringRef::npos;
+    if (tag != llvm::StringRef::npos) {
         // Non-built-in clang warnings have the [checkName] in the message
-        messageText = TmpMessageText.slice(0, TmpMessageText.find_last_of('[') - 1).str();
+        messageText = text.slice(0, tag).str();
 
-        checkName = TmpMessageText.slice(TmpMessageText.find_last_of('[') + 3, TmpMessageText.find_last_of(']')).str();
+        checkName = text.slice(tag + 4, text.size() - 1).str();
     } else {
-        messageText = TmpMessageText.c_str();
+        messageText = text.str();
     }
 
     llvm::StringRef CurrentBuildDir; // Not needed?
-- 
2.43.0


From 6eca6f53e8bc779e4bf9bda2097bf49d22688326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 14/61] fix: exported diagnostics keep their notes

They were added to a copy.
---
 src/FixItExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index fe77938..a188b5d 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -169,7 +169,7 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
         const auto FileName = SourceMgr.getFilename(Info.getLocation());
         llvm::errs() << "Handling Note for " << FileName.str() << "\n";
 #endif
-        auto diags = getTuDiag().Diagnostics.back();
+        auto &diags = getTuDiag().Diagnostics.back();
         auto diag = ConvertDiagnostic(Info);
         diags.Notes.append(1, diag.Message);
     } else {
-- 
2.43.0


From 2d19aba7a20f3ad6c89de7b345f9ff9af0d2a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 15/61] fix: clazy-standalone exports fix-its even if a
 translation unit cannot be processed

Nothing was written unless as many translation units were processed as were
named on the command line.
---
 src/ClazyContext.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 6c305f5..a9b49ab 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -145,17 +145,11 @@ ClazyContext::~ClazyContext()
     delete accessSpecifierManager;
     delete parentMap;
 
-    static unsigned long count = 0;
-    count++;
-
     if (exporter) {
-        // With clazy-standalone we use the same YAML file for all translation-units, so only
-        // write out the last one. With clazy-plugin there's a YAML file per translation unit.
-        const bool isClazyPlugin = m_translationUnitPaths.empty();
-        const bool isLast = count == m_translationUnitPaths.size();
-        if (isLast || isClazyPlugin) {
-            exporter->Export();
-        }
+        // With clazy-standalone we use the same YAML file for all translation-units. It's written after each
+        // of them, as we can't tell which is the last one: some might be missing or not have a compile command.
+        // With clazy-plugin there's a YAML file per translation unit.
+        exporter->Export();
         delete exporter;
     }
 
-- 
2.43.0


From 072acfe4ced430704ef14e2de08445441c04c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 16/61] fix: warnings promoted to errors are exported, too

CLAZY_CHECKS_AS_ERRORS lost the fix-its of the promoted checks.
---
 src/FixItExporter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index a188b5d..e78f4bd 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -141,8 +141,13 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
     }
 
     // Convert and record warning diagnostics and their notes
-    if (DiagLevel == DiagnosticsEngine::Warning) {
-        auto ToolingDiag = ConvertDiagnostic(Info);
+    auto ToolingDiag = ConvertDiagnostic(Info);
+    // A warning might have been promoted to an error (CLAZY_CHECKS_AS_ERRORS, -Werror), it has a name then. Other errors aren't exported
+    const bool isPromotedWarning = DiagLevel == DiagnosticsEngine::Error && !ToolingDiag.DiagnosticName.empty();
+    if (DiagLevel == DiagnosticsEngine::Warning || isPromotedWarning) {
+        if (isPromotedWarning) {
+            ToolingDiag.DiagLevel = tooling::Diagnostic::Error;
+        }
         for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {
             const FixItHint &Hint = Info.getFixItHint(Idx);
             const auto replacement = ConvertFixIt(Hint);
@@ -170,8 +175,7 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
         llvm::errs() << "Handling Note for " << FileName.str() << "\n";
 #endif
         auto &diags = getTuDiag().Diagnostics.back();
-        auto diag = ConvertDiagnostic(Info);
-        diags.Notes.append(1, diag.Message);
+        diags.Notes.append(1, ToolingDiag.Message);
     } else {
         m_recordNotes = false;
     }
-- 
2.43.0


From 6535be07e756a851d3c1cc2157263f65a1927502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 17/61] fix: warnings promoted to errors don't hide the AST
 from the checks

---
 src/ClazyContext.h       | 1 +
 src/ClazyVisitHelper.cpp | 2 +-
 src/checkbase.cpp        | 5 +++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ClazyContext.h b/src/ClazyContext.h
index 3531935..39e1ba7 100644
--- a/src/ClazyContext.h
+++ b/src/ClazyContext.h
@@ -208,6 +208,7 @@ public:
     const std::vector<std::string> m_translationUnitPaths;
     const clang::PreprocessorOptions m_pp;
     const WarningReporter p_warningReporter;
+    mutable clang::DiagnosticErrorTrap compilerErrors{sm.getDiagnostics()}; // Errors which aren't promoted clazy warnings
 
     const bool m_isClangTidy;
 };
diff --git a/src/ClazyVisitHelper.cpp b/src/ClazyVisitHelper.cpp
index d263a27..c18eb85 100644
--- a/src/ClazyVisitHelper.cpp
+++ b/src/ClazyVisitHelper.cpp
@@ -57,7 +57,7 @@ bool VisitStmt(Stmt *stmt, ClazyContext *context, const Visitors &visitors)
     }
 
     if (!context->parentMap) {
-        if (context->astContext->getDiagnostics().hasUnrecoverableErrorOccurred()) {
+        if (context->astContext->getDiagnostics().hasUnrecoverableErrorOccurred() && context->compilerErrors.hasUnrecoverableErrorOccurred()) {
             return false; // ParentMap sometimes crashes when there were errors. Doesn't like a botched AST.
         }
 
diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index f353df4..4478bd2 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -272,7 +272,12 @@ void CheckBase::reallyEmitWarning(clang::SourceLocation loc, const std::string &
         ? DiagnosticIDs::Error
         : DiagnosticIDs::Warning;
 
+    // A warning promoted to an error doesn't mean that the AST is broken
+    const bool hadCompilerErrors = m_context->compilerErrors.hasUnrecoverableErrorOccurred();
     m_context->p_warningReporter(name(), loc, severity, error, fixits);
+    if (!hadCompilerErrors) {
+        m_context->compilerErrors.reset();
+    }
 }
 
 void CheckBase::queueManualFixitWarning(clang::SourceLocation loc, const std::string &message)
-- 
2.43.0


From a5256525f1c64e23b1b80c1e9091b58c8743a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 18/61] fix: qproperty-without-notify: words of Q_PROPERTY may
 be separated by any white space

---
 src/checks/level1/qproperty-without-notify.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/checks/level1/qproperty-without-notify.cpp b/src/checks/level1/qproperty-without-notify.cpp
index d2f4f96..811ca0f 100644
--- a/src/checks/level1/qproperty-without-notify.cpp
+++ b/src/checks/level1/qproperty-without-notify.cpp
@@ -55,13 +55,12 @@ void QPropertyWithoutNotify::VisitMacroExpands(const clang::Token &MacroNameTok,
         text.pop_back();
     }
 
-    std::vector<std::string> split = clazy::splitString(text, ' ');
+    const std::vector<std::string_view> split = clazy::splitStringBySpaces(text);
 
     bool found_read = false;
     bool found_constant = false;
     bool found_notify = false;
-    for (std::string &token : split) {
-        clazy::rtrim(/*by-ref*/ token);
+    for (const std::string_view token : split) {
         if (!found_read && token == "READ") {
             found_read = true;
             continue;
-- 
2.43.0


From 0ed8f5934cab37bc3f2bfdf2c98b5bac5a8ce6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 19/61] fix: qproperty-type-mismatch: stay within the text of
 incomplete Q_PROPERTYs

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 6ae66b0..bddc18c 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -212,10 +212,10 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
 
     llvm::StringRef text = Lexer::getSourceText(crange, sm(), lo());
 
-    const auto openingLParen = std::find_if_not(text.begin() + q_property.size(), text.end(), [](char c) {
+    const auto openingLParen = std::find_if_not(text.begin() + std::min(q_property.size(), text.size()), text.end(), [](char c) {
         return std::isspace(c);
     });
-    if (*openingLParen != '(') {
+    if (openingLParen == text.end() || *openingLParen != '(') {
         emitWarning(range.getBegin(), "Could not parse argument of the Q_PROPERTY macro");
         return;
     }
@@ -243,9 +243,12 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
         return str == "*"sv || str == "&"sv;
     };
 
-    for (; isModifier(split[splitIndex]) || p.type.empty(); ++splitIndex) {
+    for (; splitIndex < split.size() && (isModifier(split[splitIndex]) || p.type.empty()); ++splitIndex) {
         p.type += split[splitIndex];
     }
+    if (splitIndex == split.size()) {
+        return; // There is no name
+    }
 
     // Handle name
     p.name = split[splitIndex];
-- 
2.43.0


From 9169970bce51c01c0fe1c04bc1fb0d8902cb0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 20/61] fix: use-chrono-in-qtimer: do not divide by zero

---
 src/checks/manuallevel/use-chrono-in-qtimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/use-chrono-in-qtimer.cpp b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
index 28b00f5..813a479 100644
--- a/src/checks/manuallevel/use-chrono-in-qtimer.cpp
+++ b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
@@ -35,7 +35,7 @@ static int unpackValue(clang::Expr *expr)
         return left * right;
     }
 
-    if (binaryOp->getOpcode() == BO_Div) {
+    if (binaryOp->getOpcode() == BO_Div && right != 0) {
         return left / right;
     }
 
-- 
2.43.0


From 0dd7d78253f434bc13d5fbc022bc82e0923ee8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 21/61] fix: PreProcessorVisitor: keep included names, remember
 moc files too

hasInclude() compared against dangling StringRefs, and since .moc includes
were dropped missing-qobject-macro included the moc file a second time.
---
 src/PreProcessorVisitor.cpp | 12 +++++++-----
 src/PreProcessorVisitor.h   |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/PreProcessorVisitor.cpp b/src/PreProcessorVisitor.cpp
index 32bc1ec..7a8c27e 100644
--- a/src/PreProcessorVisitor.cpp
+++ b/src/PreProcessorVisitor.cpp
@@ -70,10 +70,12 @@ bool PreProcessorVisitor::hasInclude(const std::string &fileName, bool IsAngled)
 
 SourceLocation PreProcessorVisitor::endOfIncludeSection() const
 {
-    if (m_includeInfo.empty()) {
-        return {};
+    for (auto it = m_includeInfo.crbegin(); it != m_includeInfo.crend(); ++it) {
+        if (!clazy::endsWith(it->fileName, ".moc")) { // moc files are included at the end of the file
+            return it->filenameRange.getEnd();
+        }
     }
-    return m_includeInfo.back().filenameRange.getEnd();
+    return {};
 }
 
 std::string PreProcessorVisitor::getTokenSpelling(const MacroDefinition &def) const
@@ -185,7 +187,7 @@ void PreProcessorVisitor::InclusionDirective(clang::SourceLocation,
                                              bool,
                                              clang::SrcMgr::CharacteristicKind)
 {
-    if (m_pp.isInPrimaryFile() && !clazy::endsWith(FileName.str(), ".moc")) {
-        m_includeInfo.push_back(IncludeInfo{FileName, IsAngled, FilenameRange});
+    if (m_pp.isInPrimaryFile()) {
+        m_includeInfo.push_back(IncludeInfo{FileName.str(), IsAngled, FilenameRange});
     }
 }
diff --git a/src/PreProcessorVisitor.h b/src/PreProcessorVisitor.h
index 0fb87ba..21fe809 100644
--- a/src/PreProcessorVisitor.h
+++ b/src/PreProcessorVisitor.h
@@ -88,7 +88,7 @@ private:
     const clang::Preprocessor &m_pp;
 
     struct IncludeInfo {
-        clang::StringRef fileName;
+        std::string fileName;
         bool IsAngled;
         clang::CharSourceRange filenameRange;
     };
-- 
2.43.0


From ac7cb24bdd47a8127a0c77b2b6c0062cf3704eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 22/61] fix: qproperty-type-mismatch: MEMBER names the member
 variable

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 14 ++++++++++----
 src/checks/manuallevel/qproperty-type-mismatch.h   |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index bddc18c..1f5a6b6 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -168,7 +168,7 @@ void QPropertyTypeMismatch::checkMethodAgainstProperty(const Property &prop, con
 
 void QPropertyTypeMismatch::checkFieldAgainstProperty(const Property &prop, const FieldDecl &field, const std::string &fieldName)
 {
-    if (prop.member && prop.name == fieldName) {
+    if (!prop.member.empty() && prop.member == fieldName) {
         std::string typeStr;
         if (!typesMatch(prop.type, field.getType(), typeStr)) {
             emitWarning(&field,
@@ -269,7 +269,7 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
     }
 
     // Handle Q_PROPERTY functions
-    enum { None, Read, Write, Notify } next = None;
+    enum { None, Read, Write, Notify, Member } next = None;
 
     for (const std::string_view &token : split) {
         switch (next) {
@@ -284,8 +284,8 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
                 next = Notify;
                 continue;
             } else if (token == "MEMBER"sv) {
-                p.member = true;
-                break;
+                next = Member;
+                continue;
             }
             break;
         }
@@ -298,10 +298,16 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
         case Notify:
             p.notify = token;
             break;
+        case Member:
+            p.member = token;
+            break;
         }
 
         next = None;
     }
+    if (next == Member) {
+        p.member = p.name; // It isn't named
+    }
 
     m_qproperties.push_back(std::move(p));
 }
diff --git a/src/checks/manuallevel/qproperty-type-mismatch.h b/src/checks/manuallevel/qproperty-type-mismatch.h
index 557350f..c894242 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.h
+++ b/src/checks/manuallevel/qproperty-type-mismatch.h
@@ -42,7 +42,7 @@ private:
 
     struct Property {
         clang::SourceLocation loc;
-        bool member{};
+        std::string member;
         std::string name;
         std::string type;
         std::string read;
-- 
2.43.0


From 83ab93891d015f592d53b0887e225c6470b0311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 23/61] fix: isempty-vs-count: do not crash on initializers of
 globals

---
 src/checks/manuallevel/isempty-vs-count.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/isempty-vs-count.cpp b/src/checks/manuallevel/isempty-vs-count.cpp
index 2ffb9a5..6b0f6d2 100644
--- a/src/checks/manuallevel/isempty-vs-count.cpp
+++ b/src/checks/manuallevel/isempty-vs-count.cpp
@@ -102,7 +102,7 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
     SourceRange fixitRange = memberCall->getSourceRange();
     std::string operatorPrefix = "!";
     auto *parent = m_context->parentMap->getParent(stmt);
-    if (auto unaryOp = dyn_cast<UnaryOperator>(parent)) {
+    if (auto unaryOp = dyn_cast_or_null<UnaryOperator>(parent)) { // no parent if it's the initializer of a global
         if (unaryOp->getOpcode() == UnaryOperator::Opcode::UO_LNot) {
             operatorPrefix = "";
             fixitRange = unaryOp->getSourceRange();
-- 
2.43.0


From d5d6d1c59926bd277a9f63ead5f470e7686f04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 24/61] fix: detaching-temporary: allow chained calls of
 QHash::values() too

---
 src/checks/level1/detaching-temporary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/detaching-temporary.cpp b/src/checks/level1/detaching-temporary.cpp
index 9ceb477..8b43c6e 100644
--- a/src/checks/level1/detaching-temporary.cpp
+++ b/src/checks/level1/detaching-temporary.cpp
@@ -59,7 +59,7 @@ bool isAllowedChainedMethod(const std::string &methodName)
         "QMap::keys",
         "QMap::values",
         "QHash::keys",
-        "QMap::values",
+        "QHash::values",
         "QApplication::topLevelWidgets",
         "QAbstractItemView::selectedIndexes",
         "QListWidget::selectedItems",
-- 
2.43.0


From f67def2d8ec5bb7c630b6b8db514c608828264c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 25/61] fix: detaching-member: do not crash on iterators passed
 by reference

---
 src/checks/manuallevel/detaching-member.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/detaching-member.cpp b/src/checks/manuallevel/detaching-member.cpp
index ae7cdf2..a4897b6 100644
--- a/src/checks/manuallevel/detaching-member.cpp
+++ b/src/checks/manuallevel/detaching-member.cpp
@@ -130,8 +130,11 @@ void DetachingMember::VisitStmt(clang::Stmt *stm)
                         ParmVarDecl *param = parentFunc->getParamDecl(i);
 
                         // Check that the record declarations have the same type
-                        if (param->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()
-                            == memberCall->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()) {
+                        const QualType paramType = param->getType().getNonReferenceType();
+                        const RecordDecl *paramRecord = paramType->getAsRecordDecl();
+                        const RecordDecl *iteratorRecord = memberCall->getType()->getAsRecordDecl();
+                        if (paramRecord && iteratorRecord ? paramRecord->getNameAsString() == iteratorRecord->getNameAsString()
+                                                          : astContext()->hasSameUnqualifiedType(paramType, memberCall->getType())) {
                             return;
                         }
                         break;
-- 
2.43.0


From a783ec05b394277839c7f00e6c910c5fdd1b819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 26/61] fix: reserve-candidates: do not crash on methods
 without parameters

---
 src/checks/manuallevel/reserve-candidates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index 7950c4e..92b7c67 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -64,7 +64,7 @@ bool ReserveCandidates::isCandidateMethod(CXXMethodDecl *methodDecl)
         return false;
     }
 
-    if (!clazy::isAReserveClass(classDecl, m_context->qtNamespace())) {
+    if (!clazy::isAReserveClass(classDecl, m_context->qtNamespace()) || methodDecl->getNumParams() == 0) {
         return false;
     }
 
-- 
2.43.0


From 097c0ff0cec9d42e67e6e056281fcaec26572072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 27/61] fix: AccessSpecifierManager: do not crash if
 QT_NAMESPACE is a literal

---
 src/AccessSpecifierManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 7fabf20..d61ca30 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -78,7 +78,7 @@ public:
         IdentifierInfo *ii = MacroNameTok.getIdentifierInfo();
         if (ii && ii->getName() == "QT_NAMESPACE") {
             const auto tokens = MD->getDefinition().getMacroInfo()->tokens();
-            if (tokens.size() == 1) {
+            if (tokens.size() == 1 && tokens.front().getIdentifierInfo()) {
                 m_qtNamespace = tokens.front().getIdentifierInfo()->getName();
             }
         }
-- 
2.43.0


From 2973c99b46df409e6d3f1f0b37a940ab05445b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:30 +0000
Subject: [PATCH 28/61] fix: use-arrow-operator-instead-of-data: remove the dot
 of the call itself only

---
 .../use-arrow-operator-instead-of-data.cpp       | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
index 2a27360..98ac455 100644
--- a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
+++ b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
@@ -53,19 +53,11 @@ void UseArrowOperatorInsteadOfData::VisitStmt(clang::Stmt *stmt)
     constexpr int MinPossibleColonPos = sizeof("QPointer") - 1;
     const std::string ClassName = func.substr(0, func.find(':', MinPossibleColonPos));
 
-    auto begin = callExpr->getExprLoc();
-    const auto end = callExpr->getEndLoc();
-
-    // find '.' in ptr.data()
-    int dotOffset = 0;
-    const char *d = sm().getCharacterData(begin);
-    while (*d != '.') {
-        dotOffset--;
-        d--;
+    // remove ".data()", unless it's called through a pointer (ptr->data()->foo() isn't ptr->foo()) or on "this"
+    auto *member = dyn_cast<MemberExpr>(callExpr->getCallee());
+    if (member && !member->isArrow()) {
+        fixits.push_back(FixItHint::CreateRemoval(SourceRange{member->getOperatorLoc(), callExpr->getEndLoc()}));
     }
-    begin = begin.getLocWithOffset(dotOffset);
-
-    fixits.push_back(FixItHint::CreateRemoval(SourceRange{begin, end}));
 
     emitWarning(callExpr->getBeginLoc(), "Use operator -> directly instead of " + ClassName + "::data()->", fixits);
 }
-- 
2.43.0


From e121a0156dd5027186b553c3ae757b19127e5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:09 +0000
Subject: [PATCH 29/61] fix: detaching checks: replace the whole subscript,
 blanks included

The fix-it for operator[] assumed that the subscript starts one character
after the container and one before its argument, so "list[ 1 ]" became
something that does not compile.
---
 src/checks/detachingbase.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/checks/detachingbase.cpp b/src/checks/detachingbase.cpp
index 9840940..473b5e9 100644
--- a/src/checks/detachingbase.cpp
+++ b/src/checks/detachingbase.cpp
@@ -45,13 +45,9 @@ std::vector<FixItHint> DetachingBase::getFixitHints(StringRef className, StringR
         } else if (auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(callExpr); operatorCall && it->first == "operator[]") {
             StringRef argText = Lexer::getSourceText(CharSourceRange::getTokenRange(operatorCall->getArg(1)->getSourceRange()), sm(), lo());
             std::string operatorRepleacement = ("." + it->second + "(" + argText + ")").str();
-            SourceLocation left;
-            if (isa<MemberExpr>(operatorCall->getArg(0))) {
-                left = operatorCall->getArg(1)->getBeginLoc().getLocWithOffset(-1);
-            } else {
-                // Clang SourcRanges are very confusing. Get the location of the argument to the call and go one to the left. Works in macros too!
-                left = operatorCall->getArg(0)->getEndLoc().getLocWithOffset(1);
-            }
+            // Go from the last token of the container to the one behind it, so that blanks don't matter. Works in macros too!
+            const SourceLocation containerEnd = operatorCall->getArg(0)->getEndLoc();
+            const SourceLocation left = containerEnd.getLocWithOffset(Lexer::MeasureTokenLength(sm().getSpellingLoc(containerEnd), sm(), lo()));
             SourceLocation right = operatorCall->getEndLoc();
             hints.emplace_back(FixItHint::CreateReplacement(SourceRange(left, right), operatorRepleacement));
         }
-- 
2.43.0


From b95a084637a8d0c17689fb5dcdef324671e04da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:10 +0000
Subject: [PATCH 30/61] fix: isempty-vs-count: keep the object expression as
 written in the fix-it

"p->size() == 0" was replaced with "p.isEmpty()", "(*p).size()" with
"*p.isEmpty()" and a call through an implicit this with ".isEmpty()".
---
 src/checks/manuallevel/isempty-vs-count.cpp | 26 ++++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/checks/manuallevel/isempty-vs-count.cpp b/src/checks/manuallevel/isempty-vs-count.cpp
index 6b0f6d2..391e274 100644
--- a/src/checks/manuallevel/isempty-vs-count.cpp
+++ b/src/checks/manuallevel/isempty-vs-count.cpp
@@ -17,11 +17,18 @@
 #include <clang/AST/Stmt.h>
 #include <clang/AST/StmtIterator.h>
 #include <clang/Basic/LLVM.h>
+#include <clang/Lex/Lexer.h>
 #include <llvm/ADT/StringRef.h>
 #include <llvm/Support/Casting.h>
 
 using namespace clang;
 
+// Returns the object the member function is called on, as written, including the "." or "->"; empty for an implicit this
+static std::string textBeforeMember(const MemberExpr *memberExpr, const SourceManager &sm, const LangOptions &lo)
+{
+    return Lexer::getSourceText(CharSourceRange::getCharRange(memberExpr->getBeginLoc(), memberExpr->getMemberLoc()), sm, lo).str();
+}
+
 void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
 {
     if (auto op = dyn_cast<ExprWithCleanups>(stmt)) {
@@ -48,19 +55,22 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
             if (!intliteral) {
                 return;
             }
-            auto *baseExpr = dyn_cast<MemberExpr>(method->getCallee())->getBase()->IgnoreParenImpCasts();
-            StringRef baseText = getSourceText(baseExpr);
+            auto *memberExpr = dyn_cast<MemberExpr>(method->getCallee());
+            if (!memberExpr) {
+                return;
+            }
+            const std::string baseText = textBeforeMember(memberExpr, sm(), lo());
 
             if ((isEqual && intliteral->getValue().isZero()) || (isSmaller && intliteral->getValue().isOne())) {
                 emitWarning(stmt->getBeginLoc(),
                             "use isEmpty() instead",
-                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), baseText.str() + ".isEmpty()")});
+                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), baseText + "isEmpty()")});
             }
 
             if (isGreater && intliteral->getValue().isZero()) {
                 emitWarning(stmt->getBeginLoc(),
                             "use isEmpty() instead",
-                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), "!" + baseText.str() + ".isEmpty()")});
+                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), "!" + baseText + "isEmpty()")});
             }
         }
     }
@@ -84,11 +94,10 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    auto *baseExpr = memberExpr->getBase()->IgnoreParenImpCasts();
+    const std::string baseText = textBeforeMember(memberExpr, sm(), lo());
     if (clazy::classIsOneOf(method->getParent(), {"QMultiHash", "QMultiMap"}) && memberCall->getNumArgs() == 2) {
-        StringRef baseText = getSourceText(baseExpr);
         StringRef argText = getSourceText(memberCall->getArg(0));
-        const auto fixit = FixItHint::CreateReplacement(stmt->getSourceRange(), (baseText + ".contains(" + argText + ")").str());
+        const auto fixit = FixItHint::CreateReplacement(stmt->getSourceRange(), baseText + "contains(" + argText.str() + ")");
 
         emitWarning(stmt->getBeginLoc(), "use contains() instead", {fixit});
         return;
@@ -109,8 +118,7 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    StringRef BaseText = getSourceText(baseExpr);
-    const auto fixit = FixItHint::CreateReplacement(fixitRange, (operatorPrefix + BaseText + ".isEmpty()").str());
+    const auto fixit = FixItHint::CreateReplacement(fixitRange, operatorPrefix + baseText + "isEmpty()");
 
     emitWarning(stmt->getBeginLoc(), "use isEmpty() instead", {fixit});
 }
-- 
2.43.0


From 06142e956d69b904bbacd6e0ca3070ceebcbf2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:10 +0000
Subject: [PATCH 31/61] fix: FixItExporter: do not export ranges with ends in
 different macros

The text between the two ends in the file is not what the fix-it is about.
---
 src/FixItExporter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index e78f4bd..f98eb69 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -149,7 +149,15 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
             ToolingDiag.DiagLevel = tooling::Diagnostic::Error;
         }
         for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {
-            const FixItHint &Hint = Info.getFixItHint(Idx);
+            FixItHint Hint = Info.getFixItHint(Idx);
+            if (SourceMgr.getFileID(Hint.RemoveRange.getBegin()) != SourceMgr.getFileID(Hint.RemoveRange.getEnd())) {
+                // One end is in a macro and the other isn't: what's between them in the file isn't what is to be replaced
+                Hint.RemoveRange = Lexer::makeFileCharRange(Hint.RemoveRange, SourceMgr, LangOpts);
+                if (Hint.RemoveRange.isInvalid()) {
+                    Diag(Info.getLocation(), diag::note_fixit_failed);
+                    continue;
+                }
+            }
             const auto replacement = ConvertFixIt(Hint);
 #ifdef DEBUG_FIX_IT_EXPORTER
             const auto FileName = SourceMgr.getFilename(Info.getLocation());
-- 
2.43.0


From d331013638e9e93ed0af6597b1ce5dcbd2d3816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 32/61] fix: qdatetime-utc: replace the whole second call

With anything between the calls ("currentDateTime() . toUTC()", a new line
or a comment) or a class written with its namespace, what the fix-it left
did not compile.
---
 src/FixItUtils.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/FixItUtils.cpp b/src/FixItUtils.cpp
index 390fb9f..1e0d233 100644
--- a/src/FixItUtils.cpp
+++ b/src/FixItUtils.cpp
@@ -171,14 +171,26 @@ bool clazy::transformTwoCallsIntoOneV2(const ASTContext *context, CXXMemberCallE
         return false;
     }
 
-    SourceLocation start = implicitArgument->getBeginLoc();
-    start = clazy::locForEndOfToken(context, start, 0);
+    const auto *call1 = dyn_cast<CallExpr>(implicitArgument->IgnoreUnlessSpelledInSource());
+    const auto *method1 = call1 ? dyn_cast_or_null<CXXMethodDecl>(call1->getDirectCallee()) : nullptr;
+    if (!method1) {
+        return false;
+    }
+
+    // The class as it's written, if it is: the static method might be called through an object
+    std::string className = clazy::name(method1->getParent()).str();
+    if (const auto *declRef = dyn_cast<DeclRefExpr>(call1->getCallee()->IgnoreParenImpCasts()); declRef && declRef->hasQualifier()) {
+        const auto range = CharSourceRange::getCharRange(declRef->getBeginLoc(), declRef->getQualifierLoc().getEndLoc());
+        className = Lexer::getSourceText(range, context->getSourceManager(), context->getLangOpts()).str();
+    }
+
+    const SourceLocation start = call2->getBeginLoc();
     const SourceLocation end = call2->getEndLoc();
     if (start.isInvalid() || end.isInvalid()) {
         return false;
     }
 
-    fixits.push_back(clazy::createReplacement({start, end}, replacement));
+    fixits.push_back(clazy::createReplacement({start, end}, className + replacement));
     return true;
 }
 
-- 
2.43.0


From b844fcf49e94a7747a5315707bd8f9548d7769b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 33/61] fix: qgetenv: no fix-it if the qgetenv() is hidden in a
 macro

The range would reach from the macro to the call outside of it.
---
 src/checks/level0/qgetenv.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checks/level0/qgetenv.cpp b/src/checks/level0/qgetenv.cpp
index 71cf09b..3cd173e 100644
--- a/src/checks/level0/qgetenv.cpp
+++ b/src/checks/level0/qgetenv.cpp
@@ -100,5 +100,10 @@ void QGetEnv::VisitStmt(clang::Stmt *stmt)
     if (changesToBaseAutodetection) {
         errorMsg += ". This uses internally a base of 0, supporting decimal, hex and octal values";
     }
-    emitWarning(memberCall->getBeginLoc(), errorMsg, {FixItHint::CreateReplacement(stmt->getSourceRange(), replacement + "(" + getEnvArgStr + ")")});
+
+    std::vector<FixItHint> fixits;
+    if (!getEnvArgStr.empty()) { // Not available if qgetenv() itself is hidden in a macro
+        fixits.push_back(FixItHint::CreateReplacement(stmt->getSourceRange(), replacement + "(" + getEnvArgStr + ")"));
+    }
+    emitWarning(memberCall->getBeginLoc(), errorMsg, fixits);
 }
-- 
2.43.0


From 7362628f9a52ae761c9a9ad50b213a9b69ab4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 34/61] fix: qcolor-from-literal: keep a QColor() around
 colours with alpha

If the literal is converted implicitly there is no QColor( ) around it, and
"r, g, b, a" became four arguments of the function called.
---
 src/checks/level0/qcolor-from-literal.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index 73c3fa7..a3579f1 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -113,7 +113,8 @@ public:
                 fixit = "0x" + twoDigit(rColor) + twoDigit(gColor) + twoDigit(bColor);
                 message = "The QColor ctor taking RGB int value is cheaper than one taking string literals";
             }
-            if (isStaticFromString) {
+            const bool isImplicitConversion = result.Nodes.getNodeAs<ImplicitCastExpr>("implicitConversion");
+            if (isStaticFromString || (isImplicitConversion && doubleDigitA)) { // Several values need a constructor call
                 fixit = "QColor(" + fixit + ")";
             }
             m_check->emitWarning(replaceExpr->getBeginLoc(), message, {clang::FixItHint::CreateReplacement(replaceExpr->getSourceRange(), fixit)});
@@ -170,7 +171,10 @@ void QColorFromLiteral::VisitStmt(Stmt *stmt)
 void QColorFromLiteral::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<QColorFromLiteral_Callback>(this);
-    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))),
+    auto implicitConversion = implicitCastExpr(hasCastKind(CK_ConstructorConversion)).bind("implicitConversion");
+    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))),
+                                       hasArgument(0, stringLiteral().bind("myLiteral")),
+                                       optionally(hasParent(expr(anyOf(implicitConversion, cxxBindTemporaryExpr(hasParent(implicitConversion))))))),
                       m_astMatcherCallBack.get());
     finder.addMatcher(callExpr(hasDeclaration(cxxMethodDecl(hasName("fromString"), hasParent(cxxRecordDecl(hasName("QColor")))))).bind("methodCall"),
                       m_astMatcherCallBack.get());
-- 
2.43.0


From 3b6e5d35d36fbd290ab62555528f54f87aa57b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 35/61] fix: auto-unexpected-qstringbuilder: replace just the
 auto

Qualifiers and what stands before them were replaced with it.
---
 .../level1/auto-unexpected-qstringbuilder.cpp    | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/checks/level1/auto-unexpected-qstringbuilder.cpp b/src/checks/level1/auto-unexpected-qstringbuilder.cpp
index 5838be6..2ba1490 100644
--- a/src/checks/level1/auto-unexpected-qstringbuilder.cpp
+++ b/src/checks/level1/auto-unexpected-qstringbuilder.cpp
@@ -16,6 +16,7 @@
 #include <clang/AST/ExprCXX.h>
 #include <clang/AST/Stmt.h>
 #include <clang/AST/Type.h>
+#include <clang/AST/TypeLoc.h>
 #include <clang/Basic/Diagnostic.h>
 #include <clang/Basic/LLVM.h>
 #include <clang/Basic/SourceLocation.h>
@@ -45,16 +46,13 @@ void AutoUnexpectedQStringBuilder::VisitDecl(Decl *decl)
         return;
     }
 
-    std::string replacement = "QString " + clazy::name(varDecl).str();
-
-    if (qualtype.isConstQualified()) {
-        replacement = "const " + replacement;
-    }
-
-    SourceLocation start = varDecl->getBeginLoc();
-    SourceLocation end = varDecl->getLocation();
     std::vector<FixItHint> fixits;
-    fixits.push_back(clazy::createReplacement({start, end}, replacement));
+    if (auto *typeSource = varDecl->getTypeSourceInfo()) {
+        if (const AutoTypeLoc autoLoc = typeSource->getTypeLoc().getContainedAutoTypeLoc()) {
+            // Only the "auto", so that "static" and the like are kept
+            fixits.push_back(clazy::createReplacement(autoLoc.getSourceRange(), "QString"));
+        }
+    }
 
     emitWarning(decl->getBeginLoc(), "auto deduced to be QStringBuilder instead of QString. Possible crash.", fixits);
 }
-- 
2.43.0


From 6576fa19216b62d0088fc3160125522e573d855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 36/61] fix: copyable-polymorphic: do not default a constructor
 that was not there

The fix-it added "X() = default" to classes that have constructors of
their own, which possibly have that one already.
---
 src/checks/level2/copyable-polymorphic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 9ade947..8f72b9a 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -96,11 +96,11 @@ std::vector<clang::FixItHint> CopyablePolymorphic::fixits(clang::CXXRecordDecl *
         result.push_back(clazy::createInsertion(pos, std::string("\tQ_DISABLE_COPY(") + className.data() + std::string(")\n")));
     }
 
-    // If the class has a default constructor, then we need to readd it,
+    // If the class has an implicit default constructor, then we need to readd it,
     // as the disabled copy constructor removes it.
     // Add it in the public section if one exists, otherwise add a
     // public section at the top of the class declaration.
-    if (record->hasDefaultConstructor()) {
+    if (record->hasDefaultConstructor() && !record->hasUserDeclaredConstructor()) {
         pos = m_context->accessSpecifierManager->firstLocationOfSection(clang::AccessSpecifier::AS_public, record);
         if (pos.isInvalid()) {
             pos = record->getBraceRange().getBegin().getLocWithOffset(1);
-- 
2.43.0


From f317f53c433aafa1e6f951d78ab9238320afb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 37/61] fix: qbytearray-conversion-to-c-style: keep precedence
 and operator calls

".constData()" was appended to "a + b" without parentheses and to explicit
calls of the conversion operator.
---
 .../manuallevel/qbytearray-conversion-to-c-style.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index fb62d1c..1f2714f 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -43,6 +43,9 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
     if (!callee || callee->getMemberNameInfo().getName().getAsString() != byteArrayOp) {
         return;
     }
+    if (callee->getOperatorLoc().isValid()) {
+        return; // Explicitly called
+    }
 
     static const std::string msg = "Don't rely on the QByteArray implicit conversion to 'const char *'.";
 
@@ -109,6 +112,13 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    std::vector<FixItHint> fixits = {clazy::createReplacement(sr, std::string{text} + ".constData()")};
+    std::string fixed = std::string{text};
+    const Expr *object = memberExpr->getImplicitObjectArgument()->IgnoreImplicit();
+    const auto *opCall = dyn_cast<CXXOperatorCallExpr>(object);
+    const bool isPrefixOp = opCall && opCall->getNumArgs() == 1 && opCall->getOperatorLoc() == opCall->getBeginLoc();
+    if (isa<UnaryOperator, BinaryOperator, AbstractConditionalOperator, CStyleCastExpr>(object) || isPrefixOp || (opCall && opCall->isInfixBinaryOp())) {
+        fixed = "(" + fixed + ")"; // Binds less than the "."
+    }
+    std::vector<FixItHint> fixits = {clazy::createReplacement(sr, fixed + ".constData()")};
     emitWarning(begin, msg, fixits);
 }
-- 
2.43.0


From 888dd58ce1b2dd4b97b7615eb744208d88a18253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 38/61] fix: modernize-list-initialization: declarations of
 several variables

getSingleDecl() may only be called if there is a single one.
---
 src/checks/manuallevel/modernize-list-initialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 0b3c8ea..234707e 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -16,7 +16,7 @@ using namespace clang;
 
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
-    if (auto expr = dyn_cast<DeclStmt>(stmt)) {
+    if (auto expr = dyn_cast<DeclStmt>(stmt); expr && expr->isSingleDecl()) {
         if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
             if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
-- 
2.43.0


From c691753ddb58340cff6aa84204c19e9b98005171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 39/61] fix: modernize-list-initialization: do not lose lists
 nor change types

An initial list that is not empty was dropped, appended lists became
elements, macros became empty elements, and where an initializer list alone
is not allowed or means something else the type was lost.
---
 .../modernize-list-initialization.cpp         | 48 ++++++++++++++-----
 .../modernize-list-initialization.h           |  2 +-
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 234707e..04f632a 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -5,6 +5,7 @@
 
 #include "modernize-list-initialization.h"
 #include "QtUtils.h"
+#include "StringUtils.h"
 #include "TypeUtils.h"
 #include "Utils.h"
 #include "clang/AST/ParentMap.h"
@@ -14,10 +15,16 @@
 
 using namespace clang;
 
+static bool isList(QualType type)
+{
+    const CXXRecordDecl *record = type->getAsCXXRecordDecl();
+    return record && (clazy::name(record) == "QStringList" || clazy::name(record) == "QList");
+}
+
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
     if (auto expr = dyn_cast<DeclStmt>(stmt); expr && expr->isSingleDecl()) {
-        if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
+        if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit() && !varDecl->getType()->getContainedAutoType()) {
             if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
                 if (name == "QStringList" || name.starts_with("QList")) {
@@ -31,7 +38,7 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
                         auto operatorCall = dyn_cast<CXXOperatorCallExpr>(exprArg);
                         if (operatorCall && operatorCall->getOperator() == OverloadedOperatorKind::OO_LessLess) {
                             SourceLocation afterName = Lexer::getLocForEndOfToken(varDecl->getLocation(), 0, sm(), lo());
-                            checkOperatorCallListInitialization(SourceRange(afterName, initExpr->getEndLoc()), operatorCall);
+                            checkOperatorCallListInitialization(SourceRange(afterName, initExpr->getEndLoc()), operatorCall, false);
                             m_alreadyCheckedOperatorCalls.push_back(operatorCall);
                         }
                     }
@@ -53,17 +60,33 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
         if (!isa<ImplicitCastExpr>(parent)) {
             return;
         }
-        checkOperatorCallListInitialization({parent->getBeginLoc(), topLevelOperatorCall->getEndLoc()}, topLevelOperatorCall);
+        Stmt *spelledParent = m_context->parentMap->getParent(parent);
+        while (spelledParent && isa<CXXConstructExpr, MaterializeTemporaryExpr, CXXBindTemporaryExpr, ExprWithCleanups, ImplicitCastExpr, ParenExpr>(spelledParent)) {
+            spelledParent = m_context->parentMap->getParent(spelledParent);
+        }
+        bool needsTypeName = spelledParent && isa<AbstractConditionalOperator>(spelledParent);
+        if (auto *declStmt = dyn_cast_or_null<DeclStmt>(spelledParent)) {
+            auto *varDecl = declStmt->isSingleDecl() ? dyn_cast<VarDecl>(declStmt->getSingleDecl()) : dyn_cast<VarDecl>(*declStmt->decl_begin());
+            needsTypeName |= varDecl && varDecl->getType()->getContainedAutoType(); // Would be deduced to be a std::initializer_list
+        }
+        checkOperatorCallListInitialization({parent->getBeginLoc(), topLevelOperatorCall->getEndLoc()}, topLevelOperatorCall, needsTypeName);
     }
 }
 
-void ModernizeListInitialization::checkOperatorCallListInitialization(clang::SourceRange fixitSourceRange, clang::CXXOperatorCallExpr *operatorCall)
+void ModernizeListInitialization::checkOperatorCallListInitialization(clang::SourceRange fixitSourceRange, clang::CXXOperatorCallExpr *operatorCall, bool needsTypeName)
 {
+    std::string typeName; // Needed where an initializer list alone isn't allowed or means something else
     std::vector<std::string> replacementTexts;
     auto opCall = operatorCall;
     while (opCall && opCall->getNumArgs() > 0) {
         auto firstArg = opCall->getArg(1);
         std::string sourceText = getSourceText(firstArg).str();
+        if (sourceText.empty()) {
+            return; // Inside a macro
+        }
+        if (isList(firstArg->IgnoreImplicit()->getType())) {
+            return; // A list is appended, not an element
+        }
 #if LLVM_VERSION_MAJOR < 20
         auto token = Lexer::findNextToken(firstArg->getEndLoc(), sm(), lo());
 #else
@@ -81,14 +104,17 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
         }
         replacementTexts.push_back(sourceText);
 
-        if (auto *materializeTemp = dyn_cast<MaterializeTemporaryExpr>(opCall->getArg(0))) {
-            if (auto *bindTemp = dyn_cast<CXXBindTemporaryExpr>(materializeTemp->getSubExpr())) {
-                if (isa<CallExpr>(bindTemp->getSubExpr())) {
-                    return; // abort since we have a function that produced the initial list
-                }
+        auto *list = opCall->getArg(0)->IgnoreUnlessSpelledInSource();
+        opCall = dyn_cast<CXXOperatorCallExpr>(list);
+        if (!opCall) {
+            auto *temporary = dyn_cast<CXXTemporaryObjectExpr>(list);
+            if (!temporary || temporary->getNumArgs() > 0) {
+                return; // abort since the initial list might not be empty
+            }
+            if (needsTypeName) {
+                typeName = getSourceText(CharSourceRange::getTokenRange(temporary->getTypeSourceInfo()->getTypeLoc().getSourceRange())).str();
             }
         }
-        opCall = dyn_cast<CXXOperatorCallExpr>(opCall->getArg(0));
     }
 
     if (replacementTexts.empty()) {
@@ -107,7 +133,7 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
         }
     }
 
-    std::string replacementText = "{";
+    std::string replacementText = typeName + "{";
     for (auto str : replacementTexts) {
         replacementText += str;
     }
diff --git a/src/checks/manuallevel/modernize-list-initialization.h b/src/checks/manuallevel/modernize-list-initialization.h
index 54174ef..bca86ff 100644
--- a/src/checks/manuallevel/modernize-list-initialization.h
+++ b/src/checks/manuallevel/modernize-list-initialization.h
@@ -18,7 +18,7 @@ public:
     void VisitStmt(clang::Stmt *) override;
 
 private:
-    void checkOperatorCallListInitialization(clang::SourceRange fixitSourceRange, clang::CXXOperatorCallExpr *operatorCall);
+    void checkOperatorCallListInitialization(clang::SourceRange fixitSourceRange, clang::CXXOperatorCallExpr *operatorCall, bool needsTypeName);
     std::vector<clang::CallExpr *> m_alreadyCheckedOperatorCalls;
 };
 
-- 
2.43.0


From 175a09d442c3d0734b10590764fba4baaf054184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 40/61] fix: fully-qualified-moc-types: keep the const of "My
 const &"

The fix-it dropped it, and template arguments lost theirs.
---
 .../level0/fully-qualified-moc-types.cpp      | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/checks/level0/fully-qualified-moc-types.cpp b/src/checks/level0/fully-qualified-moc-types.cpp
index c2b038e..c11fcd3 100644
--- a/src/checks/level0/fully-qualified-moc-types.cpp
+++ b/src/checks/level0/fully-qualified-moc-types.cpp
@@ -78,24 +78,27 @@ static std::string normalizeType(const std::string &type)
     return out;
 }
 
-std::string FullyQualifiedMocTypes::writtenType(const ParmVarDecl *param) const
+// The type without pointers, references and their qualifiers
+static TypeLoc pointeeTypeLoc(TypeLoc TL)
 {
-    TypeSourceInfo *TSI = param->getTypeSourceInfo();
-    if (!TSI)
-        return {};
-
-    TypeLoc TL = TSI->getTypeLoc();
     while (true) {
         if (auto PtrLoc = TL.getAs<PointerTypeLoc>()) {
             TL = PtrLoc.getPointeeLoc();
         } else if (auto RefLoc = TL.getAs<ReferenceTypeLoc>()) {
             TL = RefLoc.getPointeeLoc();
         } else {
-            break; // reached underlying type
+            return TL; // reached underlying type
         }
     }
+}
 
-    CharSourceRange CSR = CharSourceRange::getTokenRange(TL.getSourceRange());
+std::string FullyQualifiedMocTypes::writtenType(const ParmVarDecl *param) const
+{
+    TypeSourceInfo *TSI = param->getTypeSourceInfo();
+    if (!TSI)
+        return {};
+
+    CharSourceRange CSR = CharSourceRange::getTokenRange(pointeeTypeLoc(TSI->getTypeLoc()).getSourceRange());
     StringRef text = Lexer::getSourceText(CSR, sm(), lo());
     return normalizeType(text.str());
 }
@@ -130,12 +133,8 @@ void FullyQualifiedMocTypes::VisitDecl(clang::Decl *decl)
         const std::string typeName = writtenType(param);
         std::string qualifiedTypeName;
         if (!typeIsFullyQualified(t, /*by-ref*/ qualifiedTypeName, typeName)) {
-            SourceRange fixitRange = param->getTypeSourceInfo()->getTypeLoc().getSourceRange();
-            // We don't want to include the & or * characters for the fixit range
-            if (param->getType()->isReferenceType() || param->getType()->isPointerType()) {
-                fixitRange = SourceRange(fixitRange.getBegin(), fixitRange.getEnd().getLocWithOffset(-1));
-            }
-            std::vector fixits{FixItHint::CreateReplacement(fixitRange, qualifiedTypeName)};
+            // We don't want to include the & or * characters, nor a const between them and the type, for the fixit range
+            std::vector fixits{FixItHint::CreateReplacement(pointeeTypeLoc(param->getTypeSourceInfo()->getTypeLoc()).getSourceRange(), qualifiedTypeName)};
             std::string warning = accessSpecifierManager->qtAccessSpecifierTypeStr(qst).str() + " arguments need to be fully-qualified";
             emitWarning(param->getTypeSpecStartLoc(), warning, fixits);
         }
@@ -145,16 +144,15 @@ void FullyQualifiedMocTypes::VisitDecl(clang::Decl *decl)
         QualType returnT = method->getReturnType();
         SourceRange returnTypeSourceRange = method->getReturnTypeSourceRange();
         if (returnT->isReferenceType() || returnT->isPointerType()) {
-            returnTypeSourceRange = SourceRange(returnTypeSourceRange.getBegin(), returnTypeSourceRange.getEnd().getLocWithOffset(-1));
+            // We don't want to include the & or * characters, nor a const between them and the type
+            if (const FunctionTypeLoc functionTypeLoc = method->getFunctionTypeLoc(); functionTypeLoc && returnTypeSourceRange.isValid()) {
+                returnTypeSourceRange = pointeeTypeLoc(functionTypeLoc.getReturnLoc()).getSourceRange();
+            }
         }
         StringRef returnText = Lexer::getSourceText(CharSourceRange::getTokenRange(returnTypeSourceRange), sm(), lo());
         const std::string typeName = normalizeType(returnText.str());
         std::string qualifiedTypeName;
         if (!typeName.empty() && !typeIsFullyQualified(clazy::pointeeQualType(returnT), /*by-ref*/ qualifiedTypeName, typeName)) {
-            if (method->getReturnType()->isReferenceType() || method->getReturnType()->isPointerType()) {
-                // We don't want to include the & or * characters for the fixit range
-                returnTypeSourceRange = SourceRange(returnTypeSourceRange.getBegin(), returnTypeSourceRange.getEnd().getLocWithOffset(-1));
-            }
             std::string warning = accessSpecifierManager->qtAccessSpecifierTypeStr(qst).str() + " return types need to be fully-qualified";
             std::vector fixits{FixItHint::CreateReplacement(returnTypeSourceRange, qualifiedTypeName)};
             emitWarning(returnTypeSourceRange.getBegin(), warning, fixits);
@@ -182,10 +180,12 @@ std::string FullyQualifiedMocTypes::getQualifiedNameOfType(const Type *ptr, bool
     }
     // The lexer logic we use to collect the comparison string from the source code has no spaces between the type and * or &
     if (ptr->isPointerType()) {
-        return getQualifiedNameOfType(ptr->getPointeeType().getTypePtr(), true) + "*";
+        const QualType pointee = ptr->getPointeeType();
+        return (pointee.isConstQualified() ? "const " : "") + getQualifiedNameOfType(pointee.getTypePtr(), true) + "*";
     }
     if (ptr->isReferenceType()) {
-        return getQualifiedNameOfType(ptr->getPointeeType().getTypePtr(), true) + "&";
+        const QualType pointee = ptr->getPointeeType();
+        return (pointee.isConstQualified() ? "const " : "") + getQualifiedNameOfType(pointee.getTypePtr(), true) + "&";
     }
     return QualType::getFromOpaquePtr(ptr).getAsString(lo());
 }
-- 
2.43.0


From 4ae50d1c84522687f13852038a4af54abede77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 41/61] fix: qstring-arg: parenthesised chains

The fix-it for "(s.arg(a)).arg(b)" left a lone parenthesis.
---
 src/checks/level0/qstring-arg.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/checks/level0/qstring-arg.cpp b/src/checks/level0/qstring-arg.cpp
index 3801f1d..efa5d27 100644
--- a/src/checks/level0/qstring-arg.cpp
+++ b/src/checks/level0/qstring-arg.cpp
@@ -124,9 +124,14 @@ bool QStringArg::checkMultiArgWarningCase(const std::vector<clang::CallExpr *> &
         replacement = callArgs + (replacement.empty() ? "" : ", ") + replacement;
     }
     if (auto *subexprCall = clazy::getFirstChildOfType<MemberExpr>(calls.back())) {
-        emitWarning(beginLoc,
-                    "Use multi-arg instead",
-                    {FixItHint::CreateReplacement(SourceRange(subexprCall->getEndLoc(), calls.at(0)->getEndLoc()), "arg(" + replacement + ")")});
+        replacement = "arg(" + replacement + ")";
+        SourceLocation replacementBegin = subexprCall->getEndLoc();
+        if (const SourceLocation chainBegin = calls.back()->getBeginLoc(); chainBegin != beginLoc) {
+            // (s.arg(a)).arg(b), don't leave the opening parenthesis alone
+            replacement = Lexer::getSourceText(CharSourceRange::getCharRange(chainBegin, replacementBegin), sm(), lo()).str() + replacement;
+            replacementBegin = beginLoc;
+        }
+        emitWarning(beginLoc, "Use multi-arg instead", {FixItHint::CreateReplacement(SourceRange(replacementBegin, calls.at(0)->getEndLoc()), replacement)});
         return true;
     }
 
-- 
2.43.0


From 9c2cf89a4ecfa76c8c5695ae3348e4cc86e5d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 42/61] fix: old-style-connect: insert .data() at the end of
 the argument

It went before the next comma found in the text, which may be in a comment
or inside of the argument.
---
 src/checks/level2/old-style-connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/old-style-connect.cpp b/src/checks/level2/old-style-connect.cpp
index 7461a27..508b8f9 100644
--- a/src/checks/level2/old-style-connect.cpp
+++ b/src/checks/level2/old-style-connect.cpp
@@ -473,7 +473,7 @@ std::vector<FixItHint> OldStyleConnect::fixits(int classification, T *callOrCtor
             if (record) {
                 lastRecordDecl = record;
                 if (isQPointer(expr)) {
-                    auto endLoc = clazy::locForNextToken(astContext(), arg->getBeginLoc(), tok::comma);
+                    auto endLoc = clazy::locForEndOfToken(astContext(), arg->getEndLoc());
                     if (endLoc.isValid()) {
                         fixits.push_back(FixItHint::CreateInsertion(endLoc, ".data()"));
                     } else {
-- 
2.43.0


From 72510000d4f9772ec67f924e99c8d68d412c9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 43/61] fix: reserve-candidates: do not keep locations of
 earlier translation units

The same locations of the next translation unit analysed in the process
were taken for loops already known.
---
 src/checks/manuallevel/reserve-candidates.cpp | 16 +++++++---------
 src/checks/manuallevel/reserve-candidates.h   |  6 ++++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index 92b7c67..aa4e602 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -117,7 +117,7 @@ bool ReserveCandidates::acceptsValueDecl(ValueDecl *valueDecl) const
     return record && m_context->lastMethodDecl->getParent() == record;
 }
 
-bool ReserveCandidates::isReserveCandidate(ValueDecl *valueDecl, Stmt *loopBody, CallExpr *callExpr) const
+bool ReserveCandidates::isReserveCandidate(ValueDecl *valueDecl, Stmt *loopBody, CallExpr *callExpr)
 {
     if (!acceptsValueDecl(valueDecl)) {
         return false;
@@ -289,7 +289,7 @@ bool ReserveCandidates::loopIsComplex(clang::Stmt *stm, bool &isLoop) const
     return false;
 }
 
-bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocation, bool isMemberVariable) const
+bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocation, bool isMemberVariable)
 {
     if (!s || declLocation.isInvalid()) {
         return false;
@@ -298,13 +298,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     int forCount = 0;
     int foreachCount = 0;
 
-    static std::vector<unsigned int> nonComplexOnesCache;
-    static std::vector<unsigned int> complexOnesCache;
     auto rawLoc = s->getBeginLoc().getRawEncoding();
 
     // For some reason we generate two warnings on some foreaches, so cache the ones we processed
     // and return true so we don't trigger a warning
-    if (clazy::contains(nonComplexOnesCache, rawLoc) || clazy::contains(complexOnesCache, rawLoc)) {
+    if (clazy::contains(m_nonComplexLoopLocations, rawLoc) || clazy::contains(m_complexLoopLocations, rawLoc)) {
         return true;
     }
 
@@ -313,13 +311,13 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     while ((parent = clazy::parent(m_context->parentMap, parent))) {
         const SourceLocation parentStart = parent->getBeginLoc();
         if (!isMemberVariable && sm().isBeforeInSLocAddrSpace(parentStart, declLocation)) {
-            nonComplexOnesCache.push_back(rawLoc);
+            m_nonComplexLoopLocations.push_back(rawLoc);
             return false;
         }
 
         bool isLoop = false;
         if (loopIsComplex(parent, isLoop)) {
-            complexOnesCache.push_back(rawLoc);
+            m_complexLoopLocations.push_back(rawLoc);
             return true;
         }
 
@@ -338,11 +336,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
         }
 
         if (foreachCount > 1 || forCount > 1) { // two foreaches are almost always a false-positve
-            complexOnesCache.push_back(rawLoc);
+            m_complexLoopLocations.push_back(rawLoc);
             return true;
         }
     }
 
-    nonComplexOnesCache.push_back(rawLoc);
+    m_nonComplexLoopLocations.push_back(rawLoc);
     return false;
 }
diff --git a/src/checks/manuallevel/reserve-candidates.h b/src/checks/manuallevel/reserve-candidates.h
index d693c7b..7a4f237 100644
--- a/src/checks/manuallevel/reserve-candidates.h
+++ b/src/checks/manuallevel/reserve-candidates.h
@@ -42,12 +42,14 @@ private:
     bool acceptsValueDecl(clang::ValueDecl *valueDecl) const;
     bool expressionIsComplex(clang::Expr *) const;
     bool loopIsComplex(clang::Stmt *, bool &isLoop) const;
-    bool isInComplexLoop(clang::Stmt *, clang::SourceLocation declLocation, bool isMemberVariable) const;
-    bool isReserveCandidate(clang::ValueDecl *valueDecl, clang::Stmt *loopBody, clang::CallExpr *callExpr) const;
+    bool isInComplexLoop(clang::Stmt *, clang::SourceLocation declLocation, bool isMemberVariable);
+    bool isReserveCandidate(clang::ValueDecl *valueDecl, clang::Stmt *loopBody, clang::CallExpr *callExpr);
     bool isCandidateMethod(clang::CXXMethodDecl *methodDecl);
     bool isCandidate(clang::CallExpr *oper);
 
     std::vector<clang::ValueDecl *> m_foundReserves;
+    std::vector<unsigned int> m_nonComplexLoopLocations;
+    std::vector<unsigned int> m_complexLoopLocations;
 };
 
 #endif
-- 
2.43.0


From 3f3ee85ab90e740b918a925a1149586ac0363319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 44/61] fix: qfileinfo-exists: no fix-it inside of macros

---
 src/checks/level0/qfileinfo-exists.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/checks/level0/qfileinfo-exists.cpp b/src/checks/level0/qfileinfo-exists.cpp
index dc257de..289f5b7 100644
--- a/src/checks/level0/qfileinfo-exists.cpp
+++ b/src/checks/level0/qfileinfo-exists.cpp
@@ -30,8 +30,10 @@ void QFileInfoExists::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    std::string userArgText = getSourceText(ctorExpr->getArg(0)).str();
-    emitWarning(stmt->getBeginLoc(),
-                "Use the static QFileInfo::exists() instead. It's documented to be faster.",
-                {clang::FixItHint::CreateReplacement(stmt->getSourceRange(), "QFileInfo::exists(" + userArgText + ")")});
+    std::vector<clang::FixItHint> fixits;
+    if (!stmt->getBeginLoc().isMacroID()) { // The argument's text doesn't belong into a macro's definition
+        std::string userArgText = getSourceText(ctorExpr->getArg(0)).str();
+        fixits.push_back(clang::FixItHint::CreateReplacement(stmt->getSourceRange(), "QFileInfo::exists(" + userArgText + ")"));
+    }
+    emitWarning(stmt->getBeginLoc(), "Use the static QFileInfo::exists() instead. It's documented to be faster.", fixits);
 }
-- 
2.43.0


From e775b32c9e8482d85379b3702b0ba3217f7706e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 45/61] fix: locForNextToken: skip comments and all white space

Q_SIGNAL, Q_SLOT, Q_INVOKABLE and Q_SCRIPTABLE followed by an indented new
line or a comment were not recognised.
---
 src/Utils.cpp | 37 ++-----------------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 82c73f4..d759545 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -991,41 +991,8 @@ std::string Utils::filenameForLoc(SourceLocation loc, const clang::SourceManager
 
 SourceLocation Utils::locForNextToken(SourceLocation loc, const clang::SourceManager &sm, const clang::LangOptions &lo)
 {
-    std::pair<FileID, unsigned> locInfo = sm.getDecomposedLoc(loc);
-    bool InvalidTemp = false;
-    StringRef File = sm.getBufferData(locInfo.first, &InvalidTemp);
-    if (InvalidTemp) {
-        return {};
-    }
-
-    const char *TokenBegin = File.data() + locInfo.second;
-    Lexer lexer(sm.getLocForStartOfFile(locInfo.first), lo, File.begin(), TokenBegin, File.end());
-
-    Token Tok;
-    lexer.LexFromRawLexer(Tok);
-
-    SourceLocation TokenLoc = Tok.getLocation();
-
-    // Calculate how much whitespace needs to be skipped if any.
-    unsigned NumWhitespaceChars = 0;
-    const char *TokenEnd = sm.getCharacterData(TokenLoc) + Tok.getLength();
-    unsigned char C = *TokenEnd;
-    while (isHorizontalWhitespace(C)) {
-        C = *(++TokenEnd);
-        NumWhitespaceChars++;
-    }
-
-    // Skip \r, \n, \r\n, or \n\r
-    if (C == '\n' || C == '\r') {
-        char PrevC = C;
-        C = *(++TokenEnd);
-        NumWhitespaceChars++;
-        if ((C == '\n' || C == '\r') && C != PrevC) {
-            NumWhitespaceChars++;
-        }
-    }
-
-    return loc.getLocWithOffset(Tok.getLength() + NumWhitespaceChars);
+    const auto next = Lexer::findNextToken(loc, sm, lo); // skips blanks and comments
+    return next ? next->getLocation() : SourceLocation();
 }
 
 bool Utils::literalContainsEscapedBytes(StringLiteral *lt, const SourceManager &sm, const LangOptions &lo)
-- 
2.43.0


From 6eeb5607d90878dd0bac884e729d430afc86dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 46/61] fix: jni-signatures: digits, "_" and "$" in names,
 arrays of arrays

Names like "get_x1" and signatures like "([[I)V" were reported as invalid,
and "()[V" was not.
---
 src/checks/manuallevel/jnisignatures.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/jnisignatures.cpp b/src/checks/manuallevel/jnisignatures.cpp
index 358fbe5..2ea6b20 100644
--- a/src/checks/manuallevel/jnisignatures.cpp
+++ b/src/checks/manuallevel/jnisignatures.cpp
@@ -24,11 +24,15 @@
 
 using namespace clang;
 
-static const std::regex methodSignatureRegex("\\((\\[?([ZBCSIJFD]|L([a-zA-Z]+\\/)*[a-zA-Z]+;))*\\)\\[?([ZBCSIJFD]|L([a-zA-Z]+\\/)*[a-zA-Z]+;|V)");
+#define JNI_IDENTIFIER "[a-zA-Z_$][a-zA-Z0-9_$]*"
+#define JNI_CLASS_NAME "(" JNI_IDENTIFIER "\\/)*" JNI_IDENTIFIER
+#define JNI_TYPE "\\[*([ZBCSIJFD]|L" JNI_CLASS_NAME ";)"
 
-static const std::regex classNameRegex("([a-zA-Z]+\\/)*[a-zA-Z]+");
+static const std::regex methodSignatureRegex("\\((" JNI_TYPE ")*\\)(" JNI_TYPE "|V)");
 
-static const std::regex methodNameRegex("[a-zA-Z]+");
+static const std::regex classNameRegex(JNI_CLASS_NAME);
+
+static const std::regex methodNameRegex(JNI_IDENTIFIER);
 
 bool checkSignature(const std::string &signature, const std::regex &expr)
 {
-- 
2.43.0


From 81e05f1f7971e6a2905be79012c6a05d2512c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 47/61] fix: incorrect-emit: find the emitted call behind
 parentheses and comments

---
 src/checks/level1/incorrect-emit.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/checks/level1/incorrect-emit.cpp b/src/checks/level1/incorrect-emit.cpp
index 10b702f..860e92b 100644
--- a/src/checks/level1/incorrect-emit.cpp
+++ b/src/checks/level1/incorrect-emit.cpp
@@ -30,18 +30,6 @@ IncorrectEmit::IncorrectEmit(const std::string &name, Options options)
     m_filesToIgnore = {"moc_", ".moc"};
 }
 
-size_t countUntilNonSpaceOrParen(const char *start, size_t prefixLen)
-{
-    size_t count = prefixLen;
-    start += prefixLen;
-    // Skip spaces and '(' characters
-    while (*start && (isspace(*start) || *start == '(')) {
-        ++count;
-        ++start;
-    }
-    return count;
-}
-
 void IncorrectEmit::VisitMacroExpands(const Token &MacroNameTok, const SourceRange &range, const MacroInfo *info)
 {
     IdentifierInfo *ii = MacroNameTok.getIdentifierInfo();
@@ -51,9 +39,12 @@ void IncorrectEmit::VisitMacroExpands(const Token &MacroNameTok, const SourceRan
     const bool isEmit = ii->getName() == "emit";
     const bool isQEmit = ii->getName() == "Q_EMIT";
     if (isEmit || isQEmit) {
-        const char *start = sm().getCharacterData(range.getBegin());
-        const size_t char_offset = countUntilNonSpaceOrParen(start, isEmit ? strlen("emit") : strlen("Q_EMIT"));
-        SourceLocation newLocation = range.getBegin().getLocWithOffset(char_offset);
+        // The call might be in parentheses, or begin with one
+        SourceLocation newLocation = Utils::locForNextToken(range.getBegin(), sm(), lo());
+        while (newLocation.isValid() && *sm().getCharacterData(newLocation) == '(') {
+            m_emitLocations.push_back(newLocation);
+            newLocation = Utils::locForNextToken(newLocation, sm(), lo());
+        }
         m_emitLocations.push_back(newLocation);
     }
 }
-- 
2.43.0


From d53a2771b25095362e1e8342f9541a66fc48cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 48/61] fix: foreach: a const reference to a container does not
 detach

---
 src/checks/level1/foreach.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/foreach.cpp b/src/checks/level1/foreach.cpp
index 07ff272..bac40c6 100644
--- a/src/checks/level1/foreach.cpp
+++ b/src/checks/level1/foreach.cpp
@@ -104,7 +104,7 @@ void Foreach::VisitStmt(clang::Stmt *stmt)
     }
 
     // const containers are fine
-    if (valueDecl->getType().isConstQualified()) {
+    if (valueDecl->getType().getNonReferenceType().isConstQualified()) {
         return;
     }
 
-- 
2.43.0


From b77649124195d66a1f5b9edb11a814eeaf9aa007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:34 +0000
Subject: [PATCH 49/61] fix: container-inside-loop: the init statement of a for
 loop only runs once

---
 src/LoopUtils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LoopUtils.cpp b/src/LoopUtils.cpp
index ab237c8..6266179 100644
--- a/src/LoopUtils.cpp
+++ b/src/LoopUtils.cpp
@@ -138,11 +138,15 @@ Stmt *clazy::isInLoop(clang::ParentMap *pmap, clang::Stmt *stmt)
         return nullptr;
     }
 
+    Stmt *child = stmt;
     Stmt *p = pmap->getParent(stmt);
     while (p) {
-        if (clazy::isLoop(p)) {
+        // The init statement of a for loop only runs once
+        auto *forStmt = dyn_cast<ForStmt>(p);
+        if (clazy::isLoop(p) && !(forStmt && forStmt->getInit() == child)) {
             return p;
         }
+        child = p;
         p = pmap->getParent(p);
     }
 
-- 
2.43.0


From 9dfd731596b017229afc4d1528eb7c388e4a33c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 50/61] fix: compare-member-check: don't crash on an operator
 with an empty return

---
 src/checks/manuallevel/compare-member-check.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 7bc430c..cdd05a0 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -81,6 +81,8 @@ public:
                 if (!returnStmt)
                     return;
                 const Expr *returnExpr = returnStmt->getRetValue();
+                if (!returnExpr) // "return;"
+                    return;
                 if (const auto *exprWithCleanups = dyn_cast<ExprWithCleanups>(returnExpr)) {
                     if (auto opCallExpr = dyn_cast<CXXOperatorCallExpr>(exprWithCleanups->getSubExpr())) {
                         const Expr *lhs = opCallExpr->getArg(0);
-- 
2.43.0


From 745264c125d454ae4f8bef87d74352a5eb508bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 51/61] fix: child-event-qobject-cast: don't warn twice if the
 body is out of line

---
 src/checks/level1/child-event-qobject-cast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/child-event-qobject-cast.cpp b/src/checks/level1/child-event-qobject-cast.cpp
index ac5360b..a5d66a7 100644
--- a/src/checks/level1/child-event-qobject-cast.cpp
+++ b/src/checks/level1/child-event-qobject-cast.cpp
@@ -27,7 +27,7 @@ using namespace clang;
 void ChildEventQObjectCast::VisitDecl(Decl *decl)
 {
     auto *childEventMethod = dyn_cast<CXXMethodDecl>(decl);
-    if (!childEventMethod) {
+    if (!childEventMethod || !childEventMethod->isThisDeclarationADefinition()) { // Don't warn twice
         return;
     }
 
-- 
2.43.0


From bb8d9740068cb047668a532f0cc9ae14d6b7a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:01 +0000
Subject: [PATCH 52/61] fix: virtual-call-ctor: don't warn twice if the body is
 out of line

---
 src/checks/level2/virtual-call-ctor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/level2/virtual-call-ctor.cpp b/src/checks/level2/virtual-call-ctor.cpp
index f096d23..65da7ac 100644
--- a/src/checks/level2/virtual-call-ctor.cpp
+++ b/src/checks/level2/virtual-call-ctor.cpp
@@ -54,6 +54,10 @@ void VirtualCallCtor::VisitDecl(Decl *decl)
         return;
     }
 
+    if (!cast<CXXMethodDecl>(decl)->isThisDeclarationADefinition()) { // Don't warn twice
+        return;
+    }
+
     Stmt *ctorOrDtorBody = ctorDecl ? ctorDecl->getBody() : dtorDecl->getBody();
     if (!ctorOrDtorBody) {
         return;
-- 
2.43.0


From 3e33e732b20822c03ab84408dc41d30840c0d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:08 +0000
Subject: [PATCH 53/61] fix: raw-environment-function: only judge the C
 functions

---
 src/checks/manuallevel/raw-environment-function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/checks/manuallevel/raw-environment-function.cpp b/src/checks/manuallevel/raw-environment-function.cpp
index 913d8a4..0697ea5 100644
--- a/src/checks/manuallevel/raw-environment-function.cpp
+++ b/src/checks/manuallevel/raw-environment-function.cpp
@@ -28,6 +28,12 @@ void RawEnvironmentFunction::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
+    // A class or a namespace can have a function of that name too
+    const DeclContext *context = func->getDeclContext()->getRedeclContext();
+    if (!context->isTranslationUnit() && !context->isStdNamespace()) {
+        return;
+    }
+
     StringRef funcName = clazy::name(func);
 
     if (funcName == "putenv") {
-- 
2.43.0


From d2f6eccecde786e042279f8451ebd265ae98bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:06 +0000
Subject: [PATCH 54/61] fix: readlock-detaching: don't crash on a lock outside
 of functions

---
 src/checks/level1/readlock-detaching.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 59359b7..494ff3f 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -155,6 +155,9 @@ public:
 
         if (const auto lockCall = result.Nodes.getNodeAs<CXXMemberCallExpr>("qreadwritelockCall")) {
             const auto surroundingStmt = getSorroundingCompondStmt(*lockCall);
+            if (!surroundingStmt) { // e.g. in an initializer outside of functions
+                return;
+            }
             // The end location for sure needs to be adjusted within the visitor. We just assume it is going to be in the same block the lock was locked
             MemberCallVisitor visitor(result.Context, m_check, SourceRange(lockCall->getBeginLoc(), surroundingStmt->getEndLoc()));
             visitor.TraverseStmt(const_cast<CompoundStmt *>(surroundingStmt));
-- 
2.43.0


From ffe1e840eea25b8fb595ffda34e0a4b064576f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:06 +0000
Subject: [PATCH 55/61] fix: readlock-detaching: an unlock ahead of the lock
 doesn't end it

---
 src/checks/level1/readlock-detaching.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 494ff3f..46bb866 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -101,7 +101,10 @@ public:
         const auto &methods = clazy::detachingMethods();
         const auto methodName = clazy::name(call->getMethodDecl());
         if (isLocker && methodName == "unlock") {
-            lockRange.setEnd(call->getEndLoc());
+            // An unlock ahead of the lock (or behind the first one) ends something else
+            if (isWithinRange(call->getSourceRange(), lockRange, Context->getSourceManager())) {
+                lockRange.setEnd(call->getEndLoc());
+            }
             return true;
         }
 
-- 
2.43.0


From bb1f916452d57f49809b9aaf82be60c4adb12076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:06 +0000
Subject: [PATCH 56/61] fix: unused-result-check: default member initializers
 and static_assert use the value

---
 src/checks/manuallevel/unused-result-check.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/unused-result-check.cpp b/src/checks/manuallevel/unused-result-check.cpp
index c57b6ae..efb3b3a 100644
--- a/src/checks/manuallevel/unused-result-check.cpp
+++ b/src/checks/manuallevel/unused-result-check.cpp
@@ -42,7 +42,8 @@ public:
                         m_check->emitWarning(callExpr->getExprLoc(), "Result of const member function is not used.");
                     }
                 } else if (parents[0].get<Decl>() != nullptr && parents[0].get<Stmt>() == nullptr) {
-                    if (!llvm::dyn_cast<VarDecl>(parents[0].get<Decl>()) && !llvm::dyn_cast<CXXConstructorDecl>(parents[0].get<Decl>())) {
+                    if (!llvm::dyn_cast<VarDecl>(parents[0].get<Decl>()) && !llvm::dyn_cast<CXXConstructorDecl>(parents[0].get<Decl>())
+                        && !llvm::dyn_cast<FieldDecl>(parents[0].get<Decl>()) && !llvm::dyn_cast<StaticAssertDecl>(parents[0].get<Decl>())) {
                         m_check->emitWarning(callExpr->getExprLoc(), "Result of const member function is not used.");
                     }
                 }
-- 
2.43.0


From 253cb5a091ebdd86de24b6d29a84e496d7b6c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:52 +0000
Subject: [PATCH 57/61] fix: compare-member-check: only judge comparison
 operators

---
 src/checks/manuallevel/compare-member-check.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index cdd05a0..7057add 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -58,6 +58,9 @@ public:
     virtual void run(const MatchFinder::MatchResult &result)
     {
         if (const auto *callExpr = result.Nodes.getNodeAs<CXXOperatorCallExpr>("callExpr")) {
+            if (!callExpr->isComparisonOp()) // e.g. operator+ or operator[]
+                return;
+
             const Decl *calleeDecl = callExpr->getCalleeDecl();
             if (!calleeDecl)
                 return;
-- 
2.43.0


From cf89e56ae7094d801aaf7ce6be83775e642beed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:52 +0000
Subject: [PATCH 58/61] fix: compare-member-check: look into parentheses

---
 src/checks/manuallevel/compare-member-check.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 7057add..38abb2c 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -20,18 +20,18 @@ using namespace clang;
 
 void checkBinaryOperator(const BinaryOperator *binOp, const CXXRecordDecl *record, std::vector<const FieldDecl *> &classFields)
 {
-    if (const BinaryOperator *leftBO = dyn_cast<BinaryOperator>(binOp->getLHS())) {
+    if (const BinaryOperator *leftBO = dyn_cast<BinaryOperator>(binOp->getLHS()->IgnoreParens())) {
         checkBinaryOperator(leftBO, record, classFields);
     }
 
-    if (const BinaryOperator *rightBO = dyn_cast<BinaryOperator>(binOp->getRHS())) {
+    if (const BinaryOperator *rightBO = dyn_cast<BinaryOperator>(binOp->getRHS()->IgnoreParens())) {
         checkBinaryOperator(rightBO, record, classFields);
     }
 
     const MemberExpr *lhsMemberExpr = nullptr;
-    if (const ImplicitCastExpr *implicitCast = dyn_cast<ImplicitCastExpr>(binOp->getLHS())) {
+    if (const ImplicitCastExpr *implicitCast = dyn_cast<ImplicitCastExpr>(binOp->getLHS()->IgnoreParens())) {
         lhsMemberExpr = dyn_cast<MemberExpr>(implicitCast->getSubExpr());
-    } else if (const MemberExpr *temp = dyn_cast<MemberExpr>(binOp->getLHS())) {
+    } else if (const MemberExpr *temp = dyn_cast<MemberExpr>(binOp->getLHS()->IgnoreParens())) {
         lhsMemberExpr = temp;
     }
 
@@ -104,7 +104,7 @@ public:
                     }
                 }
 
-                if (const auto *binOp = dyn_cast<BinaryOperator>(returnExpr)) {
+                if (const auto *binOp = dyn_cast<BinaryOperator>(returnExpr->IgnoreParens())) {
                     checkBinaryOperator(binOp, classDecl, classFields);
                     if (!classFields.empty()) {
                         m_check->emitWarning(callExpr->getExprLoc(), "Comparison operator does not use all member variables");
-- 
2.43.0


From 5a1f947977760b64ee823a9d048b9bb58fb3fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 59/61] fix: compare-member-check: members of class type are
 compared as well

---
 .../manuallevel/compare-member-check.cpp      | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 38abb2c..82a95ba 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -18,25 +18,18 @@ class ClazyContext;
 
 using namespace clang;
 
-void checkBinaryOperator(const BinaryOperator *binOp, const CXXRecordDecl *record, std::vector<const FieldDecl *> &classFields)
+void removeField(const Expr *expr, const CXXRecordDecl *record, std::vector<const FieldDecl *> &classFields)
 {
-    if (const BinaryOperator *leftBO = dyn_cast<BinaryOperator>(binOp->getLHS()->IgnoreParens())) {
-        checkBinaryOperator(leftBO, record, classFields);
-    }
-
-    if (const BinaryOperator *rightBO = dyn_cast<BinaryOperator>(binOp->getRHS()->IgnoreParens())) {
-        checkBinaryOperator(rightBO, record, classFields);
+    const MemberExpr *memberExpr = nullptr;
+    expr = expr->IgnoreParens();
+    if (const ImplicitCastExpr *implicitCast = dyn_cast<ImplicitCastExpr>(expr)) {
+        memberExpr = dyn_cast<MemberExpr>(implicitCast->getSubExpr()->IgnoreParens());
+    } else if (const MemberExpr *temp = dyn_cast<MemberExpr>(expr)) {
+        memberExpr = temp;
     }
 
-    const MemberExpr *lhsMemberExpr = nullptr;
-    if (const ImplicitCastExpr *implicitCast = dyn_cast<ImplicitCastExpr>(binOp->getLHS()->IgnoreParens())) {
-        lhsMemberExpr = dyn_cast<MemberExpr>(implicitCast->getSubExpr());
-    } else if (const MemberExpr *temp = dyn_cast<MemberExpr>(binOp->getLHS()->IgnoreParens())) {
-        lhsMemberExpr = temp;
-    }
-
-    if (lhsMemberExpr) {
-        FieldDecl *fieldDecl = dyn_cast<FieldDecl>(lhsMemberExpr->getMemberDecl());
+    if (memberExpr) {
+        FieldDecl *fieldDecl = dyn_cast<FieldDecl>(memberExpr->getMemberDecl());
         if (fieldDecl && fieldDecl->getParent() == record) {
             auto it = std::find(classFields.begin(), classFields.end(), fieldDecl);
 
@@ -47,6 +40,20 @@ void checkBinaryOperator(const BinaryOperator *binOp, const CXXRecordDecl *recor
     }
 }
 
+void checkBinaryOperator(const BinaryOperator *binOp, const CXXRecordDecl *record, std::vector<const FieldDecl *> &classFields)
+{
+    for (const Expr *operand : {binOp->getLHS()->IgnoreParens(), binOp->getRHS()->IgnoreParens()}) {
+        if (const BinaryOperator *bo = dyn_cast<BinaryOperator>(operand)) {
+            checkBinaryOperator(bo, record, classFields);
+        } else if (const auto *opCall = dyn_cast<CXXOperatorCallExpr>(operand); opCall && opCall->isComparisonOp()) {
+            // A member that is compared by an operator of its own, e.g. a QString
+            removeField(opCall->getArg(0), record, classFields);
+        }
+    }
+
+    removeField(binOp->getLHS(), record, classFields);
+}
+
 class MemberCaller : public ClazyAstMatcherCallback
 {
 public:
-- 
2.43.0


From 63c2e39ca025ee338c648e2d81f49087dbd2c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:32 +0000
Subject: [PATCH 60/61] fix: qdeleteall: look at members, const containers and
 pointers as well

---
 src/checks/level1/qdeleteall.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/checks/level1/qdeleteall.cpp b/src/checks/level1/qdeleteall.cpp
index 85c78fe..2cce8e8 100644
--- a/src/checks/level1/qdeleteall.cpp
+++ b/src/checks/level1/qdeleteall.cpp
@@ -9,6 +9,7 @@
 #include "HierarchyUtils.h"
 #include "QtUtils.h"
 #include "StringUtils.h"
+#include "TypeUtils.h"
 
 #include <clang/AST/Decl.h>
 #include <clang/AST/DeclCXX.h>
@@ -37,11 +38,9 @@ void QDeleteAll::VisitStmt(clang::Stmt *stmt)
     }
     std::string offendingClassName;
     // In case QMultiHash::values is used in Qt5, values is defined in the QHash baseclass, look up the original record to be sure we have a QMultiHash
-    if (auto *cast = dyn_cast<ImplicitCastExpr>(offendingCall->getImplicitObjectArgument())) {
-        if (auto *subExpr = dyn_cast<DeclRefExpr>(cast->getSubExpr())) {
-            if (auto *ptr = subExpr->getType().getTypePtrOrNull(); ptr && ptr->isRecordType()) {
-                offendingClassName = ptr->getAsRecordDecl()->getNameAsString();
-            }
+    if (Expr *object = offendingCall->getImplicitObjectArgument()) {
+        if (auto *record = clazy::typeAsRecord(object->IgnoreParenImpCasts())) {
+            offendingClassName = record->getNameAsString();
         }
     }
     // Check if we have whitelisted the classname
-- 
2.43.0


From 0b9b832205429b5c1e1329053a55ddac128146d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:32 +0000
Subject: [PATCH 61/61] fix: use-arrow-operator-instead-of-data: leave casts
 alone, report a chain once

---
 .../manuallevel/use-arrow-operator-instead-of-data.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
index 98ac455..d2b3b54 100644
--- a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
+++ b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
@@ -28,7 +28,7 @@ void UseArrowOperatorInsteadOfData::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    CallExpr *callExpr = vec.at(vec.size() - 1);
+    CallExpr *callExpr = vec.at(1); // the one whose result the method is called on
 
     FunctionDecl *funcDecl = callExpr->getDirectCallee();
     if (!funcDecl) {
@@ -40,12 +40,8 @@ void UseArrowOperatorInsteadOfData::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    for (const auto &chain : vec) {
-        if (auto a = dyn_cast<CXXMemberCallExpr>(chain)) {
-            if (auto callee = dyn_cast<MemberExpr>(a->getCallee()); callee && dyn_cast<CXXStaticCastExpr>(callee->getBase()->IgnoreImpCasts())) {
-                return; // We have some kind of cast going on here. This means we can not use the arrow operator directly
-            }
-        }
+    if (auto *callee = dyn_cast<MemberExpr>(ce->getCallee()); callee && isa<ExplicitCastExpr>(callee->getBase()->IgnoreParenImpCasts())) {
+        return; // We have some kind of cast going on here. This means we can not use the arrow operator directly
     }
 
     std::vector<FixItHint> fixits;
-- 
2.43.0

