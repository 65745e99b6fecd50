"""The properties: what they say, where they are anchored, and what decides them.

properties.jsonl and MANIFEST.json are generated from this table (python3 lib/gen.py).
"""
ALL = []
NA = []  # (id, title, statement, quantifier, why, anchors, reason)


def P(id, title, statement, over, quant, why, files, mechanism, harness, bounds, outside="", assumptions=(), quick=None, thorough=None,
      extra=(), extra_sym=(), budget=None, observe=(), note=""):
    ALL.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism, harness=harness,
                    bounds=bounds, outside=outside, assumptions=list(assumptions), quick=quick or {}, thorough=thorough or {}, extra=list(extra),
                    extra_sym=list(extra_sym), budget=budget, observe=list(observe), note=note, na=None))


def N(id, title, statement, over, quant, why, files, mechanism, reason):
    ALL.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism, observe=[], na=reason))


TRUST = "clang's parser and AST navigation, libstdc++ and LLVM data structures are executed as compiled; LLVM string helpers that are not header-only are modelled by harness/sup.cpp in the symbolic run and by the original in replays"

P("C01", "Check selection does what the arguments and CLAZY_CHECKS ask for",
  "The set of checks that run is determined by the plugin/standalone check list, the optional level argument and the CLAZY_CHECKS environment variable exactly as documented: named checks and checks of named fixits are on, levelN turns on every check documented at that level or below, no-<check> from either source turns that check off, unknown names are ignored, nothing requested means level1, a check list naming nothing known selects nothing, the result has every check once and in name order, and asking twice gives the same answer. "
  "The checks on offer, their levels, fixits, the kind of code they are hooked to and whether they can ignore included files are exactly those documented in checks.json. "
  "CLAZY_CHECKS_AS_ERRORS keeps exactly the listed names that are existing checks.",
  ["inputs", "configurations"],
  "every check-list token up to the stated length in every byte value, alone and next to known/unknown/negated/level/fixit/empty tokens, from the argument, from CLAZY_CHECKS (also quoted, also all_checks) or both, with every level argument",
  "the tests pass a few dozen fixed -checks values; selection is a function of two free-form strings and a level over 100+ registered checks, whose interactions (substring confusion, negation across sources, duplicates) no sample covers",
  ["src/checkmanager.cpp", "src/Checks.h", "src/Utils.cpp", "checks.json", "README.md"],
  [("CheckManager::requestedChecks, checksFromRequestedChecks, requestedChecksThroughEnv, disabled checks", "src/checkmanager.cpp"), ("registration table", "src/Checks.h")],
  "selection",
  {"quick": "one symbolic token of 1..48 bytes (every length at which a name, negation or fixit exists), 7 neighbour tokens, rotating argument/environment combinations",
   "thorough": "same with every combination of length, neighbour and source, up to 52 bytes"},
  thorough={"combo": 2, "maxtok": 52}, outside="two or more symbolic tokens at once; tokens longer than the bound (they name nothing)",
  assumptions=["CLAZY_CHECKS tokens that form a quoted value or the word all_checks are explored separately", TRUST])

P("C20", "qcolor-from-literal rewrites denote the literal's colour",
  "For a string literal handed to QColor(const char*), QColor::fromString or QColor::setNamedColor, qcolor-from-literal warns exactly when the literal starts with '#' (setNamedColor: and its length is one of 4, 7, 9, 10 or 13), complains about the length exactly when it is not one of those, and about the digits exactly when a non-hexadecimal digit follows. "
  "A rewrite is offered exactly for valid #RGB, #RRGGBB and #AARRGGBB literals, and the constructor arguments it inserts denote the same colour: one 0xRRGGBB value for three or six digits, (r, g, b, a) in that order for eight.",
  ["inputs"], "every literal of the stated lengths with every byte value, in the three call forms",
  "the tests contain a dozen literals; the rewrite is arithmetic on up to eight digits in three notations", ["src/checks/level0/qcolor-from-literal.cpp"],
  [("classification and fixit construction", "src/checks/level0/qcolor-from-literal.cpp")],
  "qcolor", {"quick": "literals of 1..14 bytes, all 256 byte values", "thorough": "1..17 bytes"}, thorough={"maxlen": 16}, outside="longer literals; wide/UTF-16 literals",
  assumptions=[TRUST])

P("C02", "clazy: comments silence exactly what they name",
  "A C++ comment containing clazy:skip silences every warning in its file; clazy:excludeall=LIST silences the listed checks in its file; clazy:exclude=LIST silences the listed checks on the comment's own line; clazy:exclude-next-line=LIST on the following line. "
  "LIST is comma separated, holds exact check names without the clazy- prefix and ends at the first white space; the comment may stand anywhere in the file, including at its very end without a newline, and comments in a header act on that header only. "
  "Nothing else silences a warning, and each of several warnings on a covered line is silenced.",
  ["inputs", "programs"], "every content of a sliding window of the comment text (all byte values), for 12 template files and every line, file and check name probed",
  "the tests hold three suppression files with fixed comments; which warnings vanish depends on free text, position, file and check name", ["src/SuppressionManager.cpp", "src/checkbase.cpp", "README.md", "docs/man/clazy.pod"],
  [("comment scan and directive parsing", "src/SuppressionManager.cpp"), ("suppression test before emission", "src/checkbase.cpp")],
  "suppression", {"quick": "12 files, windows of 4 arbitrary bytes tiling each comment; check names aa, aa-b, b", "thorough": "windows of 5 bytes at every second offset"},
  quick={"family": 0, "width": 4, "step": 4}, thorough={"width": 5, "step": 2},
  outside="C-style comments (documented as ignored, in fact honoured); several directives in one comment; line splices, trigraphs", assumptions=["comment bytes are not newline, CR, NUL, backslash or '?'", TRUST])

P("C03", "NOLINT comments silence exactly what they name",
  "NOLINT silences warnings on its own line, NOLINTNEXTLINE on the next line, NOLINTBEGIN...NOLINTEND (matching lists) on every line from the one to the other, nested blocks included. "
  "Without a parenthesised list every check is silenced; with one, exactly the checks matched by an entry clazy-<glob> ('*' stands for any characters, entries are comma separated with optional blanks), and entries for other tools silence nothing. "
  "This holds for each of several warnings on a line and for several entries and comments affecting the same line, and nothing else silences a warning.",
  ["inputs", "programs"], "every content of a sliding window of the comment text (all byte values), for 17 template files and every line, file and check name probed",
  "one test file with fixed comments, one warning and one list entry per line; lists, globs, blanks, nesting and repeated warnings interact", ["src/SuppressionManager.cpp", "src/checkbase.cpp", "Changelog"],
  [("NOLINT parsing, glob to regular expression, line and block tables", "src/SuppressionManager.cpp")],
  "suppression", {"quick": "17 files, windows of 3 arbitrary bytes tiling each comment; check names aa, aa-b, b", "thorough": "windows of 4 bytes at every second offset"},
  quick={"family": 1, "width": 3, "step": 3}, thorough={"width": 4, "step": 2},
  outside="spellings whose meaning is undocumented: NOLINTfoo, NOLINT(), NOLINT(*), a missing ')', tabs inside lists; overlapping blocks", assumptions=["comment bytes are not newline, CR, NUL, backslash or '?'", "llvm::Regex is modelled for literals, '.', '*', '^', '$' (harness/sup.cpp); replays use the original", TRUST])

P("C04", "The line filter passes exactly the listed files and lines",
  "With -line-filter, a warning is shown exactly if some entry's name is a suffix of the (presumed) file name the warning is attributed to and either that entry lists no lines or one of its ranges, both ends included, contains the warning's line. "
  "Without a filter, and for warnings that cannot be attributed to a place, nothing is filtered.",
  ["inputs", "configurations"], "every entry name, file name, line number and pair of range limits (64-bit) for 45 shapes of the filter",
  "the tests use two or three filters; suffix matching, inclusive limits and several entries interact", ["src/ClazyContext.cpp", "src/ClazyContext.h", "src/ClazyStandaloneMain.cpp", "src/checkbase.cpp"],
  [("parseLineFilter, passesLineFilter", "src/ClazyContext.cpp"), ("filtering before emission", "src/checkbase.cpp")],
  "pipeline", {"quick": "file names of 4 bytes, 45 filters of 0-3 entries with names of 0-5 bytes and 0-3 ranges, all byte values, all 64-bit limits, all lines below 2^31", "thorough": "file names of 7 bytes, entry names up to 8 bytes"},
  quick={"family": 0}, thorough={"deep": 1, "file": 7}, outside="the JSON reader itself (llvm::json), malformed filters",
  assumptions=["SourceManager::getPresumedLoc answers with an arbitrary file name and line", TRUST])

P("C05", "Header filter and ignored directories decide which files are reported",
  "A warning whose place (the expansion, for macros) lies in a header is shown exactly if the header filter, when given, matches somewhere in the header's name and the ignored-directories expression, when given, does not; a warning in the main file is never subject to the header filter. "
  "Ignored directories win over the header filter.",
  ["inputs", "configurations"], "every header and main file name of the stated length against every pair of 8 header filters and 8 ignore expressions, for warnings in the main file, in a header and in a macro defined in the header",
  "the tests run a handful of filters over fixed paths", ["src/ClazyContext.h", "src/ClazyContext.cpp", "src/checkbase.cpp", "README.md"],
  [("shouldIgnoreFile, fileMatchesLoc, isMainFile", "src/ClazyContext.h")],
  "pipeline", {"quick": "names of 6 bytes, all byte values; 94 combinations of filters and place", "thorough": "all combinations of filters and place"},
  quick={"family": 1}, thorough={"deep": 1}, outside="other regular expressions than the 7 listed (no filter, literal, ^, $, .*, alternation with group, character class with +, everything)",
  assumptions=["llvm::Regex is modelled by an automaton in the symbolic run (harness/sup.cpp); replays use the original", TRUST])

P("C06", "Every warning is shown once, with its own text, name, place and severity",
  "Each warning a check emits reaches the compiler as one diagnostic at the warning's place whose text is the check's message, whatever characters it holds, followed by [-Wclazy-<name>] (no tag under clang-tidy or when the check asks for none), with all its fix-its unchanged; only a repetition by the same check at the same presumed place inside a macro is dropped. "
  "It is an error exactly if the check is named in CLAZY_CHECKS_AS_ERRORS, or warnings are errors and CLAZY_NO_WERROR is not set. Queued manual-intervention notes follow the check's next shown warning, once per presumed place.",
  ["inputs", "histories", "configurations"], "every sequence of up to three emissions or queued notes over plain and macro places (any coincidence of presumed places), every message and fix-it text of the stated lengths, every combination of the severity switches",
  "tests compare fixed output files; duplicate suppression and note queues are state carried across warnings, and texts come from user code", ["src/checkbase.cpp", "src/ClazyContext.cpp"],
  [("emitWarning, reallyEmitWarning, warningAlreadyEmitted, queueManualFixitWarning", "src/checkbase.cpp"), ("default warning reporter", "src/ClazyContext.cpp")],
  "pipeline", {"quick": "2 checks: sequences of 2, 1 check: sequences of 3; texts of 0-3 bytes, 0-2 fix-its, all byte values but NUL; two places whose presumed file names (#line) are 6 symbolic bytes", "thorough": "sequences of 3 with two checks and of 4 with one; texts of up to 6 bytes"},
  quick={"family": 2}, thorough={"deep": 1}, outside="the clang-tidy reporter (C14)",
  assumptions=["the text of a diagnostic means what clang's diagnostic format says (%N, %%)", TRUST])

P("C07", "Checks see exactly the code they are meant to",
  "A check hooked to statements or declarations is shown every statement or declaration that lies outside system headers, each once, in traversal order (typedefs in system headers too for a check hooked to all typedefs); with ignore-included-files, a check that can ignore included files is shown the main file only; implicit code is shown only with visit-implicit-code; while it is shown, the context knows its parents and the enclosing function. "
  "AST-matcher checks run on every file as well. Warnings that are errors (-Werror, CLAZY_CHECKS_AS_ERRORS) keep nothing from the checks. With only-qt, nothing is shown in a translation unit unless its command line leaves QT_CORE_LIB defined (-DQT_CORE_LIB, -DQT_CORE_LIB=value; not undone by a later -UQT_CORE_LIB).",
  ["inputs", "programs", "configurations"], "every kind (user, system, extern \"C\" system, module map) of each of three files, every option word, every set of hooks, every -D/-U argument of the stated lengths, every place and severity of an earlier warning",
  "the tests exercise single options on single files; what is visited depends on file kinds, options, hooks and macro expansion across files together", ["src/Clazy.cpp", "src/ClazyVisitHelper.h", "src/ClazyContext.cpp", "src/MacroUtils.h", "README.md"],
  [("VisitStmt, VisitDecl, addCheck", "src/ClazyVisitHelper.h"), ("HandleTranslationUnit", "src/Clazy.cpp"), ("isQt, isPredefined", "src/ClazyContext.cpp, src/MacroUtils.h")],
  "visit", {"quick": "one main file with two headers (classes, templates, namespaces, macros across files), two checks; one -D/-U of 10-14 bytes, two of 11 or 13 bytes", "thorough": "same"},
  outside="other syntax than the template's; more than two -D/-U arguments", assumptions=["SourceManager::getFileCharacteristic answers with an arbitrary kind per file", TRUST])

P("C08", "The exported fix-its file holds every warning shown, with its fix-its",
  "With -export-fixes or CLAZY_EXPORT_FIXES every warning shown, clazy's and the compiler's, whether shown as a warning or promoted to an error, is written once, in order, with its check's name, its message without the [-Wclazy-...] tag, its file and offset (of the expansion, for macros), its level, its notes and all its fix-its (file, offset, length, text); nothing else is. "
  "The plugin writes <main file>.clazy.yaml for each translation unit, holding that unit's warnings only; clazy-standalone writes the one file named, holding the warnings of all translation units processed, also if some cannot be processed. What the compiler shows does not change.",
  ["inputs", "histories"], "every message and fix-it text of the stated lengths, every place, fix-it kind and severity, for sequences of warnings and of translation units (any of which may be missing or silent)",
  "the tests apply the exported fixes of single files; names and messages are cut out of free text and the file accumulates state over translation units", ["src/FixItExporter.cpp", "src/ClazyContext.cpp", "README.md"],
  [("HandleDiagnostic, ConvertDiagnostic, ConvertFixIt, Export", "src/FixItExporter.cpp"), ("exporter set-up and tear-down", "src/ClazyContext.cpp")],
  "exporter", {"quick": "texts of 0-4 bytes, untagged texts of 9, 0-2 fix-its of 1-3 bytes, sequences of 2 warnings, 2 and 3 translation units with 0-2 warnings each", "thorough": "texts up to 8 bytes, 3 fix-its, sequences of 3"},
  thorough={"deep": 1}, extra_sym=["exporter_sym.cpp"], outside="conflicting fix-its; how the YAML writer quotes; writing the file itself; fix-its inside macros",
  assumptions=["llvm::yaml::Output and opening the file are replaced by a recorder; tooling::Replacement(s) and DiagnosticMessage are modelled in the symbolic run (harness/exporter_sym.cpp), replays use the originals",
               "texts are printable ASCII; an untagged message does not itself end like a tag", TRUST])

P("C09", "connect-not-normalized warns exactly for signatures Qt would normalise",
  "A SIGNAL() or SLOT() signature in QObject::connect, or a type in Q_ARG, Q_RETURN_ARG, QMetaMethod and friends, is reported exactly if it differs from its normal form as QMetaObject::normalizedSignature/normalizedType would build it (blanks, const T &, struct/class/enum keywords, unsigned spellings, template closers), and the report names the signature as written and that normal form.",
  ["inputs"], "every signature derivable from a grammar of types (names of symbolic bytes, blanks anywhere, nested templates, pointers, references, const, tags, unsigned spellings)",
  "the tests hold a few dozen signatures; normalisation is a character-level state machine over nested types", ["src/checks/level0/connect-not-normalized.cpp", "src/NormalizedSignatureUtils.h"],
  [("normalizedSignature, normalizedType", "src/NormalizedSignatureUtils.h"), ("the check", "src/checks/level0/connect-not-normalized.cpp")],
  "signature", {"quick": "272 grammar shapes, names of symbolic letters, a blank or none at every joint", "thorough": "all names and blanks symbolic together"},
  thorough={"deep": 1}, outside="types on which Qt 5.6's own normalisation is inconsistent: const T*const, const T&&, references to pointers, const behind a template argument list before a pointer, 'struct S const', 'unsigned const'",
  assumptions=["the expected normal form is built alongside the signature, not computed from it", TRUST])

P("C14", "Under clang-tidy the checks say what they say in the plugin",
  "Run as a clang-tidy module, exactly the enabled clazy-<check> checks run, on every translation unit except qmlcache's generated ones, whichever checks and translation units came before; each warning the plugin shows is shown once, under its check's name, with the same text (without the [-Wclazy-...] tag), whatever characters it holds, at the same place and with the same fix-its, as an error exactly if CLAZY_CHECKS_AS_ERRORS lists the check.",
  ["inputs", "configurations", "histories"], "every subset of four checks (AST matcher, statement, preprocessor), promoted or not, literals and the main file's name with symbolic bytes, sequences of two translation units",
  "the tests run every check through clang-tidy one file at a time, with one check on", ["src/ClazyClangTidyModule.cpp", "src/ClazyVisitHelper.cpp"],
  [("ClazyCheck, ClazyModule", "src/ClazyClangTidyModule.cpp"), ("shouldCheckFile", "src/ClazyVisitHelper.cpp")],
  "tidy", {"quick": "four checks on one template; 2 bytes of two literals; file names of 13 and 15 bytes; two translation units", "thorough": "same"},
  outside="clang-tidy's own driver, NOLINT handling and YAML; the other checks; libclang-cpp's and libclangTidy's internals", assumptions=["the plugin's reports on the same code are the reference (C20, C09 decide those)", TRUST])

P("C13", "Plugin and standalone options arrive as documented",
  "Whatever their order and whatever other arguments surround them, the plugin arguments export-fixes, only-qt, qt-developer, visit-implicit-code, ignore-included-files, print-requested-checks and help do exactly what they name and are not mistaken for checks, any other single argument is the check list, and a second one is refused. "
  "CLAZY_EXPORT_FIXES exports fixes; CLAZY_HEADER_FILTER and CLAZY_IGNORE_DIRS apply where no argument is given; a check's option is set exactly if CLAZY_EXTRA_OPTIONS lists <check>-<option>. clazy-standalone's command-line options turn on the same settings, and no check runs on qmlcache's generated files.",
  ["inputs", "configurations"], "every argument token of the stated lengths among known ones in any order, every environment value of the stated lengths, every combination of the standalone options",
  "the tests use fixed command lines; options come from argument lists, environment variables and main-file names that combine freely", ["src/Clazy.cpp", "src/ClazyStandaloneMain.cpp", "src/ClazyContext.cpp", "src/ClazyContext.h", "README.md"],
  [("ClazyASTAction::ParseArgs, CreateASTConsumer", "src/Clazy.cpp"), ("ClazyToolActionFactory", "src/ClazyStandaloneMain.cpp")],
  "options", {"quick": "222 shapes of argument lists, environment values and command lines", "thorough": "longer tokens and all orders"},
  thorough={"deep": 1}, outside="the shell wrapper around the plugin (clazy.cmake); LLVM's own command-line parser", assumptions=[TRUST])

P("C10", "The preprocessor checks warn about exactly what they document",
  "qt-keywords and qt-keyword-emit report exactly the uses of foreach, signals, slots and emit that Qt's own headers define, never with QT_NO_KEYWORDS, with a fix-it to the Q_ spelling of exactly that token. qt-macros reports testing Q_OS_WINDOWS with Qt older than 5.12.4, and testing any Q_OS_ macro before one has been defined, and nothing under a precompiled header. "
  "no-module-include reports exactly #include of a Qt module's own header, except QtDBus from a file generated by qdbusxml2cpp and what a Qt<Module>Depends file includes. qenums reports Q_ENUMS in user code from Qt 5.5 on unless its argument is qualified. The Qt version is the first complete MAJOR, MINOR, PATCH the translation unit expands.",
  ["inputs", "programs", "configurations"], "every macro name, header name, -D argument, included name, file name and version digit of the stated lengths, in every order of version macros listed",
  "the tests have one file per check; names, their origin, the Qt version and what came before interact", ["src/checks/manuallevel/qt-keywords.cpp", "src/checks/manuallevel/qt-keyword-emit.cpp", "src/checks/level0/qt-macros.cpp", "src/checks/level0/no-module-include.cpp", "src/checks/level0/qenums.cpp", "src/PreProcessorVisitor.cpp"],
  [("the checks' preprocessor callbacks", "src/checks, src/checkbase.cpp"), ("Qt version", "src/PreProcessorVisitor.cpp")],
  "ppchecks", {"quick": "names of 4-14 bytes, included names of 4-34 bytes, 10 orders of version macros, Q_ENUMS arguments of 1-5 bytes, windows of 6 bytes of the generated-file marker; all byte values (identifiers: all identifier characters)", "thorough": "all combinations of lengths, file names up to 20 bytes"},
  thorough={"deep": 1}, outside="clang's preprocessor, which is replayed with the symbolic names it would have seen; macro functions as keywords", assumptions=["reading the including file back is replaced by symbolic text", TRUST])

P("C16", "Q_PROPERTY declarations are understood whatever their layout",
  "qproperty-without-notify reports exactly the Q_PROPERTYs in user code that have READ but neither NOTIFY nor CONSTANT, and qproperty-type-mismatch exactly the READ, WRITE, NOTIFY, MEMBER functions and members whose type is not the property's, under the check's rules (const, references and the namespace the class is in do not matter): whichever white space separates the words, in whichever order they come, however many properties and classes there are. "
  "No content of a Q_PROPERTY makes either of them read beyond its text.",
  ["inputs", "programs"], "every word of the stated lengths (all identifier characters), every separator, any text of the stated length in the macro's parentheses",
  "the tests contain a few dozen well-formed properties, each on one line, separated by single spaces", ["src/checks/level1/qproperty-without-notify.cpp", "src/checks/manuallevel/qproperty-type-mismatch.cpp", "src/StringUtils.h"],
  [("splitting the macro's text", "src/checks/level1/qproperty-without-notify.cpp, src/checks/manuallevel/qproperty-type-mismatch.cpp"), ("comparing types", "src/checks/manuallevel/qproperty-type-mismatch.cpp")],
  "qproperty", {"quick": "properties of up to 5 words, one of them symbolic in 2..8 characters, separators of 1-2 white space characters, 4-5 arbitrary bytes of text", "thorough": "every combination of words, lengths and separators"},
  thorough={"deep": 1}, outside="types of several words or with template arguments, nested classes, overloads serving as both READ and WRITE, comments inside Q_PROPERTY", assumptions=[TRUST])

P("C17", "Fix-its say the same as the code they replace, and add each include once",
  "use-chrono-in-qtimer reports exactly the non-zero constant times handed to QTimer::start, setInterval and singleShot, suggests a chrono literal of exactly that time in the largest unit that divides it, replaces exactly the argument, and adds #include <chrono> behind the includes exactly once and only if the file does not include it yet. "
  "missing-qobject-macro reports exactly the non-nested, non-template classes derived from QObject without Q_OBJECT between their own braces in that file, none under a precompiled header, inserts Q_OBJECT behind the opening brace, and adds the include of the file's own moc file at the end of .cpp files exactly once and only if the file does not have it yet.",
  ["inputs", "programs"], "every number and constant expression of the stated forms, every name of classes, functions, macros and included files of the stated lengths",
  "the tests have a few timers and classes; the suggestion is arithmetic, and what is added depends on everything the file includes", ["src/checks/manuallevel/use-chrono-in-qtimer.cpp", "src/checks/level2/missing-qobject-macro.cpp", "src/PreProcessorVisitor.cpp"],
  [("unpackValue, warn", "src/checks/manuallevel/use-chrono-in-qtimer.cpp"), ("VisitDecl", "src/checks/level2/missing-qobject-macro.cpp"), ("hasInclude, endOfIncludeSection", "src/PreProcessorVisitor.cpp")],
  "fixes", {"quick": "numbers in windows of 256 or 65536 values around 0, 1000, 60000, 3600000, 10^8 and 2^31, alone and in 8 kinds of expression; names of 5-8 bytes; up to two includes of 5-8 bytes, quoted, angled or made by a header; 7 places for Q_OBJECT, 7 kinds of class", "thorough": "all combinations"},
  thorough={"deep": 1}, outside="values whose product overflows; nested parentheses in the expression; classes written by macros", assumptions=[TRUST])

NAMES_OUT = "which shapes of code around the call count (assignments, conversions, chains) beyond those in harness/names_rows.h; Qt in a namespace; libclang-cpp's internals"
NAMES_BOUNDS = {"quick": "%s, each with a symbolic class or function name (all identifier characters) of every length the documented names have plus one other, in one of four contexts per length; the known and the arbitrary names are told apart by the solver", "thorough": "every length in every context, one more length"}

P("C21", "Container and iterator checks recognise exactly the classes and functions meant",
  "container-anti-pattern, container-inside-loop, detaching-temporary, detaching-member, temporary-iterator, isempty-vs-count, mutable-container-key, qdeleteall, qhash-namespace, qhash-with-char-pointer-key, qmap-with-pointer-key, range-loop-detach, reserve-candidates and strict-iterators give their warning for exactly the Qt container classes and member functions each is about and for no other name, whether the code stands in a function, a default member initialiser, the initialiser of a global or a lambda; "
  "the message names the class or function found, the fix-it replaces exactly the part of the code concerned by that function's documented counterpart (first by constFirst, begin by cbegin, count() == 0 by isEmpty(), ...), and none of them crashes. Each warning is given once, where the code concerned begins, and neighbouring forms of code that are fine stay silent.",
  ["inputs", "programs"], "every name of the stated lengths for the class or the member function of each template",
  "the tests use a handful of the (class, function) pairs, mostly inside functions; the tables behind the checks hold hundreds", ["src/QtUtils.h", "src/checks/detachingbase.cpp", "src/checks/level0", "src/checks/level1", "src/checks/manuallevel"],
  [("class and function tables", "src/QtUtils.h"), ("the checks' VisitStmt/VisitDecl", "src/checks")],
  "names", {k: v % "127 templates" if "%" in v else v for k, v in NAMES_BOUNDS.items()}, quick={"family": 1}, thorough={"family": 1, "deep": 1}, outside=NAMES_OUT, assumptions=[TRUST])

P("C22", "Other API checks recognise exactly the classes and functions meant",
  "raw-environment-function, qstring-left, lowercase-qml-type-name, qgetenv, writing-to-temporary, unused-non-trivial-variable, qdatetime-utc, qfileinfo-exists, child-event-qobject-cast, post-event, tr-non-literal, qvariant-template-instantiation, qstring-insensitive-allocation, install-event-filter, returning-data-from-temporary, base-class-event, qlatin1string-non-ascii, qstring-varargs, use-arrow-operator-instead-of-data, non-pod-global-static, lambda-in-connect, connect-3arg-lambda and wrong-qglobalstatic give their warning for exactly the classes and functions each is about and for no other name, wherever the code stands; "
  "lists given in their environment variables extend theirs, the message names what was found, the fix-it replaces exactly the code concerned by the documented counterpart, and none of them crashes. Each warning is given once, where the code concerned begins, and neighbouring forms of code that are fine stay silent.",
  ["inputs", "programs", "configurations"], "every name of the stated lengths for the class or the function of each template",
  "the tests use the right names and a few wrong ones, mostly inside functions", ["src/checks/level0", "src/checks/level1", "src/checks/level2", "src/checks/manuallevel", "src/QtUtils.h"],
  [("the checks' VisitStmt/VisitDecl", "src/checks"), ("class and function tables", "src/QtUtils.h")],
  "names", {k: v % "78 templates" if "%" in v else v for k, v in NAMES_BOUNDS.items()}, quick={"family": 2}, thorough={"family": 2, "deep": 1}, outside=NAMES_OUT, assumptions=[TRUST])

P("C23", "wrong-qevent-cast knows which event types belong to which class",
  "Inside a case of a switch over a QEvent's type(), wrong-qevent-cast reports static_cast of that event to a class exactly if the class is neither the one named like the enumerator (Q<Enumerator>Event) nor one documented for the enumerator's value, judging by the innermost case of a switch over that event; never in an if that tests the event, for other events or outside a switch. The warning names the enumerator and the class.",
  ["inputs", "programs"], "every enumerator value and name and every class name of the stated lengths",
  "the tests have a few (type, class) pairs out of a table of 60 types", ["src/checks/level0/wrong-qevent-cast.cpp"],
  [("eventTypeMatchesClass, getCaseStatement", "src/checks/level0/wrong-qevent-cast.cpp")],
  "qevent", {"quick": "enumerator values of 8 bits, class names of 7-29 characters, enumerator names of length 4 and of the length that could match, 8 places", "thorough": "values of 16 bits, every place with every length"}, thorough={"deep": 1},
  outside="QEvent in a namespace; enumerators written as expressions", assumptions=[TRUST])

P("C11", "Signals, slots and invokables are recognised by section and annotation",
  "A member function of a QObject class counts as a signal, slot or invokable exactly if it stands in a section opened by signals/Q_SIGNALS or slots/Q_SLOTS (until the next access specifier of that class), or directly follows Q_SIGNAL, Q_SLOT, Q_INVOKABLE or Q_SCRIPTABLE, whatever blanks, new lines and comments stand in between, however many classes and sections the file has, and whichever namespace Qt is in. "
  "Judged by const-signal-or-slot and fully-qualified-moc-types, which report exactly the functions so recognised; a macro of any other name annotates nothing.",
  ["inputs", "programs"], "every macro name of the stated lengths (all identifier characters) in each of the section and annotation shapes and layouts",
  "the tests contain the usual macros, each on one line; which function is what is decided by comparing source locations of macros, access specifiers and declarations", ["src/AccessSpecifierManager.cpp", "src/AccessSpecifierManager.h", "src/Utils.cpp", "src/QtUtils.h"],
  [("AccessSpecifierManager, its preprocessor callbacks", "src/AccessSpecifierManager.cpp"), ("locForNextToken", "src/Utils.cpp")],
  "sections", {"quick": "one symbolic macro name of the documented lengths and some others, 4 layouts, 10 surroundings (derived and local classes, a namespace for Qt, another QObject class or plain struct with sections before or behind it, not a QObject)", "thorough": "lengths 5 to 12 in every layout and surrounding"},
  thorough={"deep": 1}, outside="several annotations on one function; annotations behind virtual; macros that expand to the sections", assumptions=["clang's lexer runs natively on the concrete parts of the file", TRUST])

P("C12", "What is reported about a translation unit does not depend on earlier ones",
  "When clazy analyses several translation units in one process (clazy-standalone, clang-tidy), what is reported about one, and the fix-its, are the same as if it were analysed alone, whatever was analysed before it.",
  ["inputs", "histories"], "the templates of C21, C22, C24, C25 and C26, each analysed after itself and after a different template of the same check, with a symbolic name in the one judged",
  "the tests analyse one file per process; checks keep static and member state", ["src/checks", "src/ClazyContext.cpp", "src/checkbase.cpp", "src/AccessSpecifierManager.cpp", "src/PreProcessorVisitor.cpp"],
  [("static state in checks", "src/checks"), ("ClazyContext", "src/ClazyContext.cpp")],
  "twice", {"quick": "669 pairs of templates", "thorough": "same, every length of the symbolic name"}, quick={"again": 1}, thorough={"again": 1, "deep": 1}, outside="three or more translation units; checks without a template; the suppression comments (C02, C03 keep one manager per file) and the exporter (C08)", assumptions=[TRUST])

P("C15", "ifndef-define-typo warns exactly for names a small typo apart",
  "Between an #ifndef and the next conditional directive or the next #define or defined() of exactly its name, ifndef-define-typo reports exactly the #defines and defined() tests of a name of at least four characters that is one or two edits (insertions, deletions, replacements) away from the #ifndef's name, unless that is Q_CONSTRUCTOR_FUNCTION. The warning stands at the name and quotes both.",
  ["inputs", "programs"], "every pair of names of the stated lengths that differ from a base in a window of symbolic characters, in each arrangement of conditionals",
  "the tests have a few pairs; the decision is an edit distance and a state machine over preprocessor events", ["src/checks/manuallevel/ifndef-define-typo.cpp"],
  [("maybeWarn and the preprocessor callbacks", "src/checks/manuallevel/ifndef-define-typo.cpp")],
  "typo", {"quick": "names of 3-22 characters, up to 4 symbolic at a time, all identifier characters", "thorough": "up to 5 symbolic characters, all arrangements"}, thorough={"deep": 1},
  outside="#elifdef and #elifndef; names made by macros", assumptions=["llvm's edit_distance is modelled by harness/sup.cpp in the symbolic run", TRUST])

P("C18", "jni-signatures reports exactly invalid JNI names and signatures",
  "jni-signatures reports the class name, method name or signature handed to QAndroidJniObject's constructors and call functions exactly if it is not a Java class name with '/' between packages, a Java method name, or a JNI method signature (any number of argument types, arrays of any dimension, classes L...;, and a return type or V). The warning says which and quotes it.",
  ["inputs"], "every text that differs from a base in a window of the stated size, all ASCII values, in ten calls",
  "the tests have a dozen strings; validity is a language with nested repetition", ["src/checks/manuallevel/jnisignatures.cpp"],
  [("the regular expressions and checkArgAt", "src/checks/manuallevel/jnisignatures.cpp")],
  "jni", {"quick": "texts of 1-38 characters, windows of 2 characters tiling them", "thorough": "windows of 3 characters at every offset"}, thorough={"deep": 1},
  outside="names with characters beyond ASCII (which Java allows); literals made of several tokens", assumptions=["std::regex is executed symbolically as compiled", TRUST])

P("C19", "unexpected-flag-enumerator-value reports exactly the odd one out of flags",
  "In named enums of at least four enumerators, all with a written value, of which at most half are no powers of two and the first four do not count up by one, unexpected-flag-enumerator-value reports exactly the values that are neither a power of two nor zero nor negative, unless they are three or more consecutive ones, the name contains 'mask' in any case, or the value is written as an operator on or reference to others; the warning says the value. This holds for every underlying type and all values.",
  ["inputs", "programs"], "every value of one enumerator byte by byte at every byte of 8 to 64 bit underlying types, in each arrangement",
  "the tests have a few enums of int values", ["src/checks/manuallevel/unexpected-flag-enumerator-value.cpp"],
  [("VisitDecl, isFlagEnum, isIntentionallyNotPowerOf2", "src/checks/manuallevel/unexpected-flag-enumerator-value.cpp")],
  "enums", {"quick": "108 arrangements, one enumerator's value with one symbolic byte, its name with symbolic characters", "thorough": "every arrangement, type, byte and name"}, thorough={"deep": 1},
  outside="enumerators beyond 7; values with two symbolic bytes", assumptions=[TRUST])

P("C24", "Signals are emitted, declared, overridden and connected as the checks say",
  "incorrect-emit reports a call of a signal exactly if no emit or Q_EMIT (the macros of exactly these names) stands right before the expression, blanks, comments and opening parentheses aside; a call with the keyword exactly if the member function of the QObject class is no signal; and a signal emitted on this in a constructor, outside a lambda. overloaded-signal, connect-by-name, connect-non-signal, lambda-unique-connection, virtual-signal, overridden-signal, skipped-base-method, thread-with-slots and signal-with-return-value report exactly the declarations, overrides and connections of the names, parameter types and sections they are documented to look for, and the warning names them.",
  ["inputs", "programs"], "every macro name and every function or class name of the stated lengths in each template",
  "the tests write emit and the usual class names in one layout; whether a keyword belongs to a call is decided by comparing source locations", ["src/checks/level1/incorrect-emit.cpp", "src/checks/level1", "src/checks/level0", "src/AccessSpecifierManager.cpp"],
  [("incorrect-emit: checkCallSignalInsideCTOR, hasEmitKeyboard", "src/checks/level1/incorrect-emit.cpp"), ("the other checks' VisitStmt/VisitDecl", "src/checks")],
  "signals", {"quick": "25 forms of calls in 5 layouts and 5 places with a symbolic keyword of 4 to 8 characters; 45 templates with a symbolic class, function or section name", "thorough": "every form with every layout and place, all lengths"}, quick={"family": 3}, thorough={"family": 3, "deep": 1},
  outside="signals connected as strings (C05); calls written by macros", assumptions=[TRUST])

P("C26", "Checks on classes, arguments and expressions report exactly what they document",
  "heap-allocated-small-trivial-type, qrequiredresult-candidates, qstring-comparison-to-implicit-char, empty-qstringliteral, rule-of-two-soft, rule-of-three, unneeded-cast, ctor-missing-parent-argument, global-const-char-pointer, implicit-casts, missing-typeinfo, returning-void-expression, virtual-call-ctor, assert-with-side-effects, use-static-qregularexpression, foreach, function-args-by-ref, function-args-by-value, copyable-polymorphic, static-pmf, used-qunused-variable and qstring-ref give their warning for exactly the classes, functions and declarations each is about, and not for the names on their lists of exceptions, types on the other side of the size limit of two pointers, or declarations that are private, deleted, defaulted, const or protected where the check says so. "
  "A name that merely begins with, ends in or contains a listed one is not a listed one; options (bool-to-int, prefer-dynamic-cast-over-qobject, warn-for-overridden-methods, qt-developer) change exactly what they say; the warning names what was found. used-qunused-variable reports exactly the parameters cast to void (or given to Q_UNUSED) that have another use in the function. Each warning is given once, where the code concerned begins, and neighbouring forms of code that are fine stay silent.",
  ["inputs", "programs", "configurations"], "every name of the stated lengths for the class or function in question in each template",
  "the tests have a few classes and functions of each kind; the lists of exceptions hold dozens of names", ["src/checks/level0", "src/checks/level1", "src/checks/level2", "src/checks/manuallevel", "src/checks/ruleofbase.cpp", "src/checks/manuallevel/used-qunused-variable.cpp", "src/QtUtils.cpp", "src/TypeUtils.cpp"],
  [("the checks' VisitStmt/VisitDecl", "src/checks"), ("isBlacklisted", "src/checks/ruleofbase.cpp"), ("classifyQualType, isSmallTrivial", "src/TypeUtils.cpp"), ("class and function tables", "src/QtUtils.cpp")],
  "names", {k: v % "179 templates (and 10 of void casts, in which the parameter each expression names is symbolic)" if "%" in v else v for k, v in NAMES_BOUNDS.items()}, quick={"family": 4}, thorough={"family": 4, "deep": 1}, outside=NAMES_OUT + "; foreach detaching through a plain variable", assumptions=[TRUST])

P("C25", "Fix-its replace exactly the code in question, however it is laid out",
  "Applying all fix-its of a check to the code gives exactly the documented rewrite: every other name, literal, comment and blank stays as it was, nothing is left over, and where the check cannot rewrite (code inside a macro, no constructor to keep, ...) it offers no fix-it. "
  "This holds whatever blanks, new lines and comments stand between the tokens and however operands are parenthesised.",
  ["inputs", "programs"], "every name (7 identifier characters), literal (3 arbitrary bytes) and comment text (2 arbitrary bytes) of the templates, in each layout",
  "the tests compare a few fixed files in one layout; fix-its are computed by searching tokens from source locations", ["src/FixItUtils.cpp", "src/FixItUtils.h", "src/checks"],
  [("FixItUtils", "src/FixItUtils.cpp"), ("the checks' fix-its", "src/checks")],
  "rewrite", {"quick": "308 templates of 19 checks in 4 layouts (nothing, blanks, comments, comments to the end of the line)", "thorough": "6 layouts, and a comment or blanks at each single place"}, thorough={"deep": 1},
  outside="shapes of code beyond harness/rewrite_rows.h; fix-its that overlap because one call is nested in another's arguments", assumptions=["libclang-cpp's lexer runs natively on the parts of the file that are concrete", TRUST])

P("C27", "AST-matcher checks report exactly what their matchers describe",
  "readlock-detaching reports exactly the calls (and operators) that may detach a member of a Qt container class between taking a lock for reading (a QReadLocker, or lockForRead() of a QReadWriteLock) and releasing it (its end of scope, or the next unlock()), compare-member-check exactly the uses of comparison operators that leave a member of the class out, and unused-result-check exactly the const member functions whose result is discarded by an expression statement; each once, at its place, and none of them crashes.",
  ["inputs", "programs"], "every class or function name of the stated lengths in each template; for comparison operators every choice of the members compared",
  "the tests have one file each", ["src/checks/level1/readlock-detaching.cpp", "src/checks/manuallevel/compare-member-check.cpp", "src/checks/manuallevel/unused-result-check.cpp", "src/QtUtils.cpp"],
  [("MemberCallVisitor, run", "src/checks/level1/readlock-detaching.cpp"), ("run, checkBinaryOperator", "src/checks/manuallevel/compare-member-check.cpp"), ("run", "src/checks/manuallevel/unused-result-check.cpp"), ("detachingMethods", "src/QtUtils.cpp")],
  "names", {"quick": "17 templates of locking, unlocking and calls in different orders and blocks, and of places of a call, each with a symbolic class or function name (all identifier characters) of every length the documented names have plus one other; classes of 1-3 members of number or class type and comparisons of 1-3 members, which ones is symbolic, in 5 layouts", "thorough": "one more length, every operator in every layout, one more comparison"}, quick={"family": 5}, thorough={"family": 5, "deep": 1},
  outside="which nodes the matchers themselves select: libclang-cpp's MatchFinder runs natively on the template, whose symbolic name has other lengths than the names the matchers compare it with; locks taken in conditions, unlocked in inner blocks or through other functions", assumptions=["the native matcher library selects the nodes it would select for the symbolic names", TRUST])

P("C29", "Checks on literals judge exactly the values they document",
  "qstring-left reports exactly left(0) and left(1), each with its own warning; isempty-vs-count reports a comparison of a temporary container's size(), count() or length() exactly if it is == 0, < 1 or > 0; qgetenv reports toInt() with a base exactly if the base is 0; qstring-comparison-to-implicit-char reports every number; lowercase-qml-type-name reports exactly the type names that do not begin with A-Z, qlatin1string-non-ascii exactly the literals with a byte beyond ASCII, empty-qstringliteral exactly the literals of length zero. Other arguments, operators and classes do not matter, and the fix-it is the documented one.",
  ["inputs", "programs"], "every value of the number (32 and 64 bit) or of the text's bytes in each template",
  "the tests have one or two values for each", ["src/checks/level1/qstring-left.cpp", "src/checks/manuallevel/isempty-vs-count.cpp", "src/checks/level0/qgetenv.cpp", "src/checks/level0/lowercase-qml-type-name.cpp", "src/checks/level1/qlatin1string-non-ascii.cpp", "src/checks/level0/empty-qstringliteral.cpp", "src/checks/level0/qstring-comparison-to-implicit-char.cpp"],
  [("the checks' VisitStmt", "src/checks"), ("isAscii", "src/Utils.cpp")],
  "values", {"quick": "25 templates with a number of 31 or 63 bits, 13 templates with a text of 0-3 bytes", "thorough": "texts of 0-8 bytes"}, thorough={"deep": 1},
  outside="literals containing NUL; prefixed and raw literals; numbers written as expressions", assumptions=[TRUST])

N("C28", "The clazy wrapper compiles as the compiler would",
  "clazy and clazy-cl hand the compiler exactly the arguments they were given, plus those that load the plugin with the requested checks, and return its exit status.",
  ["inputs", "configurations"], "every argument list and environment",
  "the tests call the plugin without the wrapper", ["clazy.cmake", "clazy-cl.bat"],
  [("the wrapper script", "clazy.cmake")],
  "the code is a shell script (and a batch file); no symbolic executor for either is installed, and encoding the shell by hand would judge a model instead of the code")
