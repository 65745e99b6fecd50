// precompiled third-party headers (no repository header)
#if defined(_GLIBCXX_EXTERN_TEMPLATE) && !_GLIBCXX_EXTERN_TEMPLATE // the symbolic run: std::to_string without tables, one path per length
#define to_string __to_string_with_table
#include <string>
#undef to_string
namespace std
{
[[clang::optnone, gnu::noinline, maybe_unused]] inline string __sym_digits(unsigned long long v, bool neg)
{
    char b[24];
    int i = 24;
    do {
        b[--i] = '0' + (char)(v % 10);
        v /= 10;
    } while (v);
    if (neg)
        b[--i] = '-';
    return string(b + i, 24 - i);
}
[[clang::optnone, gnu::noinline, maybe_unused]] inline string __sym_digits32(unsigned v, bool neg)
{
    char b[12];
    int i = 12;
    do {
        b[--i] = '0' + (char)(v % 10);
        v /= 10;
    } while (v);
    if (neg)
        b[--i] = '-';
    return string(b + i, 12 - i);
}
[[clang::optnone, gnu::noinline, maybe_unused]] inline string to_string(int v)
{
    if (v < 0)
        return __sym_digits32(-(unsigned)v, true);
    return __sym_digits32(v, false);
}
[[clang::optnone, gnu::noinline, maybe_unused]] inline string to_string(long v)
{
    if (v < 0)
        return __sym_digits(-(unsigned long)v, true);
    return __sym_digits(v, false);
}
inline string to_string(long long v)
{
    return to_string((long)v);
}
inline string to_string(unsigned v)
{
    return __sym_digits32(v, false);
}
inline string to_string(unsigned long v)
{
    return __sym_digits(v, false);
}
inline string to_string(unsigned long long v)
{
    return __sym_digits(v, false);
}
inline string to_string(float v)
{
    return __to_string_with_table(v);
}
inline string to_string(double v)
{
    return __to_string_with_table(v);
}
inline string to_string(long double v)
{
    return __to_string_with_table(v);
}
}
#endif
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/Decl.h>
#include <clang/AST/DeclBase.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclFriend.h>
#include <clang/AST/DeclGroup.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/DeclarationName.h>
#include <clang/AST/Expr.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/LambdaCapture.h>
#include <clang/AST/OperationKinds.h>
#include <clang/AST/ParentMap.h>
#include <clang/AST/PrettyPrinter.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/Redeclarable.h>
#include <clang/AST/Stmt.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtIterator.h>
#include <clang/AST/TemplateBase.h>
#include <clang/AST/Type.h>
#include <clang/ASTMatchers/ASTMatchFinder.h>
#include <clang/ASTMatchers/ASTMatchers.h>
#include <clang/ASTMatchers/ASTMatchersInternal.h>
#include <clang/Basic/CharInfo.h>
#include <clang/Basic/Diagnostic.h>
#include <clang/Basic/DiagnosticIDs.h>
#include <clang/Basic/FileManager.h>
#include <clang/Basic/IdentifierTable.h>
#include <clang/Basic/LLVM.h>
#include <clang/Basic/Lambda.h>
#include <clang/Basic/LangOptions.h>
#include <clang/Basic/Linkage.h>
#include <clang/Basic/OperatorKinds.h>
#include <clang/Basic/SourceLocation.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Basic/Specifiers.h>
#include <clang/Basic/TokenKinds.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Frontend/FrontendDiagnostic.h>
#include <clang/Frontend/FrontendPluginRegistry.h>
#include <clang/Lex/Lexer.h>
#include <clang/Lex/MacroInfo.h>
#include <clang/Lex/PPCallbacks.h>
#include <clang/Lex/Preprocessor.h>
#include <clang/Lex/PreprocessorOptions.h>
#include <clang/Lex/Token.h>
#include <clang/Parse/Parser.h>
#include <clang/Rewrite/Frontend/FixItRewriter.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Core/Diagnostic.h>
#include <clang/Tooling/DiagnosticsYaml.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/ArrayRef.h>
#include <llvm/ADT/IntrusiveRefCntPtr.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringRef.h>
#include <llvm/ADT/iterator_range.h>
#include <llvm/Config/llvm-config.h>
#include <llvm/Support/Casting.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/raw_ostream.h>
#include <vector>
#include <string>
#include <utility>
#include <unordered_map>
#include <algorithm>
#include <cctype>
#include <memory>
#include <cstdlib>
#include <iterator>
#include <string_view>
#include <regex>
#include <cassert>
#include <set>
#include <mutex>
#include <map>
#include <stack>
#include <sstream>
#include <numeric>
#include <iostream>
#include <functional>
#include <filesystem>
#include <cstring>
#include <array>
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/ASTMatchers/ASTMatchers.h"
#include "clang/ASTMatchers/ASTMatchFinder.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
