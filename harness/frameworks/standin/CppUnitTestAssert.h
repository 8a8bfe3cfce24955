// Stand-in for the parts of the Microsoft unit test framework an integration may use.
#pragma once
#include <string>
namespace Microsoft { namespace VisualStudio { namespace CppUnitTestFramework {
class __LineInfo {
public:
    __LineInfo(const wchar_t *, const char *, int) {}
};
struct AssertFailed { std::wstring message; };
class Assert {
public:
    static void Fail(const wchar_t *message = nullptr, const __LineInfo * = nullptr) { throw AssertFailed{message ? message : L""}; }
};
}}}
