// Pieces that some test frameworks need in one source file.
#ifdef VH_IMPLEMENT_DOCTEST
#define DOCTEST_CONFIG_IMPLEMENT
#include <doctest.h>
#endif
#ifdef VH_IMPLEMENT_QTEST
#include <QTest>
void QTest::qFail(const char *, const char *, int) {}
#endif
