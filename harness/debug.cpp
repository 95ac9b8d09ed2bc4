// Uses of the reporting facilities with an observable condition and an observable continuation.
#include <cmath>
#include <cstdio>
#include <string>
#include "core/debug.h"

bool probe(int k);
void after(int k);

void error_plain(const char *f) { Error(f); after(0); }
void error_text(const char *f, const char *a) { Error(f, a); after(0); }
void error_numbers(const char *f, int a, double b, unsigned c) { Error(f, a, b, c); after(0); }
void error_in_branch(const char *f, int k) { if (probe(k)) Error(f, k); after(k); }
void assert_plain(int k) { Assertion(probe(k)); after(k); }
void assert_text(int k) { Assertion(probe(k), "text"); after(k); }
void assert_args(int k) { Assertion(probe(k), "text %d", k); after(k); }
void assert_branch(int k, bool c) {
    if (c)
        Assertion(probe(k), "text");
    else
        Assertion(probe(k + 1), "text");
    after(k);
}
void assert_or(int k) { Assertion(probe(k) || probe(k + 1), "text"); after(k); }
void assert_negated(int k) { Assertion(!probe(k), "text"); after(k); }
int assert_value(int k) { Assertion(k > 0, "text"); return k; }
