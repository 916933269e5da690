// Elements wider than double: systems of long double, judged in __float128.
#pragma once
#include "sim.h"
#include <TooN/TooN.h>
#include <cfloat>
#include <cmath>
namespace wide {
using namespace TooN; using namespace sim;
typedef long double W; typedef __float128 Q;
struct Numbers { Rng g; explicit Numbers(uint64_t s) : g(s) {} W operator()() { W x = 0; for (int i = 0; i < 4; i++) x = x * 65536 + (W)g.below(65536); return x / 9223372036854775808.0L - 1; } };
inline Q mag(Q x) { return x < 0 ? -x : x; }
// |A x - b| of every column against what rounding in long double explains
template<class M, class X, class B> void residual(Run& r, const char* what, const M& a, int n, const X& x, const B& b, int cols) {
	Q worst = 0, scale = 0, xm = 0, am = 0;
	for (int c = 0; c < cols; c++) for (int i = 0; i < n; i++) { Q s = -(Q)b(i, c); for (int j = 0; j < n; j++) { s += (Q)a(i, j) * (Q)x(j, c); am = std::max(am, mag(a(i, j))); xm = std::max(xm, mag(x(j, c))); } worst = std::max(worst, mag(s)); }
	scale = am * xm * n + 1e-30L; Q tol = scale * (Q)LDBL_EPSILON * 60 * n;
	r.hash_double((double)(worst / scale)); r.steps(n * n);
	if (!(worst <= tol)) r.fail("wrong-answer", "%s of %d equations in long double leaves a residual of %g, %g of the system's size: the elements have lost their precision", what, n, (double)worst, (double)(worst / scale));
}
// a product of two that should be a third
template<class L, class R_, class A> void product(Run& r, const char* what, const L& l, const R_& q, const A& a, int rows, int mid, int cols) {
	Q worst = 0, scale = 1e-30L;
	for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { Q s = -(Q)a(i, j), t = 0; for (int k = 0; k < mid; k++) { s += (Q)l(i, k) * (Q)q(k, j); t += mag((Q)l(i, k) * (Q)q(k, j)); } worst = std::max(worst, mag(s)); scale = std::max(scale, t); }
	Q tol = scale * (Q)LDBL_EPSILON * 200 * (rows + cols); r.hash_double((double)(worst / scale)); r.steps(rows * cols);
	if (!(worst <= tol)) r.fail("wrong-answer", "%s of %d by %d elements of long double is off by %g, %g of its size: the elements have lost their precision", what, rows, cols, (double)worst, (double)(worst / scale));
}
}
