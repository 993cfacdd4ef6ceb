// Exact phase-1 simplex: is there x >= 0 with A*x = b?  Integer-preserving
// pivoting with Bland's rule; the linear domain of lib/sym.py calls it.
#include <cstdint>
#include <vector>
typedef __int128 I;

static bool mul_sub(I a, I p, I b, I c, I d, I* out) {
  I x, y, r;
  if (__builtin_mul_overflow(a, p, &x) || __builtin_mul_overflow(b, c, &y) ||
      __builtin_sub_overflow(x, y, &r))
    return false;
  *out = r / d;
  return true;
}

// rows: m rows of n coefficients and the right-hand side.  Returns 1 feasible,
// 0 infeasible, -1 numbers too large, -2 work limit reached.  *work is reduced
// by the number of cells computed.
extern "C" int lp_feasible(const int64_t* rows, int m, int n, int64_t* work) {
  const int w = n + 1;
  std::vector<std::vector<I>> A(m + 1, std::vector<I>(w));
  std::vector<int> basis(m);
  for (int i = 0; i < m; i++) {
    const int64_t* r = rows + static_cast<int64_t>(i) * w;
    const bool neg = r[n] < 0;
    for (int j = 0; j < w; j++) {
      A[i][j] = neg ? -static_cast<I>(r[j]) : static_cast<I>(r[j]);
      A[m][j] += A[i][j];
    }
    basis[i] = n + i;
  }
  I den = 1;
  for (int it = 0;; it++) {
    if (it >= 400) return 0;
    int e = 0;
    while (e < n && A[m][e] <= 0) e++;
    if (e == n) break;
    int br = -1;
    for (int i = 0; i < m; i++) {
      if (A[i][e] <= 0) continue;
      if (br < 0) {
        br = i;
        continue;
      }
      I x, y;
      if (__builtin_mul_overflow(A[i][n], A[br][e], &x) ||
          __builtin_mul_overflow(A[br][n], A[i][e], &y))
        return -1;
      if (x < y || (x == y && basis[i] < basis[br])) br = i;
    }
    if (br < 0) break;
    *work -= static_cast<int64_t>(m) * n;
    if (*work < 0) return -2;
    const I p = A[br][e];
    for (int i = 0; i <= m; i++) {
      if (i == br) continue;
      const I f = A[i][e];
      for (int j = 0; j < w; j++) {
        if (!mul_sub(A[i][j], p, f, A[br][j], den, &A[i][j])) return -1;
      }
    }
    den = p;
    basis[br] = e;
  }
  return A[m][n] == 0;
}
