// Exact linear minimisation for the numeric abstract domain (convex polyhedra over the
// rationals).  Minimise c.y subject to A.y + b >= 0, y >= 0, with integer data, by the
// dictionary simplex method with integer (fraction-free) pivoting and Bland's rule.
// Any arithmetic overflow yields status 3 ("unknown"), which callers treat as "not proved".
#include <vector>
#include <cstdint>
typedef __int128 I;
typedef std::vector<I> Row;
static bool ovf;
static inline I mul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) ovf = true; return r; }
static inline I sub(I a, I b) { I r; if (__builtin_sub_overflow(a, b, &r)) ovf = true; return r; }
// Dictionary:  den * x_B[i] = D[i][n] + sum_j D[i][j] * x_N[j],   den > 0
struct Dict {
  int n, m;
  std::vector<Row> D; // m rows + objective row(s)
  std::vector<int> B, N;
  I den = 1;
  void pivot(int r, int c) {
    I p = D[r][c];
    int R = (int)D.size();
    // den*xB = ... + p*xN  ->  xN = (den*xB - rest)/p
    for (int i = 0; i < R; i++) {
      if (i == r) continue;
      I q = D[i][c];
      for (int j = 0; j <= n; j++) {
        if (j == c) continue;
        I v = sub(mul(p, D[i][j]), mul(q, D[r][j]));
        D[i][j] = v / den;
      }
      D[i][c] = q;   // q*den/den
    }
    for (int j = 0; j <= n; j++)
      if (j != c) D[r][j] = -D[r][j];
    D[r][c] = den;
    I nd = p;
    if (nd < 0) {
      for (int i = 0; i < R; i++) for (int j = 0; j <= n; j++) D[i][j] = -D[i][j];
      nd = -nd;
    }
    den = nd;
    std::swap(B[r], N[c]);
  }
};
// returns 0 optimal, 1 unbounded, 3 unknown ; objective row index o (minimise)
static int run(Dict &d, int o, int forbid) {
  for (int it = 0; it < 2000; it++) {
    if (ovf) return 3;
    int c = -1;
    for (int j = 0; j < d.n; j++)
      if (d.N[j] != forbid && d.D[o][j] < 0 && (c < 0 || d.N[j] < d.N[c])) c = j;
    if (c < 0) return 0;
    int r = -1;
    for (int i = 0; i < d.m; i++) {
      if (d.D[i][c] >= 0) continue;
      if (r < 0) { r = i; continue; }
      // ratio D[i][n] / -D[i][c]
      I a = mul(d.D[i][d.n], -d.D[r][c]), b = mul(d.D[r][d.n], -d.D[i][c]);
      if (a < b || (a == b && d.B[i] < d.B[r])) r = i;
    }
    if (ovf) return 3;
    if (r < 0) return 1;
    d.pivot(r, c);
  }
  return 3;
}
extern "C" int lp_min(int n, int m, const int64_t *A, const int64_t *c, int64_t *num, int64_t *den) {
  // A: m rows of (n coefficients, constant)
  ovf = false;
  Dict d;
  d.n = n + 1; d.m = m;
  bool need1 = false;
  for (int i = 0; i < m; i++) {
    Row r(n + 2);
    for (int j = 0; j < n; j++) r[j] = A[i * (n + 1) + j];
    r[n] = 1;                       // artificial x0
    r[n + 1] = A[i * (n + 1) + n];
    if (r[n + 1] < 0) need1 = true;
    d.D.push_back(r);
    d.B.push_back(n + 1 + i);
  }
  Row o1(n + 2, 0), o2(n + 2, 0);
  o1[n] = 1;
  for (int j = 0; j < n; j++) o2[j] = c[j];
  d.D.push_back(o1); d.D.push_back(o2);
  for (int j = 0; j <= n; j++) d.N.push_back(j);
  // objective rows are rows m and m+1; pivot() updates them too
  if (need1) {
    int r = 0;
    for (int i = 1; i < m; i++) if (d.D[i][n + 1] < d.D[r][n + 1]) r = i;
    d.pivot(r, n);
    int s = run(d, m, -1);
    if (s) return 3;
    if (d.D[m][n + 1] > 0) return ovf ? 3 : 2;  // infeasible
    // drive x0 out of the basis
    for (int i = 0; i < m; i++)
      if (d.B[i] == n) {
        int c2 = -1;
        for (int j = 0; j < d.n; j++) if (d.D[i][j] != 0) { c2 = j; break; }
        if (c2 >= 0) d.pivot(i, c2);
        break;
      }
  }
  if (ovf) return 3;
  // x0 fixed to zero: forbid it from entering
  for (int j = 0; j < d.n; j++) if (d.N[j] == n) for (auto &r : d.D) r[j] = 0;
  int s = run(d, m + 1, n);
  if (s == 1) return 1;
  if (s == 3 || ovf) return 3;
  I v = d.D[m + 1][n + 1];
  if (v > INT64_MAX || v < INT64_MIN || d.den > INT64_MAX) return 3;
  *num = (int64_t)v; *den = (int64_t)d.den;
  return 0;
}
