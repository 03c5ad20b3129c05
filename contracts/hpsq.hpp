// Reference P-square marker update (Jain & Chlamtac 1985), written from the paper, on N markers
// h[0..N-1] at positions n[0..N-1] with desired positions d[0..N-1].
#ifndef HPSQ_HPP
#define HPSQ_HPP
#include "hutil.hpp"
// native samples: spread so that derived marker heights rarely coincide with a sample
inline double spread(double x, long i) { return vs_native() ? x + 0.0137 * (double)((i * 37) % 101) / 7. : x; }
// native draws: now and then an exact repetition of an earlier sample, of the minimum or of the maximum
struct Past { double v[4096]; long n = 0, lo = 0, hi = 0; };
// (from sample `from` on: the order of tied first samples with different weights is unspecified)
inline double draw(Past& q, long i, long from = 1) {
  if (!vs_native()) return vs_real("x");
  int t = q.n >= from ? vs_choose("tie", 12) : 11; double x;
  if (t == 0) x = q.v[q.lo]; else if (t == 1) x = q.v[q.hi]; else if (t == 2) x = q.v[vs_choose("which", (int)q.n)]; else x = spread(vs_real("x"), i);
  q.v[q.n] = x; if (x < q.v[q.lo]) q.lo = q.n; if (x > q.v[q.hi]) q.hi = q.n; if (q.n < 4095) ++q.n;
  return x;
}
// native replay only: skip histories that sit within rounding of a branch of the algorithm
inline void near_tie(double a, double b, bool exact_ok) {
  if (!vs_native()) return;
  double e = std::fabs(a - b); vs_assume((exact_ok && e == 0) || e > 1e-9 * (1 + std::fabs(a) + std::fabs(b)));
}
inline bool* adjusted() { static bool a[256]; return a; }      // native: marker no longer holds an original sample
// cell of x: markers >= the returned index move right by one; extremes replaced
inline int ref_cell(int N, double* h, double x, bool& newmin) {
  newmin = false; if (vs_native()) for (int i = 1; i < N - 1; ++i) near_tie(x, h[i], !adjusted()[i]);
  if (x < h[0]) { h[0] = x; newmin = true; return 1; }
  if (h[N - 1] <= x) { h[N - 1] = x; return N - 1; }
  for (int i = 1; i < N; ++i) if (x < h[i]) return i;
  return N - 1;
}
inline void ref_adjust(int i, double* h, double* n, double des) {
  double d = des - n[i];
  near_tie(d, 1, true); near_tie(d, -1, true); near_tie(n[i + 1] - n[i], 1, true); near_tie(n[i - 1] - n[i], -1, true);
  bool up = d >= 1 && n[i + 1] - n[i] > 1, down = d <= -1 && n[i - 1] - n[i] < -1;
  if (!up && !down) return;
  double s = d > 0 ? 1 : -1; if (vs_native()) adjusted()[i] = true;
  double q = h[i] + s / (n[i + 1] - n[i - 1]) * ((n[i] - n[i - 1] + s) * (h[i + 1] - h[i]) / (n[i + 1] - n[i]) + (n[i + 1] - n[i] - s) * (h[i] - h[i - 1]) / (n[i] - n[i - 1]));
  bool flat = h[i - 1] == h[i] && h[i] == h[i + 1]; if (vs_native()) { near_tie(h[i - 1], q, flat); near_tie(q, h[i + 1], flat); }
  if (h[i - 1] < q && q < h[i + 1]) h[i] = q;
  else { int j = s > 0 ? i + 1 : i - 1; h[i] = h[i] + s * (h[j] - h[i]) / (n[j] - n[i]); }
  n[i] += s;
}
// cumulated weighted positions of N sorted first samples
inline void ref_sort(int N, double* h, double* n) {
  if (vs_native()) for (int i = 0; i < 256; ++i) adjusted()[i] = false;
  for (int i = 1; i < N; ++i) for (int j = i; j > 0 && h[j] < h[j - 1]; --j) { std::swap(h[j], h[j - 1]); std::swap(n[j], n[j - 1]); }
  for (int i = 1; i < N; ++i) n[i] += n[i - 1];
}
#endif
