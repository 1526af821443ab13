// C11: the position filter against a plain reference of the same equations
#include "util.h"
#include <cstdio>
#include <array>
#include <iostream>
#include <Eigen/Dense>
static double g_out[64];
static int g_n = 0;
static int vfcap(const char *, double a, double b) { g_out[g_n] = a; g_out[g_n + 1] = b; g_n += 2; return 0; }
namespace std { static int vfcap(const char *f, double a, double b) { return ::vfcap(f, a, b); } }
#define printf vfcap
#include "gauss_newton.hpp"
#undef printf
static const double C = 299792458e0;
static const int NS = 24;
struct Ref {
  double x[5], P[5][5];
  int k = 0;
  void update(int n, const double *obs, const double (*sv)[4], double dt, const double *w) {
    double F[5][5] = {};
    for (int i = 0; i < 5; i++) F[i][i] = 1;
    F[3][4] = dt;
    x[3] = x[3] + dt * x[4];
    if (!k) for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) P[i][j] = i == j ? (i == 4 ? 30e0 : 2500e0) : 0;
    double A[5][5], B[5][5];
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { A[i][j] = P[i][j]; if (i == 3) A[i][j] += dt * P[4][j]; }
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { B[i][j] = A[i][j]; if (j == 3) B[i][j] += dt * A[i][4]; }
    B[3][3] += 0.0114; B[3][4] += 0.0019; B[4][3] += 0.0019; B[4][4] += 0.0039;
    double H[NS][5], v[NS], PH[5][NS], S[NS][2 * NS], W[5][NS];
    for (int i = 0; i < n; i++) {
      double d[3], r2 = 0;
      for (int j = 0; j < 3; j++) { d[j] = sv[i][j] - x[j]; r2 += d[j] * d[j]; }
      double r = std::sqrt(r2);
      for (int j = 0; j < 3; j++) H[i][j] = -(d[j] / r);
      H[i][3] = 1; H[i][4] = 0;
      v[i] = obs[i] + C * sv[i][3] - (r + x[3]);
    }
    for (int i = 0; i < 5; i++) for (int a = 0; a < n; a++) { PH[i][a] = 0; for (int j = 0; j < 4; j++) PH[i][a] += B[i][j] * H[a][j]; }
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { S[a][b] = 0; S[a][n + b] = a == b; for (int j = 0; j < 4; j++) S[a][b] += H[a][j] * PH[j][b]; if (a == b && w) S[a][b] += 100e0 + w[a]; }
    for (int p = 0; p < n; p++) { // S is positive definite: no pivoting needed
      double q = S[p][p];
      for (int j = 0; j < 2 * n; j++) S[p][j] = S[p][j] / q;
      for (int i = 0; i < n; i++) if (i != p) { double m = S[i][p]; for (int j = 0; j < 2 * n; j++) S[i][j] -= m * S[p][j]; }
    }
    for (int i = 0; i < 5; i++) for (int a = 0; a < n; a++) { W[i][a] = 0; for (int b = 0; b < n; b++) W[i][a] += PH[i][b] * S[b][n + a]; }
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) { double q = 0; for (int a = 0; a < n; a++) q += W[i][a] * PH[j][a]; P[i][j] = B[i][j] - q; }
    for (int i = 0; i < 5; i++) for (int a = 0; a < n; a++) x[i] += W[i][a] * v[a];
    k++;
  }
};
static void compare(ngpt::Kalman<5> &f, const Ref &r, const char *ix, const char *ip) {
  g_n = 0;
  f.print_state();
  vf_assert(g_n == 10, "state-is-reported");
  for (int i = 0; i < 5; i++) { vf_assert_close(g_out[2 * i], r.x[i], 1e-4, ix); vf_assert_close(g_out[2 * i + 1], std::sqrt(r.P[i][i]), 1e-4, ip); }
}
// everything symbolic, one satellite
static void one(bool weights) {
  double x0[5];
  for (int i = 0; i < 5; i++) x0[i] = vf_drange(-1e7, 1e7, "x0");
  ngpt::Kalman<5> f({x0[0], x0[1], x0[2], x0[3], x0[4]});
  Ref r;
  for (int i = 0; i < 5; i++) r.x[i] = x0[i];
  std::vector<double> obs(1), w(1);
  std::vector<std::array<double, 4>> sv(1);
  double c[1][4];
  obs[0] = vf_drange(1e7, 4e7, "obs");
  for (int j = 0; j < 3; j++) c[0][j] = sv[0][j] = vf_drange(-4e7, 4e7, "sv");
  c[0][3] = sv[0][3] = vf_drange(-1e-3, 1e-3, "clk");
  w[0] = vf_drange(0, 1e4, "w");
  double dt = vf_drange(0, 3600, "dt");
  f.update(1, &obs, &sv, dt, weights ? &w : nullptr);
  r.update(1, obs.data(), c, dt, weights ? w.data() : nullptr);
  compare(f, r, "state-estimate", "state-uncertainty");
  vf_reach("done");
}
H(c11_one_satellite) { one(true); }
H(c11_one_unweighted) { one(false); }
// several satellites and epochs: fixed geometry, the observations of the last
// epoch symbolic
static void many(int n, int steps, bool weights) {
  const double gx[5] = {4.6e6, 2.0e6, 3.9e6, 12.0, 0.5};
  ngpt::Kalman<5> f({gx[0], gx[1], gx[2], gx[3], gx[4]});
  Ref r;
  for (int i = 0; i < 5; i++) r.x[i] = gx[i];
  for (int s = 0; s < steps; s++) {
    std::vector<double> obs(n), w(n);
    std::vector<std::array<double, 4>> sv(n);
    double c[NS][4];
    double dt = 10.0 + 20 * s;
    for (int i = 0; i < n; i++) {
      static const double g[6][3] = {{2.0e7, 1.0e7, 1.2e7}, {0.4e7, 2.4e7, 0.8e7}, {1.1e7, -1.7e7, 1.6e7}, {2.5e7, 0.3e7, -0.4e7}, {-0.6e7, 1.5e7, 2.1e7}, {1.6e7, 1.6e7, 1.4e7}};
      for (int j = 0; j < 3; j++) c[i][j] = g[i][j] + s * (1.1e5 * (j + 1) - 3e4 * i);
      c[i][3] = 1e-5 * (i + 1) - 3e-6 * s;
      double d = std::sqrt((c[i][0] - gx[0]) * (c[i][0] - gx[0]) + (c[i][1] - gx[1]) * (c[i][1] - gx[1]) + (c[i][2] - gx[2]) * (c[i][2] - gx[2]));
      obs[i] = d + 15 + 4.0 * i - c[i][3] * C;
      if (s == steps - 1) { obs[i] = vf_drange(1e7, 4e7, "obs"); c[i][3] = vf_drange(-1e-3, 1e-3, "clk"); }
      for (int j = 0; j < 4; j++) sv[i][j] = c[i][j];
      w[i] = 25.0 + 7 * i + s;
    }
    f.update(n, &obs, &sv, dt, weights ? &w : nullptr);
    r.update(n, obs.data(), c, dt, weights ? w.data() : nullptr);
  }
  compare(f, r, "state-estimate", "state-uncertainty");
  vf_reach("done");
}
H(c11_two_satellites) { many(2, 1, true); }
H(c11_two_unweighted) { many(2, 1, false); }
H(c11_five_satellites) { many(5, 1, true); }
H(c11_two_updates) { many(1 + 2 * vf_choice(2, "n"), 2, true); }
H(c11_three_updates) { many(4, 3, true); }
// as many satellites as are in view, more epochs, vectors longer than the number of satellites
// (without weights the innovation covariance of more than 4 satellites is singular)
static void larger(int n, int steps, int extra) {
  const double gx[5] = {4.6e6, 2.0e6, 3.9e6, 12.0, 0.5};
  ngpt::Kalman<5> f({gx[0], gx[1], gx[2], gx[3], gx[4]});
  Ref r;
  for (int i = 0; i < 5; i++) r.x[i] = gx[i];
  for (int s = 0; s < steps; s++) {
    std::vector<double> obs(n + extra), w(n + extra);
    std::vector<std::array<double, 4>> sv(n + extra);
    double c[NS][4];
    for (int i = 0; i < n; i++) {
      c[i][0] = 2.0e7 - 1.3e6 * ((i * 7 + s) % 19); c[i][1] = -1.0e7 + 1.9e6 * ((i * 5) % 17) + 1e4 * s; c[i][2] = 1.5e7 - 9e5 * ((i * 3 + 2) % 13);
      c[i][3] = 1e-5 * (i + 1) - 3e-6 * s;
      double d = std::sqrt((c[i][0] - gx[0]) * (c[i][0] - gx[0]) + (c[i][1] - gx[1]) * (c[i][1] - gx[1]) + (c[i][2] - gx[2]) * (c[i][2] - gx[2]));
      obs[i] = d + 15 + 4.0 * i - c[i][3] * C;
      if (s == steps - 1 && (i == n - 1 || i == n / 2)) { obs[i] = vf_drange(1e7, 4e7, "obs"); c[i][3] = vf_drange(-1e-3, 1e-3, "clk"); }
      for (int j = 0; j < 4; j++) sv[i][j] = c[i][j];
      w[i] = 25.0 + 7 * i + s;
    }
    for (int i = n; i < n + extra; i++) { obs[i] = 3e7; sv[i] = {{1e7, 2e7, 3e6, 1e-4}}; w[i] = 1e3; }
    f.update(n, &obs, &sv, 10.0 + s, &w);
    r.update(n, obs.data(), c, 10.0 + s, w.data());
  }
  compare(f, r, "state-estimate", "state-uncertainty");
  vf_reach("done");
}
H(c11_larger) {
  switch (vf_choice(5, "size")) {
  case 0: larger(12, 2, 0); break;
  case 1: larger(24, 1, 0); break;
  case 2: larger(9, 2, 1); break;
  case 3: larger(2, 8, 0); break;
  case 4: larger(6, 3, 4); break;
  }
}
// the number of satellites changes from epoch to epoch
H(c11_changing_count) {
  const double gx[5] = {4.6e6, 2.0e6, 3.9e6, 12.0, 0.5};
  ngpt::Kalman<5> f({gx[0], gx[1], gx[2], gx[3], gx[4]});
  Ref r;
  for (int i = 0; i < 5; i++) r.x[i] = gx[i];
  int cnt[3] = {3, 1, 2};
  for (int s = 0; s < 3; s++) {
    int n = cnt[s];
    std::vector<double> obs(n), w(n);
    std::vector<std::array<double, 4>> sv(n);
    double c[NS][4];
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < 3; j++) c[i][j] = (j == (i + s) % 3 ? 2.2e7 : 0.8e7) + 1e5 * s * (j - i);
      c[i][3] = 2e-6 * i;
      obs[i] = 2.1e7 + 1e3 * i;
      if (s == 2) { obs[i] = vf_drange(1e7, 4e7, "obs"); c[i][3] = vf_drange(-1e-3, 1e-3, "clk"); }
      for (int j = 0; j < 4; j++) sv[i][j] = c[i][j];
      w[i] = 10.0 * (i + 1);
    }
    f.update(n, &obs, &sv, 30, &w);
    r.update(n, obs.data(), c, 30, w.data());
  }
  compare(f, r, "state-estimate", "state-uncertainty");
  vf_reach("done");
}
// one satellite, second epoch after an arbitrary interval with arbitrary
// observation, clock and weight
static void interval(int n, bool weights) {
  double gap = 0;
  const double gx[5] = {4.6e6, 2.0e6, 3.9e6, 12.0, 0.5};
  ngpt::Kalman<5> f({gx[0], gx[1], gx[2], gx[3], gx[4]});
  Ref r;
  for (int i = 0; i < 5; i++) r.x[i] = gx[i];
  for (int s = 0; s < 2; s++) {
    std::vector<double> obs(n), w(n);
    std::vector<std::array<double, 4>> sv(n);
    double c[NS][4];
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < 3; j++) c[i][j] = (j == (i + s) % 3 ? 2.2e7 : 0.8e7) + 1e5 * s * (j - i);
      c[i][3] = 2e-6 * i;
      obs[i] = 2.1e7 + 1e3 * i;
      w[i] = 10.0 * (i + 1);
      if (s) { obs[i] = vf_drange(1e7, 4e7, "obs"); c[i][3] = vf_drange(-1e-3, 1e-3, "clk"); }
      for (int j = 0; j < 4; j++) sv[i][j] = c[i][j];
    }
    double dt = 30;
    if (s) dt = gap = vf_drange(0, n > 1 ? 900 : 86400, "dt");
    f.update(n, &obs, &sv, dt, weights ? &w : nullptr);
    r.update(n, obs.data(), c, dt, weights ? w.data() : nullptr);
  }
  // the flow of control is explored for every interval, the arithmetic decided
  // at these values (the first: any one value of the path)
  const double AT[5] = {0, 0, 7.5, 400, n > 1 ? 800.0 : 40000.0};
  int k = vf_choice(5, "at");
  vf_pin(gap, AT[k], k);
  compare(f, r, "state-estimate", "state-uncertainty");
  vf_reach("done");
}
H(c11_any_interval) { interval(1, true); }
H(c11_any_interval_2) { interval(2, true); }
