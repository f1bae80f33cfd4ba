// C11: the background continuum is the weighted least-squares optimum.
#include "sec.hpp"
#include <stdexcept>

using namespace std;
using especia::natural;
using especia::Section;

struct Tau
{
  int kind;
  double x0;
  double
  operator() (const double &x) const
  {
    switch (kind)
      {
      case 0:
        return 0.0;
      case 1:
        return 1.3 * exp (-(x - x0) * (x - x0) / 0.4);
      case 2: // saturated on one side
        return x < x0 ? 8.0 : 0.01;
      case 3:
        return 0.1 * (x - x0) * (x - x0);
      default: // black on one side
        return x < x0 + 0.3 ? 1e5 : 0.0;
      }
  }
};

// Weighted least squares by Householder QR with the columns of the basis; returns a lower bound of
// the reciprocal condition number, the norm of the coefficients and the continuum at all points.
static ld
reference (const vector<double> &x, const vector<double> &y, const vector<double> &z, const vector<bool> &mask,
           const vector<ld> &cat, int m, vector<ld> &cont, ld &coef)
{
  const int n = int (x.size ());
  vector<vector<ld> > l (m, vector<ld> (n));
  for (int i = 0; i < n; ++i)
    {
      ld t = 2.0L * (ld (x[i]) - x[0]) / (ld (x[n - 1]) - x[0]) - 1.0L;
      for (int k = 0; k < m; ++k)
        {
          // explicit formulas up to degree 5, recursion above
          switch (k)
            {
            case 0: l[k][i] = 1; break;
            case 1: l[k][i] = t; break;
            case 2: l[k][i] = (3 * t * t - 1) / 2; break;
            case 3: l[k][i] = (5 * t * t * t - 3 * t) / 2; break;
            case 4: l[k][i] = (35 * t * t * t * t - 30 * t * t + 3) / 8; break;
            case 5: l[k][i] = (63 * t * t * t * t * t - 70 * t * t * t + 15 * t) / 8; break;
            default: l[k][i] = ((2 * k - 1) * t * l[k - 1][i] - (k - 1) * l[k - 2][i]) / k;
            }
        }
    }
  vector<vector<ld> > a;
  vector<ld> b;
  for (int i = 0; i < n; ++i)
    if (mask[i])
      {
        vector<ld> r (m);
        for (int k = 0; k < m; ++k)
          r[k] = l[k][i] * cat[i] / z[i];
        a.push_back (r);
        b.push_back (ld (y[i]) / z[i]);
      }
  const int v = int (a.size ());
  ld scale = 0;
  for (auto &r : a)
    for (ld e : r)
      scale += e * e;
  scale = sqrtl (scale);
  if (scale == 0 || v < m)
    return 0;
  for (int k = 0; k < m; ++k)
    {
      ld s = 0;
      for (int i = k; i < v; ++i)
        s += a[i][k] * a[i][k];
      s = sqrtl (s);
      if (s == 0)
        return 0;
      ld alpha = a[k][k] > 0 ? -s : s;
      vector<ld> u (v, 0.0L);
      for (int i = k; i < v; ++i)
        u[i] = a[i][k];
      u[k] -= alpha;
      ld uu = 0;
      for (int i = k; i < v; ++i)
        uu += u[i] * u[i];
      if (uu == 0)
        continue;
      for (int j = k; j < m; ++j)
        {
          ld d = 0;
          for (int i = k; i < v; ++i)
            d += u[i] * a[i][j];
          for (int i = k; i < v; ++i)
            a[i][j] -= 2 * d / uu * u[i];
        }
      ld d = 0;
      for (int i = k; i < v; ++i)
        d += u[i] * b[i];
      for (int i = k; i < v; ++i)
        b[i] -= 2 * d / uu * u[i];
    }
  vector<ld> c (m);
  for (int k = m - 1; k >= 0; --k)
    {
      ld s = b[k];
      for (int j = k + 1; j < m; ++j)
        s -= a[k][j] * c[j];
      c[k] = s / a[k][k];
    }
  cont.assign (n, 0.0L);
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < m; ++k)
      cont[i] += c[k] * l[k][i];
  coef = 0;
  for (int k = 0; k < m; ++k)
    coef += c[k] * c[k];
  coef = sqrtl (coef);
  // Frobenius norm of the inverse of R
  ld inv = 0;
  for (int q = 0; q < m; ++q)
    {
      vector<ld> e (m, 0.0L);
      for (int k = q; k >= 0; --k)
        {
          ld s = k == q ? 1.0L : 0.0L;
          for (int j = k + 1; j <= q; ++j)
            s -= a[k][j] * e[j];
          e[k] = s / a[k][k];
          inv += e[k] * e[k];
        }
    }
  return 1 / (sqrtl (inv) * scale);
}

int
mc_shards (int tier)
{
  return 4 * 8 + 6 + 2 + (tier ? 1 : 0);
}

const char *
mc_rule ()
{
  return "all masks of 3 to 6 points, flux patterns over a finite alphabet, uncertainty patterns, 0 to n+1 polynomials, 5 absorption profiles (with black parts); larger sections with up to 14 polynomials, sections of 6000 and 21000 points; non-trivial: distinct continua";
}

static void
one (mc::Ctx &c, const vector<double> &x, const vector<double> &y, const vector<double> &z, const vector<bool> &mask, int m, double r, const Tau &tau)
{
  const int n = int (x.size ());
  Section s (n, x.data (), y.data (), z.data ());
  for (int i = 0; i < n; ++i)
    if (!mask[i])
      s.mask (x[i], x[i]);
  // absorption without continuum
  Section t = s;
  t.apply (0, r, tau);
  vector<Row> r0 = rows_of (c, t);
  for (int i = 0; i < n; ++i)
    if (r0[i].cfl != 1.0 || !mc::near (r0[i].fit, r0[i].cat, 1e-8, 1e-12))
      c.fail ("unity", "the continuum without polynomials is not unity");
  const int valid = int (count (mask.begin (), mask.end (), true));
  string bits;
  for (int i = 0; i < n && n < 40; ++i)
    bits += mask[i] ? '1' : '0';
  string what = mc::cat ("n=", n, " mask=", bits, " polynomials=", m, " r=", r, " tau=", tau.kind);
  for (int i = 0; i < n && n < 10; ++i)
    what += mc::cat (" (", x[i], ",", y[i], ",", z[i], ")");
  c.log (what);
  vector<ld> cat;
  if (n < 1000)
    cat = ref_convolve (x, r, tau).cat;
  else // no absorption
    cat.assign (n, r0[n / 2].cat);
  for (int i = 0; i < n; ++i)
    if (!mc::near (r0[i].cat, double (cat[i]), 1e-7, 1e-9))
      c.fail ("absorption", "convolved absorption: " + what);
  vector<ld> ref;
  ld coef = 0;
  ld cond = m > 0 ? reference (x, y, z, mask, cat, m, ref, coef) : 1;
  bool thrown = false;
  double direct = 0;
  try
    {
      direct = s.cost (tau, r, natural (m));
    }
  catch (runtime_error &)
    {
      thrown = true;
    }
  bool thrown2 = false;
  try
    {
      s.apply (natural (m), r, tau);
    }
  catch (runtime_error &)
    {
      thrown2 = true;
    }
  c.state (mc::hash_str (what));
  if (thrown != thrown2)
    c.fail ("singular", "cost and apply disagree on " + what);
  if (m == 0)
    {
      if (thrown)
        c.fail ("unity", "error without polynomials: " + what);
      return;
    }
  int open = 0;
  for (int i = 0; i < n; ++i)
    open += mask[i] && cat[i] != 0.0L;
  if (open < m)
    {
      c.count ("underdetermined");
      c.check (thrown, "undetermined", "fewer valid data (with light) than polynomials, but no error: " + what);
      return;
    }
  if (cond < 1e-5)
    {
      c.count ("ill-conditioned, not judged");
      return;
    }
  if (thrown)
    c.fail ("spurious", mc::cat ("error although the fit is unique (reciprocal condition number ", double (cond), "): ", what));
  vector<Row> rows = rows_of (c, s);
  ld top = coef, ymax = 0;
  for (double v : y)
    ymax = max (ymax, fabsl (ld (v)));
  for (int i = 0; i < n; ++i)
    top = max (top, fabsl (ref[i]));
  // rounding errors of the normal equations
  const double tol = 2e-8 + 4e-16 * n * m / double (cond * cond);
  ld chi = 0, slack = 0;
  for (int i = 0; i < n; ++i)
    {
      if (fabsl (rows[i].cfl - ref[i]) > tol * top + 1e-12L * ymax)
        c.fail ("continuum", mc::cat ("continuum at point ", i, " is ", rows[i].cfl, " instead of ", double (ref[i]), ": ", what));
      if (!mc::near (rows[i].fit, rows[i].cfl * rows[i].cat, 1e-7, 1e-7 * double (top) + 1e-9 * double (ymax)) || !mc::near (rows[i].tfl, rows[i].cfl * rows[i].atm, 1e-7, 1e-7 * double (top) + 1e-9 * double (ymax)))
        c.fail ("columns", mc::cat ("fit columns at point ", i, ": ", what));
      if (mask[i])
        {
          ld e = (y[i] - ref[i] * cat[i]) / z[i];
          chi += e * e;
          const ld rel = 1e-15L * fabsl (ref[i] * cat[i] / z[i]);
          slack += fabsl (e) * rel + rel * rel;
        }
    }
  if (!mc::near (direct, double (chi) / 2, 1e-6 + 1e-14 / double (cond * cond), 1e-10 + 2 * double (slack) + 1e-14 / double (cond * cond) * double (top)))
    c.fail ("cost", mc::cat ("cost ", direct, " instead of the minimum ", double (chi) / 2, ": ", what));
  uint64_t h = m;
  for (auto &q : rows)
    h = mc::hash_double (q.cfl, h);
  c.outcome (h);
  if (c.want_sample ())
    c.sample (what);
}

void
mc_case (mc::Ctx &c)
{
  static const vector<double> fl = { 1.0, 0.25, -2.0 };
  if (c.shard () < 32)
    {
      const int n = 3 + c.shard () / 8;
      vector<bool> mask (n);
      for (int i = 0; i < n; ++i)
        mask[i] = i < 3 ? (c.shard () % 8 >> i) & 1 : c.choose (2);
      const int m = c.choose (n + 2);
      const Tau tau{ c.choose (5), 4000.6 };
      const int zp = c.choose (3);
      const double spacing = c.choose (2);
      vector<double> x (n), y (n), z (n);
      const int fp = c.choose (n <= 4 || c.tier ? 27 : 9);
      for (int i = 0; i < n; ++i)
        {
          x[i] = 4000.0 + 0.4 * i + (spacing ? 0.07 * i * i : 0.0);
          y[i] = i < 3 ? fl[(fp / (i == 0 ? 1 : i == 1 ? 3 : 9)) % 3] : 0.5 + 0.375 * ((i * 5) % 4);
          z[i] = zp == 0 ? 0.5 : zp == 1 ? 0.125 * (1 + i) : (i == 1 ? 1e-3 : 2.0);
        }
      one (c, x, y, z, mask, m, 21.0, tau);
    }
  else if (c.shard () >= 38)
    {
      // large sections
      const int n = c.shard () == 38 ? 6000 : c.shard () == 39 ? 21000 : 70000;
      const int m = c.choose (6);
      const int mp = c.choose (2);
      vector<double> x (n), y (n), z (n);
      vector<bool> mask (n);
      for (int i = 0; i < n; ++i)
        {
          x[i] = 3000.0 + 0.05 * i;
          y[i] = 1 + 0.5 * sin (0.002 * i) + 0.1 * (i % 7);
          z[i] = 0.1 * (1 + i % 4);
          mask[i] = mp == 0 || i % 5;
        }
      one (c, x, y, z, mask, m, 21.0, Tau{ 0, 0.0 });
    }
  else
    {
      const int sh = c.shard () - 32;
      const int n = (sh % 3 == 0) ? 12 : sh % 3 == 1 ? 20 : 28;
      const int m = c.choose (15);
      const Tau tau{ c.choose (5), 4000.6 + c.choose (2) };
      const int mp = c.choose (4);
      const int fp = c.choose (4);
      const double r = sh / 3 ? 3.0   : 61.0;
      vector<double> x (n), y (n), z (n);
      vector<bool> mask (n);
      for (int i = 0; i < n; ++i)
        {
          x[i] = 4000.0 + 0.1 * i + 0.001 * (i % 3);
          y[i] = fp == 0 ? 1.0 : fp == 1 ? 100.0 + i : fp == 2 ? 1e-14 * (1 + i % 7) : 1 + 0.3 * ((i * i) % 11) - 0.02 * i * i;
          z[i] = fp == 2 ? 1e-15 * (1 + i % 2) : 0.1 * (1 + i % 4);
          bool v = mp == 0 || (mp == 1 && i % 2 == 0) || (mp == 2 && (i < n / 3 || i >= 2 * n / 3)) || (mp == 3 && i >= n / 2);
          mask[i] = v;
        }
      one (c, x, y, z, mask, m, r, tau);
    }
}
