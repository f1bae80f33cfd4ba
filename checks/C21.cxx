// C21: parameter uncertainties are calibrated by the curvature of the objective.
#include "core/optimizer.h"
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <mutex>

using namespace std;
using especia::natural;
using especia::Optimizer;
using especia::real;

typedef vector<double> V;

// Products of plane rotations; column j at [j * n].
static V
rotation (int n, int kind)
{
  V B (n * n, 0.0);
  for (int i = 0; i < n; ++i)
    B[i * n + i] = 1;
  if (kind == 0)
    return B;
  for (int a = 0; a < n; ++a)
    for (int b = a + 1; b < n; ++b)
      {
        const double w = 0.3 * kind + 0.2 * a - 0.15 * b, co = cos (w), si = sin (w);
        for (int i = 0; i < n; ++i)
          {
            const double p = B[a * n + i], q = B[b * n + i];
            B[a * n + i] = co * p - si * q;
            B[b * n + i] = si * p + co * q;
          }
      }
  if (kind == 2) // reversed axes
    for (int i = 0; i < n; ++i)
      B[i] = -B[i];
  return B;
}

struct F
{
  int shape; // 0 quadratic, 1 with gradient and cubic term, 2 quartic along axes, 3 constant, 4 bounded, 5 quadratic, infinite far away
  int n;
  V A, x0;
  double f0;
  shared_ptr<mutex> m = make_shared<mutex> ();
  shared_ptr<long> calls = make_shared<long> (0);
  double
  value (const V &x) const
  {
    double s = 0, l = 0;
    for (int i = 0; i < n; ++i)
      {
        l += (i + 1) * (x[i] - x0[i]);
        for (int j = 0; j < n; ++j)
          s += 0.5 * A[j * n + i] * (x[i] - x0[i]) * (x[j] - x0[j]);
      }
    switch (shape)
      {
      case 1:
        return f0 + s + 0.01 * l;
      case 3:
        return f0;
      case 4:
        return f0 + 0.2 * s / (1 + s);
      case 5:
        return s > 1e6 ? HUGE_VAL : f0 + s;
      case 6:
        return f0 - s;
      }
    return f0 + s;
  }
  real
  operator() (const real q[], natural k) const
  {
    {
      lock_guard<mutex> lock (*m);
      ++*calls;
    }
    return value (V (q, q + k));
  }
};

struct Con
{
  V price; // quadratic cost
  bool
  is_violated (const real[], natural) const
  {
    return false;
  }
  real
  cost (const real x[], natural n) const
  {
    double s = 0;
    for (natural i = 0; i < n && i < price.size (); ++i)
      s += price[i] * x[i] * x[i];
    return s;
  }
};

static const double curvatures[] = { 1, 0.01, 400, 1e6 };

// The expected uncertainties of a quadratic function.
static V
expected (int n, const V &A, const V &price, const V &B, const V &d, const V &C)
{
  double l = 0;
  for (int j = 0; j < n; ++j)
    {
      double k = 0;
      for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b)
          k += B[j * n + a] * B[j * n + b] * (A[b * n + a] + (a == b && !price.empty () ? 2 * price[a] : 0));
      l -= log (d[j] * sqrt (fabs (k))) / n;
    }
  V z (n);
  for (int i = 0; i < n; ++i)
    z[i] = exp (l) * sqrt (C[i * n + i]);
  return z;
}

static V
covariance (int n, const V &B, const V &d)
{
  V C (n * n, 0.0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      for (int k = 0; k < n; ++k)
        C[j * n + i] += B[k * n + i] * B[k * n + j] * d[k] * d[k];
  return C;
}

static void
direct (mc::Ctx &c, int n, int shape, bool scaled)
{
  const double unit = scaled ? c.pick ({ 1e-26, 1e-13, 1e13, 1e26 }) : 1; // of the curvature
  const bool flat = shape == 3 || shape == 4;
  const int rot = c.choose (n == 1 || flat ? 2 : 3), axes = c.choose (n == 1 || flat ? 1 : 2), cs = c.choose (flat ? 1 : c.tier ? 4 : 3), ds = c.choose (flat ? 1 : c.tier ? 4 : 3), off = c.choose (c.tier ? 3 : 2), ss = c.choose (c.tier ? 13 : 5), v = c.choose (flat || scaled ? 1 : 3);
  const int pr = v == 1, at = v == 2;
  F f;
  f.n = n;
  f.shape = shape;
  f.f0 = off == 0 ? 0 : off == 1 ? -1000 : 25;
  const V R = rotation (n, axes);
  f.A.assign (n * n, 0.0);
  V eig (n);
  for (int k = 0; k < n; ++k)
    eig[k] = unit * curvatures[(cs + (cs == 1 ? 0 : k)) % 4];
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      for (int k = 0; k < n; ++k)
        f.A[j * n + i] += R[k * n + i] * R[k * n + j] * eig[k];
  f.x0.assign (n, 0.0);
  V x (n);
  for (int i = 0; i < n; ++i)
    {
      f.x0[i] = at ? 5 + i : 0;
      x[i] = f.x0[i] + (shape == 1 ? 0.1 / sqrt (eig[0]) : 0);
    }
  Con con;
  if (pr)
    for (int i = 0; i < n; ++i)
      con.price.push_back (0.5 + 0.25 * i);
  const V B = rotation (n, rot);
  V d (n);
  for (int i = 0; i < n; ++i)
    d[i] = ds == 0 ? 1 : ds == 1 ? 0.001 * (i + 1) : ds == 2 ? pow (10.0, i - 1.0) : 100.0 + i;
  V C = covariance (n, B, d);
  V D = C;
  for (int j = 0; j < n; ++j) // only the upper triangle is given
    for (int i = j + 1; i < n; ++i)
      D[j * n + i] = -99;
  const double s = c.tier ? pow (10.0, ss - 6.0) : pow (1000.0, ss - 2.0) * 1.1;
  V z (n, -1.0);
  especia::postopti (f, con, natural (n), &x[0], &d[0], &B[0], &D[0], s, &z[0]);
  const string what = mc::cat ("n=", n, " shape=", shape, " rotation=", rot, " axes=", axes, " curvature=", eig[0], " local step=", d[0], " offset=", f.f0, " step=", s, pr ? " constraint with cost" : "", " x0=", f.x0[0]);
  if (shape < 3 || shape == 5 || shape == 6)
    {
      if (shape == 6 && pr)
        return; // opposite curvatures may cancel
      // The curvature is derived from a second difference of about one
      double scale = fabs (f.f0) + 10;
      double big = 0;
      for (int i = 0; i < n; ++i)
        {
          scale += pr ? con.price[i] * x[i] * x[i] : 0;
          big = max (big, fabs (x[i]));
        }
      const double most = *max_element (eig.begin (), eig.end ());
      double least = HUGE_VAL; // curvature along the axes
      for (int j = 0; j < n; ++j)
        {
          double k = 0;
          for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
              k += B[j * n + a] * B[j * n + b] * f.A[b * n + a];
          least = min (least, k);
        }
      const double tol = 1e-13 * scale + 1e-11 + 1e-14 * most / least + 1e-14 * big * most / sqrt (least) + 1e-12 * big * sqrt (most);
      const V e = expected (n, f.A, con.price, B, d, C);
      for (int i = 0; i < n; ++i)
        if (!mc::near (z[i], e[i], tol))
          c.fail ("uncertainty", mc::cat ("uncertainty of parameter ", i, " is ", z[i], " instead of ", e[i], ": ", what));
    }
  else
    {
      for (int i = 0; i < n; ++i)
        if (z[i] < 0)
          c.fail ("uncertainty", mc::cat ("uncertainty of parameter ", i, " is ", z[i], ": ", what));
      c.count ("no finite curvature");
    }
  c.outcome (mc::hash_str (what));
  if (c.want_sample ())
    c.sample (what + mc::cat (" -> ", z[0]));
}

// Whole searches.
static void
search (mc::Ctx &c, int n)
{
  const int seed = c.choose (c.tier ? 4 : 2), cs = c.choose (3), axes = c.choose (n == 1 ? 1 : 2), g = c.choose (4), mod = c.choose (2), st = c.choose (4), maximum = c.choose (2);
  F f;
  f.n = n;
  f.shape = maximum ? 6 : 0;
  f.f0 = 10;
  const V R = rotation (n, axes);
  f.A.assign (n * n, 0.0);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      for (int k = 0; k < n; ++k)
        f.A[j * n + i] += R[k * n + i] * R[k * n + j] * curvatures[(cs + k) % 3];
  f.x0.assign (n, 2.0);
  const natural lambda = 4 + 2 * n, stop = st == 0 ? 0 : st == 1 ? 3 : st == 2 ? 15 : 200;
  Optimizer::Builder b;
  b.with_problem_dimension (natural (n)).with_parent_number (lambda / 2).with_population_size (lambda).with_covariance_update_modulus (mod ? 3 : 1).with_accuracy_goal (g == 0 ? 0.5 : g == 1 ? 1e-2 : g == 2 ? 1e-4 : 1e-6).with_random_seed (11 + seed).with_stop_generation (stop);
  const Optimizer o = b.build ();
  const valarray<real> x (1.5, n), d (1.0, n);
  const Optimizer::Result r = maximum ? o.maximize (f, x, d, 0.5) : o.minimize (f, x, d, 0.5);
  const string what = mc::cat ("n=", n, " seed=", seed, " curvature=", curvatures[cs], " axes=", axes, " goal=", g, " modulus=", mod ? 3 : 1, " stop=", stop, maximum ? " maximum" : "");
  const valarray<real> z = r.get_parameter_uncertainties ();
  if (int (z.size ()) != n)
    c.fail ("uncertainty", "number of uncertainties: " + what);
  if (!r.is_optimized ())
    {
      for (double v : z)
        if (v != 0)
          c.fail ("uncertainty", mc::cat ("uncertainty ", v, " of a search not converged: ", what));
      c.count ("not converged");
      // neither are trial points evaluated
      if (*f.calls > long (r.get_generation_number ()) * long (lambda) + 1)
        c.fail ("uncertainty", mc::cat (*f.calls, " evaluations in ", r.get_generation_number (), " generations: ", what));
    }
  else
    {
      auto copy = [] (const valarray<real> &v) { return V (begin (v), end (v)); };
      const V B = copy (r.get_rotation_matrix ()), l = copy (r.get_local_step_sizes ()), C = copy (r.get_covariance_matrix ());
      V e = expected (n, f.A, V (), B, l, C);
      for (int i = 0; i < n; ++i)
        if (!mc::near (z[i], e[i], 1e-9))
          c.fail ("uncertainty", mc::cat ("uncertainty of parameter ", i, " is ", z[i], " instead of ", e[i], ": ", what));
      c.count ("converged");
    }
  c.outcome (mc::hash_str (what));
  if (c.want_sample ())
    c.sample (what + mc::cat (" -> ", z[0]));
}

int
mc_shards (int)
{
  return 4 * 7 + 8;
}

const char *
mc_rule ()
{
  return "all combinations of dimension (1 to 4, 6, 9), function (quadratic, with gradient, concave, infinite far away, bounded, constant), curvatures over fifty orders of magnitude, orientations, offsets, position, local steps, global step over twelve orders of magnitude, constraint cost; and whole searches; non-trivial: distinct settings";
}

void
mc_case (mc::Ctx &c)
{
  if (c.shard () < 28)
    {
      static const int shapes[] = { 0, 1, 0, 3, 4, 5, 6 };
      direct (c, 1 + c.shard () % 4, shapes[c.shard () / 4], c.shard () / 4 == 2);
    }
  else if (c.shard () < 32)
    search (c, 1 + c.shard () % 4);
  else if (c.shard () < 34)
    direct (c, c.shard () == 32 ? 6 : 9, 0, false);
  else
    search (c, c.shard () == 34 ? 6 : 9);
}
