// C20: maximisation mirrors minimisation; the search depends on ranks and is invariant under rescaling.
#include "core/optimizer.h"
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <mutex>

using namespace std;
using especia::natural;
using especia::Optimizer;
using especia::real;

typedef vector<double> V;

static double
objective (int kind, const V &x)
{
  double s = 0;
  const size_t n = x.size ();
  switch (kind)
    {
    case 0:
      for (size_t i = 0; i < n; ++i)
        s += (x[i] - 0.7) * (x[i] - 0.7);
      return s;
    case 1:
      for (size_t i = 0; i < n; ++i)
        s += (i * i * 9 + 1) * x[i] * x[i] + x[i] * x[(i + 1) % n];
      return s - 3;
    case 2:
      for (size_t i = 0; i + 1 < n; ++i)
        s += 100 * pow (x[i + 1] - x[i] * x[i], 2) + pow (1 - x[i], 2);
      return s + (n == 1 ? cos (3 * x[0]) : 0);
    case 3: // few values: ties
      for (size_t i = 0; i < n; ++i)
        s += floor (1.5 * fabs (x[i]));
      return s;
    case 4: // both signs, many minima
      for (size_t i = 0; i < n; ++i)
        s += sin (3 * x[i] + i) + 0.1 * x[i] * x[i];
      return s;
    case 6: // integers from one to a million
      for (size_t i = 0; i < n; ++i)
        s += fabs (x[i] - 0.3 * i);
      return s < 1e3 ? 1 + floor (1000 * s) : 1000001;
    default: // an infinite region
      for (size_t i = 0; i < n; ++i)
        {
          if (x[i] > 1.5)
            return HUGE_VAL;
          s += fabs (x[i] + 0.5 * i);
        }
      return s;
    }
}

// Strictly increasing functions, exact or at least injective on doubles.
static double
increasing (int kind, double y)
{
  switch (kind)
    {
    case 1:
      return y * 1024;
    case 2:
      return y / 8;
    case 3:
      return y < HUGE_VAL ? nextafter (y, HUGE_VAL) : y;
    case 4:
      return y > 0 ? y * 4 : y;
    case 5:
      return y > 0 ? y : y * 64;
    case 6: // exact for the values in question, huge
      return ldexp (y, 500);
    case 7: // tiny
      return ldexp (y, -200);
    case 8: // neighbouring numbers for integers
      return 1 + ldexp (y, -52);
    case 9:
      return ldexp (y, -52) - 1;
    default:
      return y;
    }
}

struct F
{
  int kind;
  int map; // increasing function
  bool negative;
  V scale;
  shared_ptr<mutex> m = make_shared<mutex> ();
  shared_ptr<vector<V> > calls = make_shared<vector<V> > ();
  double
  value (const V &x) const
  {
    const double y = increasing (map, objective (kind, x));
    return negative ? -y : y;
  }
  real
  operator() (const real q[], natural n) const
  {
    V x (q, q + n);
    for (size_t i = 0; i < n; ++i)
      x[i] /= scale[i];
    lock_guard<mutex> l (*m);
    calls->push_back (x);
    return value (x);
  }
};

struct Con
{
  int kind;
  V scale;
  bool
  is_violated (const real x[], natural n) const
  {
    if (kind == 1)
      for (natural i = 0; i < n; ++i)
        if (x[i] / scale[i] < -0.8 || x[i] / scale[i] > 2.1)
          return true;
    if (kind == 2)
      {
        double s = 0;
        for (natural i = 0; i < n; ++i)
          s += x[i] / scale[i];
        return s > 2.2;
      }
    return false;
  }
  real
  cost (const real[], natural) const
  {
    return 0;
  }
};

struct Tr
{
  natural m;
  shared_ptr<vector<V> > lines = make_shared<vector<V> > ();
  bool
  is_tracing (natural g) const
  {
    return m > 0 && g % m == 0;
  }
  void
  trace (natural g, real y, real a, real b) const
  {
    lines->push_back ({ double (g), y, a, b });
  }
};

struct Case
{
  int kind, n, mu, lambda, modulus, seed, stop, con;
  double goal, step;
  int map = 0;
  bool maximum = false, negative = false, brief = false;
  V scale;          // of parameters, start values and local steps
  double shift = 1; // the global step times this, the local ones divided by it
};

struct Res
{
  unsigned g;
  bool optimized, underflow;
  V x, d, C, B, ps, pc, z;
  double s, y;
  vector<V> calls, lines;
};

static Res
result (const Case &k)
{
  Optimizer::Builder b;
  b.with_problem_dimension (natural (k.n)).with_parent_number (natural (k.mu)).with_population_size (natural (k.lambda)).with_covariance_update_modulus (natural (k.modulus)).with_accuracy_goal (k.goal).with_random_seed (7 + 1000 * k.seed).with_stop_generation (natural (k.stop));
  const Optimizer o = b.build ();
  const F f{ k.kind, k.map, k.negative, k.scale };
  const Con con{ k.con, k.scale };
  const Tr tr{ 0 };
  valarray<real> x (k.n), d (k.n);
  for (int i = 0; i < k.n; ++i)
    {
      x[i] = (0.25 - 0.25 * i) * k.scale[i];
      d[i] = (1.0 + 0.25 * i) * k.scale[i] / k.shift;
    }
  const Optimizer::Result r = k.brief && k.con == 0 ? (k.maximum ? o.maximize (f, x, d, k.step * k.shift) : o.minimize (f, x, d, k.step * k.shift)) : k.maximum ? o.maximize (f, x, d, k.step * k.shift, con, tr) : o.minimize (f, x, d, k.step * k.shift, con, tr);
  Res t;
  auto copy = [] (const valarray<real> &v) { return V (begin (v), end (v)); };
  t.g = unsigned (r.get_generation_number ());
  t.optimized = r.is_optimized ();
  t.underflow = r.is_underflow ();
  t.x = copy (r.get_parameter_values ());
  t.d = copy (r.get_local_step_sizes ());
  t.C = copy (r.get_covariance_matrix ());
  t.B = copy (r.get_rotation_matrix ());
  t.ps = copy (r.get_step_size_cumulation_path ());
  t.pc = copy (r.get_distribution_cumulation_path ());
  t.z = copy (r.get_parameter_uncertainties ());
  t.s = r.get_global_step_size ();
  t.y = r.get_fitness ();
  t.calls = *f.calls;
  t.lines = *tr.lines;
  // the evaluations of a generation are concurrent
  for (size_t i = 0; i < t.calls.size (); i += k.lambda)
    sort (t.calls.begin () + i, t.calls.begin () + min (i + k.lambda, t.calls.size ()));
  // B and C are given by the upper triangle or up to signs
  for (int j = 0; j < k.n; ++j)
    for (int i = j + 1; i < k.n; ++i)
      t.C[j * k.n + i] = 0;
  return t;
}

static string
text (const Case &k)
{
  return mc::cat ("objective=", k.kind, " n=", k.n, " parents=", k.mu, " population=", k.lambda, " modulus=", k.modulus, " seed=", k.seed, " stop=", k.stop, " constraint=", k.con, " goal=", k.goal, " step=", k.step);
}

// exact or up to rounding
static bool
same (const V &a, const V &b, double rel, double abs = 0)
{
  if (a.size () != b.size ())
    return false;
  for (size_t i = 0; i < a.size (); ++i)
    if (!mc::near (a[i], b[i], rel, abs))
      return false;
  return true;
}

static void
compare (mc::Ctx &c, const Res &a, const Res &b, const Case &kb, double rel, const string &what)
{
  if (a.g != b.g)
    c.fail ("generations", mc::cat (b.g, " generations instead of ", a.g, ": ", what));
  if (a.optimized != b.optimized || a.underflow != b.underflow)
    c.fail ("status", "different status: " + what);
  const size_t n = a.x.size ();
  Res u = b;
  for (size_t i = 0; i < n; ++i)
    {
      u.x[i] /= kb.scale[i];
      for (size_t j = 0; j < n; ++j)
        u.C[j * n + i] /= kb.scale[i] * kb.scale[j] / (kb.shift * kb.shift);
      u.pc[i] /= kb.scale[i] / kb.shift;
    }
  if (!same (a.x, u.x, rel, rel))
    c.fail ("values", mc::cat ("parameter 0 is ", u.x[0], " instead of ", a.x[0], ": ", what));
  if (!mc::near (a.s, u.s / kb.shift, rel))
    c.fail ("step", mc::cat ("step size ", u.s / kb.shift, " instead of ", a.s, ": ", what));
  bool uniform = true;
  for (double v : kb.scale)
    uniform = uniform && v == kb.scale[0];
  if (uniform)
    {
      for (double &v : u.d)
        v /= kb.scale[0] / kb.shift;
      if (!same (a.d, u.d, rel))
        c.fail ("local steps", mc::cat ("local step size ", u.d[0], " instead of ", a.d[0], ": ", what));
      if (rel == 0 && a.B != u.B)
        c.fail ("rotation", mc::cat ("rotation matrix: ", what));
      if (!same (a.ps, u.ps, rel, rel))
        c.fail ("path", mc::cat ("step size path: ", what));
    }
  if (!same (a.C, u.C, rel, rel))
    c.fail ("covariance", mc::cat ("covariance: ", what));
  if (!same (a.pc, u.pc, rel, rel))
    c.fail ("path", mc::cat ("distribution path: ", what));
  // the candidates, generation by generation
  if (rel == 0)
    {
      const size_t k = min (a.calls.size (), b.calls.size ());
      for (size_t i = 0; i < k && i < size_t (a.g) * kb.lambda; ++i)
        if (a.calls[i] != b.calls[i])
          c.fail ("candidates", mc::cat ("candidate of generation ", i / kb.lambda, " differs: ", what));
      if (a.calls.size () != b.calls.size () && !a.optimized)
        c.fail ("evaluations", mc::cat (b.calls.size (), " evaluations instead of ", a.calls.size (), ": ", what));
    }
}

int
mc_shards (int tier)
{
  return 7 * 4 * (tier ? 4 : 1);
}

const char *
mc_rule ()
{
  return "all combinations of objective (smooth, valley, ties, both signs, infinite region), dimension, population, seed, constraint, update modulus, stop generation, accuracy goal and relation (maximum of the negative, increasing functions, exact rescaling of parameters or between global and local steps); non-trivial: distinct pairs of runs";
}

void
mc_case (mc::Ctx &c)
{
  Case k;
  k.kind = c.shard () % 7;
  k.n = 1 + c.shard () / 7 % 4;
  k.seed = c.shard () / 28;
  if (k.kind == 5 || k.kind == 6)
    k.kind = 11 - k.kind; // 6 before 5
  static const int sizes[][2] = { { 1, 2 }, { 2, 5 }, { 4, 8 } };
  const int p = c.choose (3);
  k.mu = sizes[p][0];
  k.lambda = sizes[p][1];
  k.modulus = 1 + c.choose (2);
  k.con = c.choose (3);
  static const int stops[] = { 1, 2, 5, 12, 40 };
  k.stop = stops[c.choose (c.tier ? 5 : 4)];
  k.goal = c.flip () ? 0.1 : 1e-6;
  k.step = 0.5;
  k.scale.assign (k.n, 1.0);
  const Res a = result (k);
  Case q = k;
  const int relation = c.choose (20);
  string what = text (k);
  double rel = 0;
  if (relation == 0)
    {
      q.maximum = q.negative = true;
      what = "maximum of the negative: " + what;
    }
  else if (relation < 7)
    {
      q.map = relation;
      what = mc::cat ("increasing function ", relation, ": ", what);
    }
  else if (relation == 7)
    {
      q.map = 2;
      q.maximum = q.negative = true;
      what = "maximum of an increasing function: " + what;
    }
  else if (relation >= 14 && relation < 17)
    {
      q.map = relation - 7;
      if (q.map > 7 && k.kind != 6)
        return;
      what = mc::cat ("increasing function ", q.map, ": ", what);
    }
  else if (relation == 17 || relation == 18)
    {
      // without constraint and trace
      if (k.con != 0)
        return;
      q.brief = true;
      if (relation == 18)
        q.maximum = q.negative = true;
      what = mc::cat (relation == 17 ? "brief: " : "brief maximum of the negative: ", what);
    }
  else if (relation < 10 || relation == 19)
    {
      q.shift = relation == 8 ? 4 : relation == 9 ? 0.125 : 65536;
      what = mc::cat ("global step times ", q.shift, ": ", what);
    }
  else
    {
      // the accuracy goal has an absolute part
      static const double f[] = { 2, 0.25, 1048576, 1.0 / 1024 };
      q.scale.assign (k.n, f[relation - 10]);
      what = mc::cat ("parameters times ", f[relation - 10], ": ", what);
    }
  const bool rescaled = (relation >= 8 && relation < 14) || relation == 19;
  if (rescaled && a.optimized)
    {
      c.count ("not judged: optimized");
      return;
    }
  const Res b = result (q);
  if (rescaled && b.optimized)
    {
      c.count ("not judged: optimized");
      return;
    }
  compare (c, a, b, q, rel, what);
  const double y = increasing (q.map, objective (q.kind, a.x)) * (q.negative ? -1 : 1);
  if (b.y != y)
    c.fail ("fitness", mc::cat ("fitness ", b.y, " instead of ", y, ": ", what));
  if (relation == 0 || relation == 17 || relation == 18)
    {
      if (!same (a.z, b.z, 0))
        c.fail ("uncertainties", mc::cat ("uncertainty ", b.z[0], " instead of ", a.z[0], ": ", what));
      if (!q.brief && a.lines.size () != b.lines.size ())
        c.fail ("log", what);
      for (size_t i = 0; i < b.lines.size (); ++i)
        if (a.lines[i][0] != b.lines[i][0] || a.lines[i][1] != -b.lines[i][1] || a.lines[i][2] != b.lines[i][2] || a.lines[i][3] != b.lines[i][3])
          c.fail ("log", what);
    }
  c.outcome (mc::hash_str (what));
  c.count (rescaled ? "rescaled" : q.maximum ? "mirrored" : q.brief ? "brief" : "increasing functions");
  if (c.want_sample ())
    c.sample (what);
}
