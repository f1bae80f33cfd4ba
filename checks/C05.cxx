// C05: each generation follows the published evolution strategy.
#include "core/optimizer.h"
#include "es.hpp"
#include "lapack_wrap.hpp"
#include "mc.hpp"

using namespace std;
using especia::natural;
using especia::real;
using es::V;

static double
table (int p, long i)
{
  static const double v[] = { 0.25, -1.5, 1.0, -0.375, 2.25, -0.0625, 0.8125, -2.0, 0.546875, -0.90625, 1.328125 };
  uint64_t h = mc::mix (mc::mix (77, p), i);
  return v[h % 11] + 0.015625 * double (h / 11 % 7) + 1e-4 * double (i % 997);
}

struct Draws
{
  mc::Ctx *c;
  int pattern; // -1: every value chosen
  mutable long i = 0;
  mutable V log;
  real
  operator() () const
  {
    static const double a[] = { -1.25, 0.5, 2.0, -0.125 };
    double d = pattern < 0 && i < 6 ? a[c->choose (i < 4 ? 4 : 2)] + 0.01 * i : table (pattern, i);
    ++i;
    log.push_back (d);
    return d;
  }
};

struct Replayed
{
  const V *v;
  size_t i = 0;
  double extra = 0;
  double
  operator() ()
  {
    if (i >= v->size ())
      {
        ++i;
        return table (99, i);
      }
    return (*v)[i++];
  }
};

static double
objective (int kind, const V &x)
{
  double s = 0;
  const size_t n = x.size ();
  for (size_t i = 0; i < n; ++i)
    {
      switch (kind)
        {
        case 0:
          s += (i + 1) * x[i] * x[i];
          break;
        case 1:
          s += 3 * x[i] * x[i] + x[i] * x[(i + 1) % n] - 0.7 * x[i];
          break;
        case 2:
          s += x[i] * (1.0 + 0.25 * i); // linear
          break;
        case 3:
          s += i + 1 < n ? 100 * pow (x[i + 1] - x[i] * x[i], 2) + pow (1 - x[i], 2) : 0.001 * x[i] * x[i];
          break;
        }
    }
  return s;
}

struct F
{
  int kind;
  real
  operator() (const real x[], natural n) const
  {
    return objective (kind, V (x, x + n));
  }
};

struct Con
{
  int kind; // 0 none, 1 box, 2 half space with a cost
  bool
  is_violated (const real x[], natural n) const
  {
    return violated (V (x, x + n));
  }
  real
  cost (const real x[], natural n) const
  {
    return penalty (V (x, x + n));
  }
  bool
  violated (const V &x) const
  {
    if (kind == 1)
      for (double d : x)
        if (d < -4.001 || d > 4.001)
          return true;
    if (kind == 2)
      {
        double s = 0;
        for (double d : x)
          s += d;
        return s > 5.003;
      }
    return false;
  }
  double
  penalty (const V &x) const
  {
    return kind == 2 ? 0.5 * fabs (x[0]) : 0.0;
  }
};

// A decomposition that records what it is given and returns what it is told.
struct Dec
{
  int kind; // 0: Jacobi rotation (real), 1: prescribed eigenvalues, extreme condition
  int n;
  mutable vector<V> calls;
  void
  operator() (const real C[], real B[], real d[]) const
  {
    calls.push_back (V (C, C + n * n));
    V c (C, C + n * n), b (n * n), e (n);
    solve (c, b, e);
    copy (b.begin (), b.end (), B);
    copy (e.begin (), e.end (), d);
  }
  void
  solve (const V &C, V &B, V &e) const
  {
    // symmetric completion of the upper triangle, cyclic Jacobi
    V A (n * n);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i <= j; ++i)
        A[j * n + i] = A[i * n + j] = C[j * n + i];
    V R (n * n, 0.0);
    for (int i = 0; i < n; ++i)
      R[i * n + i] = 1;
    for (int sweep = 0; sweep < 30; ++sweep)
      for (int p = 0; p < n; ++p)
        for (int q = p + 1; q < n; ++q)
          {
            if (A[q * n + p] == 0)
              continue;
            double th = (A[q * n + q] - A[p * n + p]) / (2 * A[q * n + p]);
            double t = (th >= 0 ? 1 : -1) / (fabs (th) + sqrt (th * th + 1)), c = 1 / sqrt (t * t + 1), s = t * c;
            for (int k = 0; k < n; ++k)
              {
                double a = A[p * n + k], b = A[q * n + k];
                A[p * n + k] = c * a - s * b;
                A[q * n + k] = s * a + c * b;
              }
            for (int k = 0; k < n; ++k)
              {
                double a = A[k * n + p], b = A[k * n + q];
                A[k * n + p] = c * a - s * b;
                A[k * n + q] = s * a + c * b;
                a = R[p * n + k], b = R[q * n + k];
                R[p * n + k] = c * a - s * b;
                R[q * n + k] = s * a + c * b;
              }
          }
    vector<int> o (n);
    for (int i = 0; i < n; ++i)
      o[i] = i;
    sort (o.begin (), o.end (), [&] (int a, int b) { return A[a * n + a] < A[b * n + b]; });
    B.resize (n * n);
    for (int j = 0; j < n; ++j)
      {
        e[j] = A[o[j] * n + o[j]];
        int big = 0;
        for (int i = 0; i < n; ++i)
          {
            B[j * n + i] = R[o[j] * n + i];
            if (fabs (B[j * n + i]) > fabs (B[j * n + big]) + 1e-6)
              big = i;
          }
        if (B[j * n + big] < 0)
          for (int i = 0; i < n; ++i)
            B[j * n + i] = -B[j * n + i];
      }
    if (kind == 1)
      for (int j = 0; j < n; ++j)
        e[j] = j + 1 == n ? 3.0 : -1e-3 + 1e-17 * j;
    if (kind == 2)
      for (int j = 0; j < n; ++j)
        e[j] = j + 1 == n ? 4.0 : 1e-14 * (j + 1);
  }
};

struct Tracer
{
  unsigned modulus;
  mutable vector<es::Trace> log;
  bool
  is_tracing (natural g) const
  {
    return modulus && g % modulus == 0;
  }
  void
  trace (natural g, real y, real a, real b) const
  {
    log.push_back ({ unsigned (g), y, a, b });
  }
};

static void
same (mc::Ctx &c, const char *what, const V &a, const V &b, double tol, const string &text)
{
  double top = 0;
  for (double d : b)
    top = max (top, fabs (d));
  for (size_t i = 0; i < b.size (); ++i)
    if (!mc::near (a[i], b[i], tol, tol * top))
      c.fail (what, mc::cat (what, "[", i, "] is ", a[i], ", the reference gives ", b[i], ": ", text));
}

static void
compare (mc::Ctx &c, const es::State &a, const es::State &b, double tol, const string &text)
{
  if (a.g != b.g)
    c.fail ("generation", mc::cat ("generation ", a.g, ", the reference ends in ", b.g, ": ", text));
  if (a.optimized != b.optimized || a.underflow != b.underflow)
    c.fail ("status", mc::cat ("optimized ", a.optimized, " underflow ", a.underflow, ", reference ", b.optimized, " ", b.underflow, ": ", text));
  same (c, "parameter values", a.x, b.x, tol, text);
  same (c, "step size", V{ a.s }, V{ b.s }, tol, text);
  same (c, "local step sizes", a.d, b.d, tol, text);
  const int n = int (b.x.size ());
  V ca, cb;
  for (int j = 0; j < n; ++j)
    for (int i = 0; i <= j; ++i)
      {
        ca.push_back (a.C[j * n + i]);
        cb.push_back (b.C[j * n + i]);
      }
  same (c, "covariance", ca, cb, tol, text);
  same (c, "rotation", a.B, b.B, tol * 100, text);
  same (c, "step size path", a.ps, b.ps, tol, text);
  same (c, "distribution path", a.pc, b.pc, tol, text);
  if (!mc::near (a.y, b.y, tol, tol))
    c.fail ("fitness", mc::cat ("fitness ", a.y, ", the reference gives ", b.y, ": ", text));
}

template <class Deviate, class Decompose, class Cmp>
static void
real_optimize (es::State &t, const es::Params &p, const F &f, const Con &con, const Deviate &dev, const Decompose &dec, const Cmp &cmp, const Tracer &tr)
{
  natural g = t.g;
  especia::optimize (f, con, natural (p.n), natural (p.mu), natural (p.lambda), p.w.data (), p.damp, p.cs, p.cc, p.cmu, p.c1, natural (p.modulus), p.goal, natural (p.stop), g, t.x.data (), t.s, t.d.data (), t.B.data (), t.C.data (), t.ps.data (), t.pc.data (), t.y, t.optimized, t.underflow, dev, dec, cmp, tr);
  t.g = g;
}

static es::State
make_state (int n, int kind)
{
  V x (n), d (n);
  for (int i = 0; i < n; ++i)
    {
      x[i] = kind % 2 ? -0.5 + 0.75 * i : 1.0;
      d[i] = 1.0 + (kind % 3) * 0.5 * i;
    }
  es::State t = es::initial (x, d, kind == 0 ? 1.0 : kind == 1 ? 0.125 : 0.75);
  if (kind >= 2)
    {
      // correlated state with paths
      for (int i = 0; i < n; ++i)
        {
          t.ps[i] = 0.3 - 0.2 * i;
          t.pc[i] = -0.4 + 0.35 * i;
        }
      for (int j = 0; j < n; ++j)
        for (int i = 0; i <= j; ++i)
          t.C[j * n + i] = i == j ? 1.5 + 0.5 * i : 0.3 / (1 + j - i);
      Dec q{ 0, n };
      V e (n);
      q.solve (t.C, t.B, e);
      for (int i = 0; i < n; ++i)
        t.d[i] = sqrt (e[i]);
    }
  return t;
}

static es::Params
make_params (int n, int mu, int lambda, int kind)
{
  es::Params p;
  p.n = n;
  p.mu = mu;
  p.lambda = lambda;
  p.w.resize (mu);
  for (int i = 0; i < mu; ++i)
    p.w[i] = kind == 1 ? 1.0 : kind == 2 ? 3.0 - (mu > 5 ? 2.5 / mu : 0.5) * i : log ((mu + 0.5) / (i + 1));
  p.damp = kind == 1 ? 1.7 : 1.3;
  p.cs = kind == 2 ? 0.6 : 0.3;
  p.cc = kind == 1 ? 1.0 : 0.4;
  p.cmu = kind == 3 ? 0.0 : 0.25;
  p.c1 = kind == 2 || kind == 3 ? 0.0 : 0.125;
  p.modulus = 1;
  p.goal = 1e-12;
  p.stop = 1;
  return p;
}

int
mc_shards (int tier)
{
  return 3 * 8 + 24 + 16 + 16;
}

const char *
mc_rule ()
{
  return "generations from every initial state, weight and rate setting, update modulus, constraint, objective and deviate sequence of finite sets, compared with a reference model; interruption of searches at every generation; searches of the optimizer class compared generation by generation; non-trivial: distinct resulting strategy states";
}

static uint64_t
digest (const es::State &t)
{
  uint64_t h = t.g;
  for (double d : t.x)
    h = mc::hash_double (d, h);
  for (double d : t.C)
    h = mc::hash_double (d, h);
  return mc::hash_double (t.s, h);
}

// A relative perturbation of every element.
static V
perturb (const V &C, double e)
{
  V p (C);
  if (e > 0)
    for (size_t i = 0; i < p.size (); ++i)
      p[i] *= 1.0 + e * (double (mc::mix (5, i) % 1000) / 500.0 - 1.0);
  return p;
}

// Whether two results of the reference agree, one computed with perturbed matrices: otherwise rounding errors matter.
static bool
stable (const es::State &a, const es::State &b, double tol)
{
  if (a.g != b.g || a.underflow != b.underflow || a.optimized != b.optimized)
    return false;
  auto same = [&] (const V &u, const V &v) {
    for (size_t i = 0; i < u.size (); ++i)
      if (!mc::near (u[i], v[i], tol, tol))
        return false;
    return true;
  };
  return same (a.x, b.x) && same (a.d, b.d) && same (a.B, b.B) && same (a.C, b.C) && same (a.ps, b.ps) && same (a.pc, b.pc) && mc::near (a.s, b.s, tol) && mc::near (a.y, b.y, tol, tol);
}

static void
judge (mc::Ctx &c, const es::State &t, const es::Params &p, const Con &con, const F &f, const Dec &dec, bool max, const Draws &dr, const Tracer &tr, const string &text)
{
  const int n = p.n;
  // weights must lie on values that do not matter at all: the lower triangle of C
  es::State a = t, b = t;
  for (int j = 0; j < n; ++j)
    for (int i = j + 1; i < n; ++i)
      a.C[j * n + i] = 1e30;
  if (max)
    real_optimize (a, p, f, con, dr, dec, greater<real> (), tr);
  else
    real_optimize (a, p, f, con, dr, dec, less<real> (), tr);
  Replayed rp{ &dr.log };
  Dec dec2{ dec.kind, n };
  es::Notes o;
  auto ff = [&] (const V &x) { return objective (f.kind, x) + con.penalty (x); };
  auto refer = [&] (es::State &b, Replayed &rp, es::Notes &o, double perturbation) {
    es::optimize (
        b, p, ff, [&] (const V &x) { return con.violated (x); }, rp, [&] (const V &C, V &B, V &e) { dec2.solve (perturb (C, perturbation), B, e); },
        [&] (double u, double v) { return max ? u > v : u < v; }, [&] (unsigned g) { return tr.modulus && g % tr.modulus == 0; }, o);
  };
  refer (b, rp, o, 0.0);
  c.count ("transitions", b.g - t.g);
  if (o.tie || o.marginal)
    {
      c.count ("ties, not judged");
      return;
    }
  if (o.decompositions)
    {
      es::State v = t;
      Replayed rq{ &dr.log };
      es::Notes q;
      refer (v, rq, q, 1e-13);
      if (!stable (b, v, 1e-10))
        {
          c.count ("unstable to rounding, not judged");
          return;
        }
    }
  c.count ("traces");
  c.count ("resampled", o.resampled);
  c.count ("conditioned", o.conditioned);
  if (rp.i != dr.log.size ())
    c.fail ("deviates", mc::cat (dr.log.size (), " deviates drawn, the reference draws ", rp.i, ": ", text));
  compare (c, a, b, 1e-9, text);
  c.state (digest (b));
  c.outcome (digest (b));
  if (c.want_sample ())
    c.sample (text);
}

static void
generations (mc::Ctx &c)
{
  const int n = 1 + c.shard () / 8, st = c.shard () % 8 % 4, half = c.shard () / 4 % 2;
  const int mu = 1 + c.choose (3);
  const int lambda = half ? 2 * mu + c.choose (2) : mu + 1;
  es::Params p = make_params (n, mu, lambda, c.choose (4));
  const int gens = 1 + c.choose (3);
  es::State t = make_state (n, st);
  p.modulus = 1 + c.choose (3);
  t.g = (c.tier ? c.choose (2) : p.modulus == 2) ? 3 : 0;
  p.stop = t.g + gens;
  const Con con{ c.choose (3) };
  const F f{ c.choose (4) };
  Dec dec{ c.choose (gens == 1 ? 3 : 1), n };
  const bool max = c.choose (2);
  const int patterns = c.tier ? 5 : 2;
  const bool all = n * lambda * gens <= 4 && (c.tier || (p.modulus == 1 && f.kind < 2 && dec.kind == 0 && !max && p.w.size () < 3 && p.c1 > 0 && p.damp == 1.3 && p.cs == 0.3));
  const int pt = c.choose (patterns + all);
  Draws dr{ &c, pt < patterns ? pt : -1 };
  Tracer tr{ unsigned (c.tier ? c.choose (2) : max) };
  string text = mc::cat ("n=", n, " parents=", mu, " population=", lambda, " state=", st, " generation=", t.g, " stop=", p.stop, " modulus=", p.modulus, " constraint=", con.kind, " objective=", f.kind, " decomposition=", dec.kind, " deviates=", pt, max ? " maximised" : "");
  c.log (text);
  judge (c, t, p, con, f, dec, max, dr, tr, text);
}

// Many dimensions, parents and candidates, extreme step sizes.
static void
large (mc::Ctx &c)
{
  const int sh = c.shard () - 64;
  static const int dims[] = { 4, 5, 8, 13 }, sizes[] = { 4, 8, 11, 20, 40 };
  const int n = dims[sh % 4], mu = sizes[c.choose (c.tier ? 5 : 4)];
  const int lambda = sh / 4 % 2 ? 2 * mu : mu + 1 + 2 * c.choose (mu);
  if (!c.tier && sh / 4 % 2 == 0 && lambda != mu + 1 && lambda < 3 * mu - 3)
    return;
  es::Params p = make_params (n, mu, lambda, c.choose (4));
  const int scale = c.choose (3), gens = 1 + c.choose (2);
  es::State t = make_state (n, 2 * (sh / 8) + 1);
  t.s *= scale == 1 ? 1e14 : scale == 2 ? 1e-13 : 1;
  p.modulus = 1 + c.choose (2);
  p.stop = gens;
  p.goal = scale == 2 ? 1e-15 : 1e-12;
  const Con con{ scale == 0 && n < 8 ? c.choose (2) : 0 };
  const F f{ scale ? 0 : c.choose (4) };
  const Dec dec{ 0, n };
  const bool max = c.flip ();
  Draws dr{ &c, 1 };
  Tracer tr{ 1 };
  const string text = mc::cat ("large n=", n, " parents=", mu, " population=", lambda, " state=", 2 * (sh / 8) + 1, " scale=", scale, " stop=", p.stop, " modulus=", p.modulus, " constraint=", con.kind, " objective=", f.kind, max ? " maximised" : "");
  judge (c, t, p, con, f, dec, max, dr, tr, text);
}

struct Stream
{
  especia::Normal_Deviate<especia::Melg19937_64> d;
  explicit Stream (uint64_t s) : d (s) {}
  real
  operator() () const
  {
    return d ();
  }
};

// A search interrupted after every generation.
static void
resume (mc::Ctx &c)
{
  const int sh = c.shard () - 24;
  const int n = 1 + sh % 4;
  const int mu = 1 + sh / 4 % 3;
  const int lambda = 2 * mu + sh / 12;
  const int pk = c.choose (4);
  es::Params p = make_params (n, mu, lambda, pk);
  p.modulus = 1 + c.choose (3);
  const int gens = c.tier ? 6 : 4;
  p.stop = gens;
  const Con con{ c.tier ? c.choose (3) : pk % 3 };
  const F f{ c.choose (4) };
  const int kind = c.choose (3);
  const unsigned cutmask = c.choose (1 << (gens - 1));
  const uint64_t seed = 1 + c.choose (c.tier ? 2 : 1);
  es::State a = make_state (n, 1), b = a;
  string text = mc::cat ("n=", n, " parents=", mu, " population=", lambda, " modulus=", p.modulus, " constraint=", con.kind, " objective=", f.kind, " interrupted=", cutmask);
  c.log (text);
  auto whole = [&] (auto dec) {
    Stream s (seed);
    Tracer tr{ 0 };
    real_optimize (a, p, f, con, s, dec, less<real> (), tr);
    Stream s2 (seed);
    for (int g = 1; g <= gens; ++g)
      if (g == gens || ((cutmask >> (g - 1)) & 1))
        {
          p.stop = g;
          real_optimize (b, p, f, con, s2, dec, less<real> (), tr);
          if (b.optimized || b.underflow)
            break;
        }
  };
  if (kind == 0)
    whole (especia::D_Decompose (n));
  else if (kind == 1)
    whole (especia::R_Decompose (n));
  else
    whole (especia::X_Decompose (n));
  compare (c, b, a, 0.0, "interrupted and continued: " + text);
  c.count ("transitions", 2 * gens);
  c.count ("traces");
  c.state (digest (a));
  c.outcome (digest (a));
}

// The optimizer class.
static void
whole (mc::Ctx &c)
{
  const int sh = c.shard () - 48;
  const int n = 1 + sh % 4;
  const int fk = sh / 4;
  const int mu = c.tier ? c.pick ({ 1, 2, 5, 20 }) : c.pick ({ 1, 2, 5 });
  const int lambda = c.choose (2) ? 2 * mu : 3 * mu + 1;
  const int modulus = c.tier ? c.pick ({ 1, 2, 5 }) : c.pick ({ 1, 2 });
  const uint64_t seed = c.tier ? c.pick<uint64_t> ({ 1, 271828, 9600629759793949339ull }) : modulus == 1 ? 1 : 271828;
  const bool max = c.flip ();
  const Con con{ c.choose (3) };
  const int gens = c.tier ? c.pick ({ 1, 2, 7, 12 }) : c.pick ({ 1, 7 });
  especia::Optimizer::Builder bl;
  bl.with_problem_dimension (n).with_parent_number (mu).with_population_size (lambda).with_covariance_update_modulus (modulus).with_random_seed (seed).with_stop_generation (gens).with_accuracy_goal (1e-9);
  const especia::Optimizer o = bl.build ();
  es::Params p;
  p.n = n;
  p.mu = mu;
  p.lambda = lambda;
  const auto &w = bl.get_weights ();
  p.w.assign (std::begin (w), std::end (w));
  p.damp = bl.get_step_size_damping ();
  p.cs = bl.get_step_size_cumulation_rate ();
  p.cc = bl.get_distribution_cumulation_rate ();
  // the adaption rates, from the literature
  double s1 = 0, s2 = 0;
  for (int i = 0; i < mu; ++i)
    {
      const double q = log (mu + 0.5) - log (i + 1.0);
      s1 += q;
      s2 += q * q;
    }
  const double me = s1 * s1 / s2;
  p.c1 = 2 / (pow (n + 1.3, 2) + me);
  p.cmu = min (1 - p.c1, 2 * (me - 2 + 1 / me) / (pow (n + 2.0, 2) + me));
  p.modulus = modulus;
  p.goal = 1e-9;
  p.stop = gens;
  const F f{ fk };
  Tracer tr{ 3 };
  valarray<real> x (n), d (n);
  for (int i = 0; i < n; ++i)
    {
      x[i] = 1.0 - 0.5 * i;
      d[i] = 1.0 + i;
    }
  string text = mc::cat ("optimizer n=", n, " parents=", mu, " population=", lambda, " modulus=", modulus, " seed=", seed, " objective=", fk, " constraint=", con.kind, " generations=", gens, max ? " maximised" : "");
  c.log (text);
  auto check = [&] (const especia::Optimizer::Result &r) {
    es::State a, b = es::initial (V (std::begin (x), std::end (x)), V (std::begin (d), std::end (d)), 0.5);
    auto vec = [] (const valarray<real> &v) { return V (std::begin (v), std::end (v)); };
    a.g = r.get_generation_number ();
    a.x = vec (r.get_parameter_values ());
    a.d = vec (r.get_local_step_sizes ());
    a.B = vec (r.get_rotation_matrix ());
    a.C = vec (r.get_covariance_matrix ());
    a.ps = vec (r.get_step_size_cumulation_path ());
    a.pc = vec (r.get_distribution_cumulation_path ());
    a.s = r.get_global_step_size ();
    a.y = r.get_fitness ();
    a.optimized = r.is_optimized ();
    a.underflow = r.is_underflow ();
    Stream s (seed);
    especia::R_Decompose dec (n);
    es::Notes no;
    es::State b2 = b;
    Stream s2 = s;
    auto refer = [&] (es::State &b, Stream &s, es::Notes &no, double perturbation) {
      es::optimize (
          b, p, [&] (const V &v) { return objective (fk, v) + con.penalty (v); }, [&] (const V &v) { return con.violated (v); }, s,
          [&] (const V &C, V &B, V &e) { dec (perturb (C, perturbation).data (), B.data (), e.data ()); }, [&] (double u, double v) { return max ? u > v : u < v; },
          [] (unsigned g) { return g % 3 == 0; }, no);
    };
    refer (b, s, no, 0.0);
    es::Notes no2;
    refer (b2, s2, no2, 1e-13);
    c.count ("transitions", b.g);
    if (no.tie || no.marginal)
      {
        c.count ("ties, not judged");
        return;
      }
    if (!stable (b, b2, gens <= 2 ? 1e-11 : 1e-7))
      {
        c.count ("unstable to rounding, not judged");
        return;
      }
    c.count ("traces");
    // rounding errors grow with the generations
    compare (c, a, b, gens <= 2 ? 1e-10 : 1e-6, text);
    if (tr.log.size () != no.trace.size ())
      c.fail ("trace", mc::cat (tr.log.size (), " trace calls, the reference makes ", no.trace.size (), ": ", text));
    c.state (digest (b));
    c.outcome (digest (b));
    if (c.want_sample ())
      c.sample (text);
  };
  if (max)
    check (o.maximize (f, x, d, 0.5, con, tr));
  else
    check (o.minimize (f, x, d, 0.5, con, tr));
}

void
mc_case (mc::Ctx &c)
{
  lapackw::normalise = true;
  if (c.shard () < 24)
    generations (c);
  else if (c.shard () < 48)
    resume (c);
  else if (c.shard () < 64)
    whole (c);
  else
    large (c);
}
