// C04: bounds are respected throughout the search, and resampling does not disturb accepted values.
#include "core/optimizer.h"
#include "es.hpp"
#include "spec.hpp"
#include <memory>
#include <mutex>

using namespace std;
using es::V;
using especia::natural;
using especia::Optimizer;
using especia::real;
typedef spec::Probe<2> P2;
typedef especia::Model<P2> M;

// Draws from an alphabet by choice, afterwards from a fixed sequence that leads inside.
struct Draws
{
  mc::Ctx *c;
  int chosen;
  mutable int i = 0;
  mutable V log;
  real
  operator() () const
  {
    static const double a[] = { 1.0, -1.0, 0.25, 2.0, -1.5 };
    static const double t[] = { 0.25, -0.125, 0.5, -0.25, 0.0625, -0.5, 0.0, 0.125, -0.0625 };
    const double d = i < chosen ? a[c->choose (5)] : i < 4000 ? t[i % 9] * (i % 4 + 1) / 2 : 0;
    ++i;
    log.push_back (d);
    return d;
  }
};

struct Again
{
  const V *v;
  size_t i = 0;
  double
  operator() ()
  {
    return i < v->size () ? (*v)[i++] : (++i, 0.0);
  }
};

struct Box
{
  V lo, up;
  bool
  inside (const V &x) const
  {
    for (size_t i = 0; i < x.size (); ++i)
      if (!(x[i] >= lo[i] && x[i] <= up[i]))
        return false;
    return true;
  }
};

// A constraint which couples the parameters.
struct Coupled
{
  int kind;
  bool
  is_violated (const real x[], natural n) const
  {
    return outside (V (x, x + n));
  }
  bool
  outside (const V &x) const
  {
    double s = 0, q = 0;
    for (double v : x)
      {
        s += v;
        q += v * v;
      }
    return kind == 0 ? s > 1 : kind == 1 ? q > 1.5625 : fabs (x[0] - x.back ()) > 1.25;
  }
  real
  cost (const real[], natural) const
  {
    return 0;
  }
};

struct Recorder
{
  V optimum;
  shared_ptr<mutex> m = make_shared<mutex> ();
  shared_ptr<vector<V> > calls = make_shared<vector<V> > ();
  double
  value (const V &x) const
  {
    double s = 0;
    for (size_t i = 0; i < x.size (); ++i)
      s += (1 + 0.5 * i) * (x[i] - optimum[i]) * (x[i] - optimum[i]);
    return s;
  }
  real
  operator() (const real x[], natural n) const
  {
    V v (x, x + n);
    lock_guard<mutex> l (*m);
    calls->push_back (v);
    return value (v);
  }
};

struct Identity
{
  void
  operator() (const real[], real[], real[]) const
  {
  }
};

static string
text (const V &v)
{
  string t;
  for (double d : v)
    t += mc::str (d) + " ";
  return t;
}

// One or two generations with chosen deviates, without adaption of the distribution, which does not matter here.
static void
sampling (mc::Ctx &c, int n, int con)
{
  const int lambda = 2, mu = 1, stop = 1 + c.choose (2);
  static const double tight[][2] = { { -1, 1 }, { 0, 1 }, { -0.25, 2 }, { -1e-3, 1e-3 }, { -1, HUGE_VAL }, { -HUGE_VAL, 0.25 }, { 0, 1e-3 } };
  Box box;
  V x0 (n, 0.0), d0 (n);
  for (int i = 0; i < n; ++i)
    {
      const int k = (con + 3 * i) % 7;
      box.lo.push_back (tight[k][0]);
      box.up.push_back (tight[k][1]);
      d0[i] = 1 + i;
    }
  const bool coupled = con >= 7;
  const Coupled cc{ con - 7 };
  const M::Bounded_Constraint<> bc (&box.lo[0], &box.up[0], natural (n));
  V B (n * n, 0.0);
  const bool rotated = n > 1 && c.flip ();
  for (int i = 0; i < n; ++i)
    B[i * n + i] = 1;
  if (rotated)
    {
      B[0] = 0.6;
      B[1] = 0.8;
      B[n] = -0.8;
      B[n + 1] = 0.6;
    }
  es::State t = es::initial (x0, d0, 0.5);
  t.B = B;
  Recorder f;
  for (int i = 0; i < n; ++i)
    f.optimum.push_back (3 + i);
  Draws draws{ &c, c.tier ? 6 : 5 };
  V x (x0), d (d0), ps (n, 0.0), pc (n, 0.0), w (mu, 1.0), b (B), cm (t.C);
  double s = 0.5, y = 0;
  natural g = 0;
  bool optimized = false, underflow = false;
  auto go = [&] (auto &k) {
    especia::optimize (f, k, natural (n), natural (mu), natural (lambda), &w[0], 2.0, 0.3, 0.3, 0.0, 0.0, natural (1), 1e-9, natural (stop), g, &x[0], s, &d[0], &b[0], &cm[0], &ps[0], &pc[0], y, optimized, underflow, draws, Identity (), less<real> (), especia::No_Tracing<real> ());
  };
  if (coupled)
    go (cc);
  else
    go (bc);
  auto violated = [&] (const V &v) { return coupled ? cc.outside (v) : !box.inside (v); };
  string what = mc::cat ("n=", n, " constraint=", con, " generations=", stop, rotated ? " rotated" : "", " deviates: ");
  for (size_t i = 0; i < draws.log.size () && i < 30; ++i)
    what += mc::cat (draws.log[i], " ");
  es::Params p;
  p.n = n;
  p.mu = mu;
  p.lambda = lambda;
  p.w = V (mu, 1.0);
  p.damp = 2;
  p.cs = 0.3;
  p.cc = 0.3;
  p.cmu = 0;
  p.c1 = 0;
  p.modulus = 1;
  p.goal = 1e-9;
  p.stop = stop;
  Again again{ &draws.log };
  es::Notes o;
  // equality of a bound and a candidate is a matter of rounding if the axes are rotated
  bool marginal = false;
  auto judged = [&] (const V &v) {
    if (rotated || con == 8)
      {
        V a (v), e (v);
        for (size_t i = 0; i < v.size (); ++i)
          {
            a[i] += 1e-12;
            e[i] -= 1e-12;
          }
        if (violated (a) != violated (v) || violated (e) != violated (v))
          marginal = true;
      }
    return violated (v);
  };
  es::optimize (
      t, p, [&] (const V &v) { return f.value (v); }, judged, again, [] (const V &, V &, V &) {}, [] (double a, double b) { return a < b; }, [] (unsigned) { return false; }, o);
  // every candidate satisfies the constraint
  const size_t m = size_t (g) * lambda;
  if (f.calls->size () < m)
    c.fail ("evaluations", mc::cat (f.calls->size (), " evaluations in ", g, " generations: ", what));
  for (size_t i = 0; i < m; ++i)
    if (violated ((*f.calls)[i]))
      c.fail ("violated", "a candidate violates the constraint: " + text ((*f.calls)[i]) + what);
  c.count ("resampled", o.resampled);
  c.outcome (mc::hash_str (what));
  if (marginal || o.tie)
    {
      c.count ("not compared: rounding or equal fitness");
      return;
    }
  // and equals the expected one: resampling leaves accepted values alone
  if (g != t.g || again.i != draws.log.size ())
    c.fail ("deviates", mc::cat (draws.log.size (), " deviates drawn instead of ", again.i, ": ", what));
  for (size_t i = 0; i < m; i += lambda)
    {
      vector<V> a (f.calls->begin () + i, f.calls->begin () + i + lambda), e (o.candidates.begin () + i, o.candidates.begin () + i + lambda);
      sort (a.begin (), a.end ());
      sort (e.begin (), e.end ());
      for (int k = 0; k < lambda; ++k)
        for (int j = 0; j < n; ++j)
          if (!mc::near (a[k][j], e[k][j], 1e-12, 1e-13))
            c.fail ("candidate", mc::cat ("candidate ", text (a[k]), "instead of ", text (e[k]), ": ", what));
    }
  for (int j = 0; j < n; ++j)
    if (!mc::near (x[j], t.x[j], 1e-12, 1e-13))
      c.fail ("mean", mc::cat ("mean ", text (x), "instead of ", text (t.x), ": ", what));
  if (!mc::near (s, t.s, 1e-12))
    c.fail ("step size", mc::cat ("step size ", s, " instead of ", t.s, ": ", what));
  c.count ("compared");
  if (c.want_sample ())
    c.sample (what);
}

// The effort of a search is limited.
struct Limited
{
  const M::Bounded_Constraint<> &k;
  mutable long n = 0;
  struct Exceeded
  {
  };
  bool
  is_violated (const real x[], natural n_) const
  {
    if (++n > 100000)
      throw Exceeded ();
    return k.is_violated (x, n_);
  }
  real
  cost (const real x[], natural n_) const
  {
    return k.cost (x, n_);
  }
};

// Whole searches between bounds.
static void
search (mc::Ctx &c, int n)
{
  static const double kinds[][3] = { // lower and upper bound, optimum
    { -1, 1, 0 }, { -1, 1, 1 }, { -1, 1, 5 }, { 2, 2.001, 0 }, { -1e6, 1e6, 3 }, { -5, -4.5, -4.5 }, { 0, 1e-7, -1 }, { 5000.5, 5000.9, 5001 }, { 1e11, 1.5e11, 0 }, { -3e5, -2e5, 0 }, { 0, HUGE_VAL, -2 }
  };
  Box box;
  Recorder f;
  valarray<real> x (n), d (n);
  string what = mc::cat ("n=", n);
  const int shape = n > 6 ? 11 * c.choose (11) : c.choose (11 * (n > 1 ? 11 : 1));
  for (int i = 0; i < n; ++i)
    {
      const int k = i == 0 ? shape % 11 : i == 1 ? shape / 11 : (shape + i) % 11;
      box.lo.push_back (kinds[k][0]);
      box.up.push_back (kinds[k][1]);
      f.optimum.push_back (kinds[k][2]);
      const double u = min (box.up[i], 3.0e11);
      x[i] = 0.5 * (box.lo[i] + u);
      d[i] = 0.5 * (u - box.lo[i]);
      what += mc::cat (" [", box.lo[i], ", ", box.up[i], "] ", f.optimum[i]);
    }
  const int start = c.choose (3);
  if (start == 1)
    for (int i = 0; i < n; ++i)
      x[i] = box.lo[i];
  if (start == 2)
    for (int i = 0; i < n; ++i)
      x[i] = min (box.up[i], 3.0e11);
  const int goal = c.choose (2), seed = c.choose (c.tier ? 6 : 2), step = c.choose (2);
  const natural lambda = natural (2 * n + 4);
  Optimizer::Builder b;
  b.with_problem_dimension (natural (n)).with_parent_number (lambda / 2).with_population_size (lambda).with_accuracy_goal (goal ? 1e-6 : 1e-2).with_random_seed (31 + seed).with_stop_generation (natural (c.tier ? 400 : 150));
  const Optimizer o = b.build ();
  const M::Bounded_Constraint<> bc (&box.lo[0], &box.up[0], natural (n));
  const Limited lc{ bc };
  what += mc::cat (" start=", start, " goal=", goal, " seed=", seed, " step=", step);
  unique_ptr<Optimizer::Result> result;
  try
    {
      result.reset (new Optimizer::Result (o.minimize (f, x, d, step ? 2.0 : 0.5, lc, especia::No_Tracing<real> ())));
    }
  catch (Limited::Exceeded)
    {
      for (const V &v : *f.calls)
        if (!box.inside (v))
          c.fail ("violated", mc::cat ("a candidate is out of bounds: ", text (v), what));
      c.count ("ended after 100000 tests of the constraint");
      c.count ("candidates", long (f.calls->size ()));
      c.log (mc::cat (f.calls->size () / lambda, " generations"));
      return;
    }
  const Optimizer::Result &r = *result;
  // what is evaluated after the search to estimate uncertainties is not restricted
  const size_t m = min (f.calls->size (), size_t (r.get_generation_number ()) * lambda);
  for (size_t i = 0; i < m; ++i)
    if (!box.inside ((*f.calls)[i]))
      c.fail ("violated", mc::cat ("a candidate of generation ", i / lambda, " is out of bounds: ", text ((*f.calls)[i]), what));
  const valarray<real> best = r.get_parameter_values ();
  for (int i = 0; i < n; ++i)
    if (!(best[i] >= box.lo[i] - 1e-15 * fabs (box.lo[i]) && best[i] <= box.up[i] + 1e-15 * fabs (box.up[i])))
      c.fail ("result", mc::cat ("value ", best[i], " of parameter ", i, " is out of bounds: ", what));
  c.outcome (mc::hash_str (what));
  c.count (r.is_optimized () ? "optimized" : r.is_underflow () ? "underflow" : "stopped");
  c.count ("candidates", long (m));
  if (c.want_sample ())
    c.sample (what);
}

// Models: the constraint derived from a definition.
struct Watched
{
  const M *model;
  shared_ptr<mutex> m = make_shared<mutex> ();
  shared_ptr<vector<V> > calls = make_shared<vector<V> > ();
  real
  operator() (const real x[], natural n) const
  {
    {
      V v (x, x + n);
      lock_guard<mutex> l (*m);
      calls->push_back (v);
    }
    return (*model) (x, n);
  }
};

static void
model (mc::Ctx &c)
{
  static string data;
  if (data.empty ())
    {
      data = mc::scratch () + "/d";
      ofstream os (data);
      for (int i = 0; i < 9; ++i)
        os << 5000 + 0.5 * i << " " << 1.0 - 0.3 * (i % 3) << " 0.1\n";
    }
  static const char *const bounds[] = { "1 0.5 1.5 1", "1 1.5 0.5 1", "1 2 2 1", "3 0 0 0", "0.1 0.1001 0.1 1", "7 -3 0.25 1" };
  const int a = c.choose (6), b = c.choose (6), d = c.choose (6), e = c.choose (3), seed = c.choose (c.tier ? 8 : 2);
  // the last line refers to the first or has its own values
  const string t = "{\ns " + data + " 4999 5010 1\n" + (e == 0 ? "20 15 30 1" : e == 1 ? "20 0 0 0" : "20 30 20 1") + "\nl\n" + bounds[a] + "\n" + bounds[b] + "\nm\n" + bounds[d] + (e == 2 ? "" : " l") + "\n" + bounds[5 - d] + "\n}\n";
  string error;
  bool unjudged;
  const spec::Spec sp = spec::read (t, 2, error, unjudged);
  const spec::Meaning m = spec::meaning (sp);
  if (m.lo.empty ())
    return;
  istringstream is (t);
  ostringstream os;
  const M model = M::parse (is, os);
  const size_t n = model.get_parameter_count ();
  if (n != m.lo.size ())
    c.fail ("parameters", mc::cat (n, " parameters instead of ", m.lo.size (), ":\n", t));
  Optimizer::Builder bu;
  bu.with_problem_dimension (natural (n)).with_parent_number (3).with_population_size (6).with_accuracy_goal (1e-3).with_random_seed (seed).with_stop_generation (12);
  const Optimizer o = bu.build ();
  const Watched f{ &model };
  const Optimizer::Result r = o.minimize (f, model.get_initial_parameter_values (), model.get_initial_local_step_sizes (), seed % 2 ? 1.0 : 0.5, model.get_constraint (), especia::No_Tracing<real> ());
  const size_t k = min (f.calls->size (), size_t (r.get_generation_number ()) * 6);
  auto inside = [&] (const V &x, double tol) {
    for (size_t i = 0; i < n; ++i)
      if (!(x[i] >= m.lo[i] - tol * fabs (m.lo[i]) && x[i] <= m.up[i] + tol * fabs (m.up[i])))
        return false;
    return true;
  };
  for (size_t i = 0; i < k; ++i)
    if (!inside ((*f.calls)[i], 0))
      c.fail ("violated", mc::cat ("a candidate of generation ", i / 6, " is out of bounds: ", text ((*f.calls)[i]), "\n", t));
  const valarray<real> best = r.get_parameter_values ();
  if (!inside (V (begin (best), end (best)), 1e-15))
    c.fail ("result", "a value is out of bounds: " + text (V (begin (best), end (best))) + "\n" + t);
  c.outcome (mc::hash_str (mc::cat (a, b, d, e, seed)));
  c.count ("models");
  if (c.want_sample ())
    c.sample (t);
}

int
mc_shards (int)
{
  return 30 + 3 + 2;
}

const char *
mc_rule ()
{
  return "all sequences of the first 5 (thorough 6) deviates over an alphabet, dimensions 1 to 3, ten constraints (tight, touching the start, one sided, coupled), straight and rotated axes, one or two generations, compared with the reference; whole searches with all pairs of bounds and starts on bounds; fits of small models; non-trivial: distinct sequences or settings";
}

void
mc_case (mc::Ctx &c)
{
  if (c.shard () < 30)
    sampling (c, 1 + c.shard () / 10, c.shard () % 10);
  else if (c.shard () < 33)
    search (c, c.shard () - 29);
  else if (c.shard () == 33)
    search (c, 9);
  else
    model (c);
}
