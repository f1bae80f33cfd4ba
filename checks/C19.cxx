// C19: optimizer settings are independent of the order they are given in.
#include "core/optimizer.h"
#include "mc.hpp"

using namespace std;
using especia::natural;
using especia::Optimizer;
using especia::real;
using especia::word64;

// The abstract state: the last value given for each setting.
struct Model
{
  natural n = 10, mu = 20, lambda = 40, modulus = 1, stop = 1000;
  real goal = 1e-6;
  word64 seed = 0; // of a new builder: whatever it reports
};

struct Op
{
  const char *name;
  function<void (Optimizer::Builder &)> apply;
  function<void (Model &)> model;
};

typedef Optimizer::Builder B;

static const vector<Op> &
ops ()
{
  static vector<Op> o;
  if (o.empty ())
    {
      for (natural v : { 1, 2, 5, 10, 23 })
        o.push_back ({ "dimension", [v] (B &b) { b.with_problem_dimension (v); }, [v] (Model &m) { m.n = v; } });
      for (natural v : { 1, 2, 3, 20, 50 })
        o.push_back ({ "parents", [v] (B &b) { b.with_parent_number (v); }, [v] (Model &m) { m.mu = v, m.lambda = 2 * v; } });
      for (natural v : { 4, 7, 40, 51 })
        o.push_back ({ "population", [v] (B &b) { b.with_population_size (v); }, [v] (Model &m) { m.lambda = v; } });
      for (natural v : { 1, 3 })
        o.push_back ({ "modulus", [v] (B &b) { b.with_covariance_update_modulus (v); }, [v] (Model &m) { m.modulus = v; } });
      for (real v : { 1e-6, 0.25 })
        o.push_back ({ "accuracy", [v] (B &b) { b.with_accuracy_goal (v); }, [v] (Model &m) { m.goal = v; } });
      for (word64 v : { 0ull, 31415ull, 18446744073709551615ull })
        o.push_back ({ "seed", [v] (B &b) { b.with_random_seed (v); }, [v] (Model &m) { m.seed = v; } });
      for (natural v : { 0, 3, 1000 })
        o.push_back ({ "stop", [v] (B &b) { b.with_stop_generation (v); }, [v] (Model &m) { m.stop = v; } });
      o.push_back ({ "defaults", [] (B &b) { b.with_defaults (); }, [] (Model &m) { m = Model (), m.seed = 9600629759793949339ull; } });
      o.push_back ({ "copy", [] (B &b) { B c (b); c.with_parent_number (3).with_problem_dimension (4).with_stop_generation (1); }, [] (Model &) {} });
      o.push_back ({ "build", [] (B &b) { Optimizer q = b.build (); (void)q; }, [] (Model &) {} });
    }
  return o;
}

static void
verify (mc::Ctx &c, const B &b, const Model &m, const string &text)
{
  auto same = [&] (auto a, auto e, const char *what) {
    if (a != e)
      c.fail (what, mc::cat (what, " is ", a, " instead of ", e, " after ", text));
  };
  same (b.get_problem_dimension (), m.n, "dimension");
  same (b.get_parent_number (), m.mu, "parent-number");
  same (b.get_population_size (), m.lambda, "population-size");
  same (b.get_covariance_update_modulus (), m.modulus, "update-modulus");
  same (b.get_accuracy_goal (), m.goal, "accuracy-goal");
  same (b.get_random_seed (), m.seed, "random-seed");
  same (b.get_stop_generation (), m.stop, "stop-generation");
  const auto &w = b.get_weights ();
  same (w.size (), size_t (m.mu), "number-of-weights");
  auto close = [&] (real a, long double e, const char *what) {
    if (!(fabsl (a - e) <= 1e-13L * max (1.0L, fabsl (e))))
      c.fail (what, mc::cat (what, " is ", a, " instead of ", double (e), " after ", text));
  };
  long double s = 0, q = 0;
  for (natural i = 0; i < m.mu; ++i)
    {
      const long double e = logl (m.mu + 0.5L) - logl (i + 1.0L);
      close (w[i], e, "weight");
      s += e;
      q += e * e;
    }
  // Hansen (2014)
  const long double n = m.n, me = s * s / q;
  const long double cs = (me + 2) / (n + me + 5);
  const long double c1 = 2 / ((n + 1.3L) * (n + 1.3L) + me);
  close (b.get_step_size_cumulation_rate (), cs, "step-size-cumulation-rate");
  close (b.get_distribution_cumulation_rate (), (4 + me / n) / (n + 4 + 2 * me / n), "distribution-cumulation-rate");
  close (b.get_rank_1_covariance_matrix_adaption_rate (), c1, "rank-1-rate");
  close (b.get_rank_m_covariance_matrix_adaption_rate (), min (1 - c1, 2 * (me - 2 + 1 / me) / ((n + 2) * (n + 2) + me)), "rank-mu-rate");
  close (b.get_step_size_damping (), 1 + 2 * max (0.0L, sqrtl ((me - 1) / (n + 1)) - 1) + cs, "damping");
}

static real
sphere (const real x[], natural n)
{
  real s = 0;
  for (natural i = 0; i < n; ++i)
    s += (i + 1) * (x[i] - 0.3) * (x[i] - 0.3);
  return s;
}

static string
search (const Optimizer &o, natural n)
{
  valarray<real> x (1.0, n), d (1.0, n);
  const Optimizer::Result r = o.minimize (sphere, x, d, 1.0);
  ostringstream os;
  os.precision (17);
  os << r.get_generation_number () << ' ' << r.get_fitness () << ' ' << r.is_optimized () << r.is_underflow ();
  for (real v : r.get_parameter_values ())
    os << ' ' << v;
  for (real v : r.get_covariance_matrix ())
    os << ' ' << v;
  return os.str ();
}

static void
sequences (mc::Ctx &c)
{
  B b;
  Model m;
  m.seed = b.get_random_seed ();
  const int first = c.shard ();
  const int depth = c.tier ? 5 : 4;
  const int len = c.choose (depth + 1);
  string text;
  const auto &o = ops ();
  uint64_t h = 1;
  for (int i = 0; i < len; ++i)
    {
      const int k = i == 0 ? first : c.choose (int (o.size ()));
      if (!text.empty ())
        text += ", ";
      text += mc::cat (o[k].name, "#", k);
      o[k].apply (b);
      o[k].model (m);
    }
  if (len == 0)
    text = "construction";
  c.log (text);
  verify (c, b, m, text);
  c.count ("transitions", len > 0);
  c.count ("traces");
  for (uint64_t v : { uint64_t (m.n), uint64_t (m.mu), uint64_t (m.lambda), uint64_t (m.modulus), uint64_t (m.stop), uint64_t (m.goal * 1e9), uint64_t (m.seed) })
    h = mc::mix (h, v);
  c.state (h);
  c.outcome (h);
  if (c.want_sample ())
    c.sample (text);
}

// An optimizer keeps the settings it was built with.
static void
kept (mc::Ctx &c)
{
  const auto &o = ops ();
  Model m;
  B b;
  m.seed = b.get_random_seed ();
  b.with_stop_generation (3).with_parent_number (3).with_problem_dimension (2);
  m.stop = 3, m.mu = 3, m.lambda = 6, m.n = 2;
  // one operation before, two after building
  const int i = c.choose (int (o.size ()) + 1), j = c.choose (int (o.size ()));
  string text = mc::cat ("operation ", i, ", build, operation ", j);
  if (i < int (o.size ()))
    {
      o[i].apply (b);
      o[i].model (m);
    }
  if (m.lambda <= m.mu || m.lambda > 60)
    return;
  c.log (text);
  m.stop = min<natural> (m.stop, 3);
  b.with_stop_generation (m.stop);
  const Optimizer first = b.build ();
  const Optimizer copy (first);
  o[j].apply (b);
  const int k = c.choose (int (o.size ()));
  o[k].apply (b);
  // the same settings in another order, from a new builder
  B e;
  e.with_accuracy_goal (m.goal).with_stop_generation (m.stop).with_random_seed (m.seed).with_covariance_update_modulus (m.modulus).with_parent_number (m.mu).with_population_size (m.lambda).with_problem_dimension (m.n);
  const string want = search (e.build (), m.n);
  const string got = search (first, m.n), got2 = search (copy, m.n);
  if (got != want)
    c.fail ("kept", mc::cat (text, " ", k, ": the search gives\n", got, "\ninstead of\n", want));
  if (got2 != want)
    c.fail ("copied", mc::cat (text, " ", k, ": the search of a copy gives\n", got2, "\ninstead of\n", want));
  c.count ("traces");
  c.count ("transitions", 3);
  c.state (mc::hash_str (want));
  c.outcome (mc::hash_str (want));
}

int
mc_shards (int)
{
  return int (ops ().size ()) + 1;
}

const char *
mc_rule ()
{
  return "every sequence of settings up to a length from a new builder, compared after each with the last values given and the published formulas; searches of optimizers whose builder is changed later; non-trivial: distinct settings reached";
}

void
mc_case (mc::Ctx &c)
{
  if (c.shard () < int (ops ().size ()))
    sequences (c);
  else
    kept (c);
}
