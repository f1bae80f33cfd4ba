// C06: termination and the reported status, judged against the generations one by one.
#include "core/optimizer.h"
#include "mc.hpp"
#include <map>
#include <memory>
#include <mutex>

using namespace std;
using especia::natural;
using especia::Optimizer;
using especia::real;

typedef vector<double> V;

static double
objective (int kind, const double *x, size_t n)
{
  double s = 0;
  switch (kind)
    {
    case 0: // sphere about 1
      for (size_t i = 0; i < n; ++i)
        s += (x[i] - 1) * (x[i] - 1);
      return s;
    case 1: // ellipsoid about 0
      for (size_t i = 0; i < n; ++i)
        s += pow (10.0, double (i)) * x[i] * x[i];
      return s;
    case 2: // constant
      return 3.5;
    case 3: // plateaus
      for (size_t i = 0; i < n; ++i)
        s += floor (2 * fabs (x[i] - 0.25));
      return s;
    case 4: // linear
      for (size_t i = 0; i < n; ++i)
        s += (1.0 + i) * x[i];
      return s;
    case 5: // different scales, far from 0
      for (size_t i = 0; i < n; ++i)
        s += (x[i] / pow (10.0, double (i)) - 5) * (x[i] / pow (10.0, double (i)) - 5);
      return 1000 + s;
    default: // flat floor: all candidates become equal at last
      for (size_t i = 0; i < n; ++i)
        s += x[i] * x[i];
      return max (s, 0.01);
    }
}

struct F
{
  int kind;
  double sign;
  shared_ptr<mutex> m = make_shared<mutex> ();
  shared_ptr<vector<double> > calls = make_shared<vector<double> > ();
  real
  operator() (const real x[], natural n) const
  {
    const double y = sign * objective (kind, x, n);
    lock_guard<mutex> l (*m);
    calls->push_back (y);
    return y;
  }
};

struct Con
{
  double price;
  bool
  is_violated (const real[], natural) const
  {
    return false;
  }
  real
  cost (const real x[], natural) const
  {
    return price * fabs (x[0]);
  }
};

struct Line
{
  natural g;
  real y, lo, hi;
};

struct Tr
{
  natural m;
  shared_ptr<vector<Line> > lines = make_shared<vector<Line> > ();
  bool
  is_tracing (natural g) const
  {
    return m > 0 && g % m == 0;
  }
  void
  trace (natural g, real y, real a, real b) const
  {
    lines->push_back ({ g, y, a, b });
  }
};

struct Case
{
  int kind, n, mu, lambda, modulus, seed;
  double goal, step, price;
  bool maximum;
};

struct Gen
{
  unsigned g;
  bool optimized, underflow;
  V x, d, C, z;
  double s, y;
  vector<double> calls;
};

static Gen
result (const Case &k, natural stop, natural trace, vector<Line> *lines = nullptr)
{
  Optimizer::Builder b;
  b.with_problem_dimension (natural (k.n)).with_parent_number (natural (k.mu)).with_population_size (natural (k.lambda)).with_covariance_update_modulus (natural (k.modulus)).with_accuracy_goal (k.goal).with_random_seed (100 + k.seed).with_stop_generation (stop);
  const Optimizer o = b.build ();
  F f{ k.kind, k.maximum ? -1.0 : 1.0 };
  Tr tr{ trace };
  const valarray<real> x (0.5, k.n), d (1.0, k.n);
  const Con con{ k.price };
  const Optimizer::Result r = k.maximum ? o.maximize (f, x, d, k.step, con, tr) : o.minimize (f, x, d, k.step, con, tr);
  Gen t;
  auto copy = [] (const valarray<real> &v) { return V (begin (v), end (v)); };
  t.g = unsigned (r.get_generation_number ());
  t.optimized = r.is_optimized ();
  t.underflow = r.is_underflow ();
  t.x = copy (r.get_parameter_values ());
  t.d = copy (r.get_local_step_sizes ());
  t.C = copy (r.get_covariance_matrix ());
  t.z = copy (r.get_parameter_uncertainties ());
  t.s = r.get_global_step_size ();
  t.y = r.get_fitness ();
  t.calls = *f.calls;
  if (lines)
    *lines = *tr.lines;
  return t;
}

static string
text (const Case &k)
{
  return mc::cat ("objective=", k.kind, " n=", k.n, " parents=", k.mu, " population=", k.lambda, " modulus=", k.modulus, " seed=", 100 + k.seed, " goal=", k.goal, " step=", k.step, " price=", k.price, k.maximum ? " maximum" : "");
}

// 1 met, 0 not met, -1 within rounding
static int
goal_met (const Case &k, const Gen &t)
{
  int met = 1;
  for (int i = 0; i < k.n; ++i)
    {
      const double a = t.s * t.s * t.C[i * k.n + i], b = k.goal * t.x[i] * k.goal * t.x[i] + 100 * numeric_limits<double>::epsilon ();
      if (fabs (a - b) < 1e-9 * (fabs (a) + fabs (b)))
        {
          if (met == 1)
            met = -1;
        }
      else if (!(a < b))
        return 0;
    }
  return met;
}

struct Step
{
  Gen t;
  int met;   // accuracy goal
  int equal; // 1: all candidates equally fit, -1: some equal to the best, 0: the best is unique
};

// The generations of a search, one by one.
static const vector<Step> &
history (mc::Ctx &c, const Case &k, unsigned length)
{
  static map<string, vector<Step> > cache;
  auto i = cache.find (text (k));
  if (i != cache.end ())
    return i->second;
  if (cache.size () > 50)
    cache.clear ();
  vector<Step> v;
  for (unsigned g = 0; g <= length; ++g)
    {
      Step s;
      s.t = result (k, natural (g), 0);
      c.count ("transitions");
      s.met = 0;
      s.equal = 0;
      if (s.t.g == g && g > 0)
        {
          // the candidates of the last generation are the values before the last one (uncertainties are estimated
          // after it)
          const vector<double> &y = s.t.calls;
          const size_t to = size_t (g) * k.lambda;
          if (y.size () < to + 1)
            c.fail ("evaluations", mc::cat (y.size (), " evaluations in ", g, " generations: ", text (k)));
          if (k.price == 0)
            {
              const double best = k.maximum ? *max_element (y.begin () + (to - k.lambda), y.begin () + to) : *min_element (y.begin () + (to - k.lambda), y.begin () + to);
              const long same = count (y.begin () + (to - k.lambda), y.begin () + to, best);
              s.equal = same == k.lambda ? 1 : same > 1 ? -1 : 0;
              // as many as are better or equal than the parents' worst: at least the parents and one more must be equal
              if (s.equal == -1 && same <= k.mu)
                s.equal = 0;
            }
          else
            s.equal = -1;
          s.met = goal_met (k, s.t);
        }
      v.push_back (s);
      if (s.t.g < g)
        break; // ended before
    }
  return cache[text (k)] = v;
}

static void
run (mc::Ctx &c, const Case &k, unsigned length)
{
  const vector<Step> &h = history (c, k, length);
  const natural stop = natural (c.choose (int (length) + 1));
  const natural trace = natural (c.tier ? c.choose (4) : c.choose (2) * (1 + stop % 2));
  vector<Line> lines;
  const Gen r = result (k, stop, trace, &lines);
  c.count ("traces");
  const string what = mc::cat (text (k), " stop=", stop, " trace=", trace);
  if (r.g > stop)
    c.fail ("stop", mc::cat ("ended in generation ", r.g, ": ", what));
  if (r.g >= h.size ())
    c.fail ("end", mc::cat ("ended in generation ", r.g, ", but ", h.size () - 1, " with another stop generation: ", what));
  // not ended before the goal was met or after
  for (unsigned g = 1; g < r.g; ++g)
    {
      if (h[g].met == 1 && h[g].equal == 0)
        c.fail ("late", mc::cat ("the accuracy goal is met in generation ", g, ", but the search went on to ", r.g, ": ", what));
      if (h[g].equal == 1)
        c.fail ("late", mc::cat ("the candidates of generation ", g, " are equally fit, but the search went on to ", r.g, ": ", what));
      if (h[g].t.optimized || h[g].t.underflow)
        c.fail ("status", mc::cat ("status of generation ", g, " is final, but the search went on to ", r.g, ": ", what));
    }
  if (r.optimized && r.underflow)
    c.fail ("status", "optimized and underflow: " + what);
  if (r.g == 0 && (r.optimized || r.underflow))
    c.fail ("status", "final status without a generation: " + what);
  if (r.g < stop && !r.optimized && !r.underflow)
    c.fail ("early", mc::cat ("ended in generation ", r.g, " without a reason: ", what));
  if (r.g > 0)
    {
      const int met = goal_met (k, r);
      const int equal = h[r.g].equal;
      if (r.optimized && met == 0)
        c.fail ("optimized", mc::cat ("reported as optimized, but the accuracy goal is not met: s=", r.s, " C00=", r.C[0], " x0=", r.x[0], " ", what));
      if (!r.optimized && !r.underflow && met == 1 && equal == 0)
        c.fail ("optimized", mc::cat ("not reported as optimized, but the accuracy goal is met: ", what));
      if (r.underflow && equal == 0)
        c.fail ("underflow", mc::cat ("reported as underflow, but the candidates of generation ", r.g, " differ: ", what));
      if (!r.underflow && equal == 1)
        c.fail ("underflow", mc::cat ("not reported as underflow, but the candidates of generation ", r.g, " are equally fit: ", what));
    }
  const Gen &t = h[r.g].t;
  if (t.x != r.x || t.s != r.s || t.d != r.d || t.C != r.C || t.y != r.y)
    c.fail ("state", mc::cat ("the state after generation ", r.g, " depends on stop generation or trace: ", what));
  const double y = (k.maximum ? -1 : 1) * objective (k.kind, &r.x[0], k.n) + k.price * fabs (r.x[0]);
  if (!mc::near (r.y, y, 1e-15))
    c.fail ("fitness", mc::cat ("fitness ", r.y, ", but the objective is ", y, ": ", what));
  // the log
  size_t l = 0;
  for (unsigned g = 1; g <= r.g; ++g)
    {
      const bool last = g == r.g;
      const bool due = (trace > 0 && g % trace == 0 && !(last && r.underflow)) || (last && r.optimized);
      const bool optional = last && r.underflow && trace > 0 && g % trace == 0;
      if (!due && !(optional && l < lines.size ()))
        continue;
      if (l >= lines.size ())
        c.fail ("log", mc::cat ("no line for generation ", g, ": ", what));
      const Line &q = lines[l++];
      const Gen &u = h[g].t;
      const double lo = u.s * *min_element (u.d.begin (), u.d.end ()), hi = u.s * *max_element (u.d.begin (), u.d.end ());
      if (q.g != g || q.y != u.y || !mc::near (q.lo, lo, 1e-13) || !mc::near (q.hi, hi, 1e-13))
        c.fail ("log", mc::cat ("line ", q.g, " ", q.y, " ", q.lo, " ", q.hi, " instead of ", g, " ", u.y, " ", lo, " ", hi, ": ", what));
    }
  if (l != lines.size ())
    c.fail ("log", mc::cat ("surplus line for generation ", lines[l].g, ": ", what));
  uint64_t s = mc::hash_str (text (k));
  c.state (mc::mix (s, r.g));
  c.outcome (mc::mix (mc::mix (s, stop), trace));
  c.count (r.optimized ? "optimized" : r.underflow ? "underflow" : "stopped");
  if (c.want_sample ())
    c.sample (what + mc::cat (" -> generation ", r.g, r.optimized ? " optimized" : r.underflow ? " underflow" : " stopped"));
}

static const int kinds = 7;

int
mc_shards (int tier)
{
  return kinds * 3 * (tier ? 3 : 2) + kinds;
}

const char *
mc_rule ()
{
  return "all combinations of objective (smooth, plateaus, constant, flat floor, far from zero), dimension, parents, population, update modulus, seed, accuracy goal, initial step, constraint cost, minimum or maximum, with every stop generation up to a length and every trace modulus up to 3; judged by the states after each single generation; non-trivial: distinct settings";
}

void
mc_case (mc::Ctx &c)
{
  Case k;
  const bool large = c.shard () >= kinds * 3 * (c.tier ? 3 : 2);
  k.kind = c.shard () % kinds;
  k.n = 1 + c.shard () / kinds % 3;
  k.seed = c.shard () / kinds / 3;
  static const int sizes[][2] = { { 1, 2 }, { 2, 4 }, { 3, 5 }, { 1, 6 }, { 4, 8 } };
  const int p = c.choose (c.tier ? 5 : 3);
  k.mu = sizes[p][0];
  k.lambda = sizes[p][1];
  k.modulus = 1 + c.choose (2) * 2;
  const int v = c.choose (6);
  k.maximum = v == 4;
  k.price = v == 5 ? 0.25 : 0;
  k.step = v == 1 ? 4 : v == 2 ? 1e-9 : 0.5;
  k.goal = v == 3 ? 1e-8 : v == 0 ? 0.3 : v == 4 ? 0.05 : 0.01;
  if (large)
    {
      k.n = 7;
      k.goal = v == 0 ? 2 : k.goal * 30; // within reach
      k.step = v == 2 ? 1e-9 : 0.25;
    }
  run (c, k, c.tier ? 40 : v == 0 ? 20 : 12);
}
