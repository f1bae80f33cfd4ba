// C01: every interleaving of the concurrent evaluations is free of races and gives the result of sequential evaluation.
// Compiled with access instrumentation and run under the controlled scheduler (lib/sched.cpp).
#include "core/model.h"
#include "core/optimizer.h"
#include "core/profiles.h"
#include "core/readline.h"
#include "sched.hpp"
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>

using namespace std;
using namespace especia;

// Evaluations as seen by the harness: the argument vectors and how often each was evaluated.
static map<vector<double>, int> evals;
static bool active_run = false, late = false;

static void
record (const double x[], size_t n)
{
  sched::Quiet q;
  if (!active_run)
    late = true;
  ++evals[vector<double> (x, x + n)];
}

// A model of any line type.
struct M
{
  std::function<real (const real[], natural)> cost;
  std::function<bool (const real[], natural)> violated;
  valarray<real> x, d;
};

struct Failure : runtime_error
{
  Failure () : runtime_error ("failure") {}
};

// The points at which an evaluation raises an error.
static set<vector<double> > faulty;

// Pure objective functions.
struct Objective
{
  int kind;
  const valarray<real> *centre;
  const M *model;
  real
  operator() (const real x[], natural n) const
  {
    record (x, n);
    bool fail = false;
    {
      sched::Quiet q;
      fail = !faulty.empty () && faulty.count (vector<double> (x, x + n));
    }
    if (fail)
      throw Failure ();
    if (model)
      return model->cost (x, n);
    real s = 0.0;
    for (natural i = 0; i < n; ++i)
      {
        real t = x[i] - (*centre)[i];
        s += (i + 1) * t * t;
      }
    if (kind == 3) // plateaus: many candidates are equally fit
      s = floor (0.5 * s);
    if (kind == 1)
      s = s + 0.25 * sin (3.0 * x[0]);
    return s;
  }
};

struct Model_Bounds
{
  const M *model;
  bool
  is_violated (const real x[], natural n) const
  {
    return model->violated (x, n);
  }
  real
  cost (const real x[], natural n) const
  {
    return 0.0;
  }
};

struct Bounds
{
  double price = 0.125;
  bool
  is_violated (const real x[], natural n) const
  {
    for (natural i = 0; i < n; ++i)
      if (x[i] < -3.0 || x[i] > 3.0)
        return true;
    return false;
  }
  real
  cost (const real x[], natural n) const
  {
    return price * x[0] * x[0];
  }
};

struct Trace
{
  bool on;
  mutable vector<double> log;
  bool
  is_tracing (natural g) const
  {
    return on;
  }
  void
  trace (natural g, real y, real a, real b) const
  {
    sched::Quiet q;
    log.push_back (g);
    log.push_back (y);
    log.push_back (a);
    log.push_back (b);
  }
};

struct Config
{
  int kind;
  natural n, parents, population, generations;
  double accuracy; // huge: converges at once and estimates uncertainties
  bool trace, maximize;
  unsigned faults = 0; // the points, in lexical order, at which errors are raised
};

static const vector<Config> configs = {
  { 0, 1, 1, 2, 1, 1e-6, false, false },
  { 0, 2, 1, 3, 1, 1e-6, false, false },
  { 1, 2, 2, 4, 1, 1e-6, false, true },
  { 0, 2, 2, 5, 1, 1e-6, true, false },
  { 1, 1, 1, 2, 2, 1e-6, false, false },
  { 0, 2, 1, 3, 2, 1e-6, true, false },
  { 1, 2, 2, 4, 2, 1e-6, false, false },
  { 0, 1, 1, 2, 1, 1e9, false, false },
  { 1, 2, 1, 2, 1, 1e9, false, false },
  { 0, 2, 1, 3, 1, 1e9, true, false },
  { 2, 3, 1, 3, 1, 1e-6, false, false },
  { 2, 3, 1, 2, 1, 1e9, false, false },
  { 3, 2, 2, 4, 1, 1e-6, false, false },
  { 3, 2, 3, 4, 1, 1e-6, false, false },
  { 3, 1, 2, 3, 1, 1e-6, false, true },
  { 0, 2, 1, 3, 1, 1e-6, false, false, 1 },
  { 0, 2, 1, 3, 1, 1e-6, false, false, 6 },
  { 0, 1, 1, 3, 1, 1e-6, false, false, 15 },
  { 0, 1, 1, 2, 2, 1e-6, true, false, 8 },
  { 1, 1, 1, 2, 1, 1e9, false, false, 1 },
  { 1, 1, 1, 2, 1, 1e9, false, false, 48 },
};
// Larger runs under fixed policies.
static const vector<Config> large = {
  { 0, 3, 5, 10, 3, 1e-6, false, false }, { 1, 2, 20, 40, 3, 1e-6, true, false },
  { 1, 3, 4, 9, 5, 1e9, false, false },   { 2, 3, 3, 6, 3, 1e-6, true, false },
  { 2, 3, 4, 8, 2, 1e9, false, false },   { 0, 2, 40, 97, 2, 1e-6, false, true },
  { 3, 2, 4, 9, 4, 1e-6, false, false },  { 3, 3, 20, 40, 3, 1e-6, true, false },
  { 1, 1, 1, 2, 12, 1e-6, false, false }, { 2, 3, 10, 33, 2, 1e-6, false, false },
  { 4, 3, 3, 6, 3, 1e-6, true, false },   { 4, 3, 4, 8, 2, 1e9, false, false },
  { 5, 3, 3, 6, 3, 1e-6, true, false },   { 5, 3, 4, 8, 2, 1e9, false, false },
  { 6, 3, 3, 6, 3, 1e-6, true, false },   { 6, 3, 4, 8, 2, 1e9, false, false },
  { 0, 2, 10, 33, 2, 1e-6, false, false, 0x11 },
  { 1, 3, 4, 9, 5, 1e9, false, false, 0xffffff00 },
  { 2, 3, 4, 8, 2, 1e9, false, false, 0x4000 },
};

// A fresh model for every run, as in a program: state built up lazily must be safe, too.
template <class Function>
static unique_ptr<M>
parse (const string &text)
{
  istringstream is (text);
  ostringstream os;
  auto model = make_shared<Model<Function> > (Model<Function>::parse (is, os));
  auto con = make_shared<decltype (model->get_constraint ())> (model->get_constraint ());
  unique_ptr<M> m (new M);
  m->cost = [model] (const real x[], natural n) { return (*model) (x, n); };
  m->violated = [con] (const real x[], natural n) { return con->is_violated (x, n); };
  m->x.resize (model->get_parameter_count ());
  m->x = model->get_initial_parameter_values ();
  m->d.resize (m->x.size ());
  m->d = model->get_initial_local_step_sizes ();
  return m;
}

static unique_ptr<M>
make_model (int kind)
{
  string fn = mc::scratch () + "/data.txt", fn2 = mc::scratch () + "/data2.txt";
  if (access (fn.c_str (), F_OK) != 0)
    {
      ofstream o (fn), o2 (fn2);
      for (int i = 0; i < 7; ++i)
        {
          o << 4000.0 + 0.1 * i << " " << 1.0 - 0.3 * (i == 3) << " 0.001\n";
          o2 << 4100.0 + 0.03 * i << " " << 1.0 - 0.2 * (i % 2) << " 0.002 " << (i != 2) << "\n";
        }
    }
  // the last parameters: damping, or sensitivity and variation of the fine-structure constant
  static const char *const last[] = { "1e8 0 0 0\n", "", "1e8 0 0 0\n", "1000 0 0 0\n5 0 0 0\n" };
  const int t = kind == 2 ? 0 : kind - 3;
  const string text = "{\nhead " + fn + " 3999 4001 2 4000.0 4000.1\n40 0 0 0\nline\n4000.3 0 0 0\n0.4 0 0 0\n0 0 0 0\n1 -9 9 1\n5 1 9 1\n12 11 12.8 1\n" + last[t] + "}\n{\nhead2 "
                      + fn2 + " 4099 4101 1\n1 2 3 1 head\nline2\n4100.1 0 0 0\n0.2 0 0 0\n0 0 0 0\n0 0 0 1 line\n4 0 0 0\n12 0 0 0\n" + last[t] + "}\n";
  return t == 0 ? parse<Intergalactic_Voigt<Extended_Pseudo_Voigt> > (text) : t == 1 ? parse<Intergalactic_Doppler> (text) : t == 2 ? parse<Intergalactic_Voigt<Pseudo_Voigt> > (text) : parse<Many_Multiplet> (text);
}

struct Run
{
  vector<double> result;
  map<vector<double>, int> evals;
  long points = 0, created = 0, accesses = 0;
  uint64_t trace = 0;
  bool failed = false;
};

static Run
run (mc::Ctx &c, const Config &k, sched::Policy p, long from = 0, long to = 1L << 60, int bound = 1 << 30)
{
  unique_ptr<M> model;
  natural n = k.n;
  valarray<real> x0 (0.0, n), d0 (1.0, n), centre (n);
  for (natural i = 0; i < n; ++i)
    centre[i] = 0.5 + i;
  if (k.kind == 2 || k.kind > 3)
    {
      model = make_model (k.kind);
      n = model->x.size ();
      if (n != k.n)
        c.fail ("model", mc::cat ("the model has ", n, " parameters"));
      x0.resize (n);
      x0 = model->x;
      d0.resize (n);
      d0 = model->d;
    }
  Objective f{ k.kind, &centre, model.get () };
  Trace tr{ k.trace, {} };
  Optimizer::Builder b;
  b.with_problem_dimension (n).with_parent_number (k.parents).with_population_size (k.population).with_stop_generation (k.generations).with_accuracy_goal (k.accuracy).with_random_seed (17);
  Run r;
  evals.clear ();
  {
    const Optimizer o = b.build ();
    sched::begin (c, p, from, to, bound);
    active_run = true;
    late = false;
    auto take = [&] (const Optimizer::Result &q) {
      sched::Quiet quiet;
      active_run = false;
      auto app = [&] (const valarray<real> &v) { r.result.insert (r.result.end (), std::begin (v), std::end (v)); };
      app (q.get_parameter_values ());
      app (q.get_local_step_sizes ());
      app (q.get_parameter_uncertainties ());
      app (q.get_covariance_matrix ());
      app (q.get_rotation_matrix ());
      app (q.get_distribution_cumulation_path ());
      app (q.get_step_size_cumulation_path ());
      r.result.push_back (q.get_fitness ());
      r.result.push_back (q.get_global_step_size ());
      r.result.push_back (q.get_generation_number ());
      r.result.push_back (q.is_optimized ());
      r.result.push_back (q.is_underflow ());
      r.result.insert (r.result.end (), tr.log.begin (), tr.log.end ());
    };
    try
      {
        if (model)
          take (o.minimize (f, x0, d0, 1.0, Model_Bounds{ model.get () }, tr));
        else if (k.maximize)
          take (o.maximize (f, x0, d0, 1.0, Bounds{ k.kind == 3 ? 0.0 : 0.125 }, tr));
        else
          take (o.minimize (f, x0, d0, 1.0, Bounds{ k.kind == 3 ? 0.0 : 0.125 }, tr));
      }
    catch (Failure &)
      {
        sched::Quiet quiet;
        active_run = false;
        r.failed = true;
      }
  }
  sched::end ();
  if (late)
    c.fail ("late", "an evaluation was still running after the optimizer returned");
  r.evals.swap (evals);
  r.points = sched::switch_points ();
  r.created = sched::threads_created ();
  r.accesses = sched::accesses ();
  r.trace = sched::trace_hash ();
  return r;
}

static string
text (const Config &k)
{
  return mc::cat ("objective ", k.kind, ", n=", k.n, ", parents=", k.parents, ", population=", k.population, ", generations=", k.generations, ", accuracy=", k.accuracy);
}

// Candidates are evaluated once; only centres of the distribution may be evaluated again (trace, final fitness).
static void
once (mc::Ctx &c, const Config &k, const Run &r)
{
  const bool conv = k.accuracy > 1.0;
  size_t distinct = r.evals.size (), repeated = 0, total = 0;
  for (auto &e : r.evals)
    {
      repeated += e.second > 1;
      total += e.second;
    }
  const size_t cand = size_t (k.population) * (conv ? 1 : k.generations);
  const size_t centres = (k.trace ? k.generations : conv ? 1 : 0) + 1;
  if (repeated > centres)
    c.fail ("once", mc::cat (repeated, " points were evaluated more than once: ", text (k)));
  if (distinct < cand)
    c.fail ("once", mc::cat ("only ", distinct, " distinct points were evaluated for ", cand, " candidates: ", text (k)));
  if (!conv && distinct > cand + centres)
    c.fail ("once", mc::cat (distinct, " distinct points were evaluated for ", cand, " candidates: ", text (k)));
  if (!conv && total > cand + 2 * centres)
    c.fail ("once", mc::cat (total, " evaluations for ", cand, " candidates: ", text (k)));
}

int
mc_shards (int tier)
{
  return int (configs.size ()) * 24 + int (large.size ()) * 2;
}

const char *
mc_rule ()
{
  return "all interleavings of thread creation, start, end and join (and of all synchronisation operations) inside a window of switch points, for small populations and every window; fixed policies (creator first, child first, last first, round robin) for large populations; every processor number; non-trivial: distinct interleavings";
}

double
mc_time_limit ()
{
  return 60;
}

void
mc_case (mc::Ctx &c)
{
  static map<int, Run> base;
  const int small = int (configs.size ()) * 24;
  const bool is_large = c.shard () >= small;
  const int ci = is_large ? (c.shard () - small) / 2 : c.shard () / 24;
  const int part = is_large ? (c.shard () - small) % 2 : c.shard () % 24;
  const Config &k = is_large ? large[ci] : configs[ci];
  const int key = is_large ? 1000 + ci : ci;
  if (!base.count (key))
    {
      sched::processors = 4;
      base[key] = run (c, k, sched::CHILD);
      once (c, k, base[key]);
    }
  const Run &b = base[key];
  Run r;
  struct Reset
  {
    ~Reset () { faulty.clear (); }
  } reset;
  int e = 0;
  for (auto &i : b.evals)
    {
      if ((k.faults >> min (e, 31)) & 1)
        faulty.insert (i.first);
      ++e;
    }
  if (k.faults && faulty.empty ())
    c.fail ("faults", "no such point: " + text (k));
  if (is_large)
    {
      static const sched::Policy ps[] = { sched::FIFO, sched::LIFO, sched::ROBIN, sched::CHILD };
      static const unsigned pr[] = { 1, 0, 2, 3, 8, 64 };
      sched::processors = pr[part * 3 + c.choose (3)];
      r = run (c, k, ps[c.choose (4)]);
    }
  else
    {
      // windows of switch points; without preemption bound inside the first part, bounded for long runs
      const long total = base[key].points + 8;
      const long width = k.kind == 2 || k.kind > 3 ? (c.tier ? 7 : 4) : (c.tier ? 12 : 8);
      // part 0..: windows with stride width/2, every window start up to the end of the run
      const long windows = max (1L, (total + width / 2 - 1) / (width / 2));
      if (part >= windows && part >= 1)
        {
          return;
        }
      // the parts share the windows
      const long own = (windows - part + 23) / 24;
      const long w = part + 24 * c.choose (int (own));
      static const unsigned pr[] = { 4, 1 };
      sched::processors = pr[c.choose (2)];
      // code with many more synchronisation operations: limit the executions of a window
      static map<pair<long, long>, long> used;
      const size_t depth = c.depth ();
      r = run (c, k, sched::EXPLORE, w * (width / 2), w * (width / 2) + width, 1 << 30);
      if (++used[{ c.shard () * 2 + sched::processors % 2, w }] > (c.tier ? 200000 : 12000))
        c.cut (depth);
    }
  c.count ("accesses checked", r.accesses);
  c.count ("threads", r.created);
  c.count ("transitions", r.points);
  c.count ("traces", 1);
  c.state (mc::mix (r.trace, c.shard () / 24 + sched::processors * 1000));
  c.outcome (mc::mix (r.trace, c.shard () / 24 + sched::processors * 1000));
  c.log (text (k) + mc::cat (", processors=", sched::processors, ", switch points=", r.points));
  if (c.want_sample ())
    c.sample (mc::cat (text (k), ": ", r.points, " switch points, ", r.created, " threads, ", r.accesses, " accesses checked"));
  if (!faulty.empty ())
    {
      if (!r.failed)
        c.fail ("error", "an error raised by an evaluation did not reach the caller: " + text (k));
      return;
    }
  if (r.failed)
    c.fail ("error", "an error was reported, but none was raised: " + text (k));
  once (c, k, r);
  if (r.result.size () != b.result.size ())
    c.fail ("result", "the result differs in size from that of sequential evaluation: " + text (k));
  for (size_t i = 0; i < r.result.size (); ++i)
    if (!mc::near (r.result[i], b.result[i], 0.0))
      c.fail ("result", mc::cat ("the result differs from that of sequential evaluation (component ", i, ": ", r.result[i], ", not ", b.result[i], "): ", text (k)));
  if (r.evals != b.evals)
    c.fail ("evaluations", "other points were evaluated than in sequential evaluation: " + text (k));
}
