// C18: errors raised while an optimizer works reach its caller.
// Every point of evaluation, every trial point of the uncertainty estimate, every use of the constraint and of the
// tracer, every thread creation and every decomposition of a search fails once.
#include "core/optimizer.h"
#include "lapack_wrap.hpp"
#include "mc.hpp"
#include <algorithm>
#include <atomic>
#include <memory>
#include <mutex>
#include <map>
#include <set>
#include <stdexcept>
#include <system_error>
#include <typeinfo>

using namespace std;
using especia::natural;
using especia::Optimizer;
using especia::real;

extern long pool_created, pool_fail_at;

typedef vector<double> V;

struct Custom
{
  int a;
  string b;
};

struct Derived : runtime_error
{
  int a;
  Derived (int a) : runtime_error ("derived"), a (a) {}
};

static const int kinds = 12;

static void
raise (int kind, int id)
{
  switch (kind)
    {
    case 0:
      throw runtime_error ("r" + to_string (id));
    case 1:
      throw logic_error ("l" + to_string (id));
    case 2:
      throw invalid_argument ("i" + to_string (id));
    case 3:
      throw out_of_range ("o" + to_string (id));
    case 4:
      throw overflow_error ("v" + to_string (id));
    case 5:
      throw bad_alloc ();
    case 6:
      throw Custom{ id, "custom" };
    case 7:
      throw 100 + id;
    case 8:
      throw Derived (id);
    case 9:
      throw system_error (make_error_code (errc::resource_unavailable_try_again), "s" + to_string (id));
    case 10:
      throw ios_base::failure ("f" + to_string (id));
    default:
      throw "text";
    }
}

// Describes the error being handled.
static string
caught (int kind)
{
  try
    {
      throw;
    }
  catch (const Custom &e)
    {
      return kind == 6 ? "custom " + to_string (e.a) + e.b : "wrong type";
    }
  catch (int i)
    {
      return "int " + to_string (i);
    }
  catch (const char *t)
    {
      return string ("text ") + t;
    }
  catch (const Derived &e)
    {
      return string (typeid (e).name ()) + " " + e.what () + to_string (e.a);
    }
  catch (const system_error &e)
    {
      return string (typeid (e).name ()) + " " + e.what () + to_string (e.code ().value ());
    }
  catch (const exception &e)
    {
      return string (typeid (e).name ()) + " " + e.what ();
    }
  catch (...)
    {
      return "unknown";
    }
}

static string
expected (int kind, int id)
{
  try
    {
      raise (kind, id);
    }
  catch (...)
    {
      return caught (kind);
    }
  return "";
}

struct Plan
{
  int kind = -1;
  V at, also;            // throw at these points
  bool cost = false;     // in the constraint instead of the function
  long violated = -1;    // the constraint fails in this call
  long traced = -1;      // the tracer fails in this call
  mutable mutex m;
  mutable set<V> points;
  mutable atomic<long> active{ 0 }, calls{ 0 }, checks{ 0 }, traces{ 0 };

  void
  visit (const real x[], natural n, bool here) const
  {
    const V v (x, x + n);
    if (here && kind >= 0)
      {
        if (v == at)
          raise (kind, 1);
        if (v == also)
          raise (kind, 2);
      }
    if (kind < 0)
      {
        lock_guard<mutex> l (m);
        points.insert (v);
      }
  }
};

struct Active
{
  const Plan &p;
  Active (const Plan &p) : p (p) { ++p.active; }
  ~Active () { --p.active; }
};

struct F
{
  const Plan *p;
  double sign;
  real
  operator() (const real x[], natural n) const
  {
    Active a (*p);
    ++p->calls;
    p->visit (x, n, !p->cost);
    double s = 0;
    for (natural i = 0; i < n; ++i)
      s += (1 + i) * (x[i] - 1) * (x[i] - 1);
    return sign * s;
  }
};

struct Con
{
  const Plan *p;
  bool
  is_violated (const real x[], natural) const
  {
    if (p->checks++ == p->violated)
      raise (p->kind, 1);
    return x[0] > 4;
  }
  real
  cost (const real x[], natural n) const
  {
    Active a (*p);
    p->visit (x, n, p->cost);
    return 0;
  }
};

struct Tr
{
  const Plan *p;
  bool
  is_tracing (natural) const
  {
    return true;
  }
  void
  trace (natural, real, real, real) const
  {
    if (p->traces++ == p->traced)
      raise (p->kind, 1);
  }
};

struct Setting
{
  int n, mu, lambda, seed;
  bool maximum;
};

static string
search (const Setting &k, const Plan &p)
{
  Optimizer::Builder b;
  b.with_problem_dimension (natural (k.n)).with_parent_number (natural (k.mu)).with_population_size (natural (k.lambda)).with_accuracy_goal (0.3).with_random_seed (k.seed).with_stop_generation (60);
  const Optimizer o = b.build ();
  const F f{ &p, k.maximum ? -1.0 : 1.0 };
  const Con con{ &p };
  const Tr tr{ &p };
  const valarray<real> x (0.5, k.n), d (1.0, k.n);
  const Optimizer::Result r = k.maximum ? o.maximize (f, x, d, 1.0, con, tr) : o.minimize (f, x, d, 1.0, con, tr);
  string s = mc::cat (r.get_generation_number (), " ", r.get_fitness (), " ", r.is_optimized (), r.is_underflow (), " ");
  for (natural i = 0; i < natural (k.n); ++i)
    s += mc::cat (r.get_parameter_values ()[i], " ", r.get_parameter_uncertainties ()[i], " ");
  return s;
}

static const int settings = 6;

static Setting
setting (int i, int tier)
{
  static const Setting s[] = { { 1, 2, 4, 11, false }, { 2, 2, 5, 12, true }, { 3, 3, 7, 13, false }, { 2, 1, 3, 14, false }, { 4, 4, 9, 15, true }, { 2, 6, 12, 16, false } };
  (void)tier;
  return s[i];
}

int
mc_shards (int)
{
  return settings * 5;
}

const char *
mc_rule ()
{
  return "for each of several searches: every point evaluated (in the search and in the uncertainty estimate) raises each of twelve kinds of errors in the function or the constraint, every pair of points, every call of the constraint and tracer, every thread creation and every decomposition fails; non-trivial: distinct faults";
}

double
mc_time_limit ()
{
  return 60;
}

struct Base
{
  string result;
  vector<V> points;
  long checks, traces, threads, decompositions, calls;
};

static const Base &
base (mc::Ctx &c, int i)
{
  static map<int, Base> all;
  if (all.count (i))
    return all[i];
  Plan p;
  pool_created = 0;
  pool_fail_at = -1;
  lapackw::calls = 0;
  lapackw::fail_at = 0;
  Base b;
  b.result = search (setting (i, 0), p);
  b.points.assign (p.points.begin (), p.points.end ());
  b.checks = p.checks;
  b.traces = p.traces;
  b.calls = p.calls;
  b.threads = pool_created;
  b.decompositions = lapackw::calls;
  if (b.result.find (" 10 ") == string::npos)
    c.fail ("harness", "the search does not converge: " + b.result);
  return all[i] = b;
}

void
mc_case (mc::Ctx &c)
{
  const int i = c.shard () % settings, mode = c.shard () / settings;
  const Setting k = setting (i, c.tier);
  const Base &b = base (c, i);
  Plan p;
  string what = mc::cat ("n=", k.n, " parents=", k.mu, " population=", k.lambda, k.maximum ? " maximum" : "", ", ");
  vector<string> want;
  bool fallback = false;
  pool_created = 0;
  pool_fail_at = -1;
  lapackw::calls = 0;
  lapackw::fail_at = 0;
  if (mode == 0)
    {
      p.kind = c.choose (kinds);
      p.at = b.points[c.choose (int (b.points.size ()))];
      p.cost = c.flip ();
      what += mc::cat ("error of kind ", p.kind, " at ", p.at[0], "...", p.cost ? " in the constraint" : "");
      want = { expected (p.kind, 1) };
    }
  else if (mode == 1)
    {
      p.kind = c.pick<int> ({ 0, 6, 8 });
      const int n = int (b.points.size ());
      const int u = c.choose (n - 1);
      const int v = u + 1 + c.choose (n - u - 1);
      p.at = b.points[u];
      p.also = b.points[v];
      what += mc::cat ("errors at ", p.at[0], "... and ", p.also[0], "...");
      want = { expected (p.kind, 1), expected (p.kind, 2) };
    }
  else if (mode == 2)
    {
      p.kind = c.choose (kinds);
      if (c.flip ())
        p.violated = c.choose (int (min (b.checks, 200l)));
      else
        p.traced = c.choose (int (b.traces));
      what += mc::cat ("error of kind ", p.kind, p.traced < 0 ? " in test " : " in trace ", max (p.violated, p.traced));
      want = { expected (p.kind, 1) };
    }
  else if (mode == 3)
    {
      if (b.threads == 0)
        return;
      pool_fail_at = c.choose (int (b.threads));
      what += mc::cat ("thread creation ", pool_fail_at, " fails");
      try
        {
          throw system_error (error_code (11, generic_category ()));
        }
      catch (const system_error &e)
        {
          want = { "system_error 11" };
        }
      fallback = true;
    }
  else
    {
      if (b.decompositions == 0)
        return;
      lapackw::fail_at = 1 + c.choose (int (b.decompositions));
      lapackw::fail_info = c.pick<int> ({ 1, 2, 1000, -1, -5 });
      lapackw::fail_done = lapackw::fail_info > 0 ? c.choose (3) : 0;
      what += mc::cat ("decomposition ", lapackw::fail_at, " fails with ", lapackw::fail_info);
      want = { lapackw::fail_info > 0 ? "runtime_error" : "invalid_argument" };
    }
  string got;
  bool ended = false;
  try
    {
      got = search (k, p);
      ended = true;
    }
  catch (...)
    {
      if (mode == 3)
        {
          try
            {
              throw;
            }
          catch (const system_error &e)
            {
              got = "system_error " + to_string (e.code ().value ());
            }
          catch (...)
            {
              got = caught (p.kind);
            }
        }
      else if (mode == 4)
        {
          try
            {
              throw;
            }
          catch (const invalid_argument &e)
            {
              got = "invalid_argument";
            }
          catch (const runtime_error &e)
            {
              got = "runtime_error";
            }
          catch (...)
            {
              got = caught (p.kind);
            }
        }
      else
        got = caught (p.kind);
    }
  if (p.active != 0)
    c.fail ("evaluating", what + ": evaluations go on when the error reaches the caller");
  c.outcome (mc::hash_str (what));
  if (ended)
    {
      if (fallback && got == b.result)
        {
          c.count ("fallback");
          return;
        }
      c.fail ("lost", what + ": the search ended as if nothing had happened: " + got);
    }
  if (find (want.begin (), want.end (), got) == want.end ())
    c.fail ("changed", what + ": the caller got '" + got + "' instead of '" + want[0] + "'");
  // whatever has happened, the next search is right
  if (mode != 1 && p.kind % 3 != 2)
    {
      pool_fail_at = -1;
      lapackw::fail_at = 0;
      Plan q;
      if (search (k, q) != b.result)
        c.fail ("next", what + ": the next search differs");
      c.count ("next searches");
    }
  c.count ("errors that reached the caller");
  if (c.want_sample ())
    c.sample (what);
}
