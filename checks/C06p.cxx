// C06, programs: the log, the messages and the exit code agree with the computation.
#include "core/optimizer.h"
#include "core/profiles.h"
#include "core/model.h"
#include "prog.hpp"
#include "result.hpp"
#include <algorithm>
#include <memory>

using namespace std;
using especia::natural;
using especia::Optimizer;
using especia::real;

struct Line
{
  double g, y, lo, hi;
};

struct Tr
{
  natural m;
  shared_ptr<vector<Line> > lines = make_shared<vector<Line> > ();
  bool
  is_tracing (natural g) const
  {
    return m > 0 && g % m == 0;
  }
  void
  trace (natural g, real y, real a, real b) const
  {
    lines->push_back ({ double (g), y, a, b });
  }
};

struct Case
{
  unsigned long long seed;
  unsigned parents, population, stop, trace;
  double step, goal;
};

struct Res
{
  bool optimized, underflow;
  unsigned g;
  double y;
  vector<Line> lines;
  string table;
};

template <class Function>
static Res
compute (const Case &k, const string &text)
{
  istringstream is (text);
  ostringstream os;
  auto model = especia::Model<Function>::parse (is, os);
  Optimizer::Builder b;
  b.with_problem_dimension (model.get_parameter_count ()).with_parent_number (k.parents).with_population_size (k.population).with_accuracy_goal (k.goal).with_stop_generation (k.stop).with_random_seed (k.seed);
  const Optimizer o = b.build ();
  const Tr tr{ k.trace };
  const Optimizer::Result r = o.minimize (model, model.get_initial_parameter_values (), model.get_initial_local_step_sizes (), k.step, model.get_constraint (), tr);
  Res t{ r.is_optimized (), r.is_underflow (), unsigned (r.get_generation_number ()), r.get_fitness (), *tr.lines, "" };
  model.set (&r.get_parameter_values ()[0], &r.get_parameter_uncertainties ()[0]);
  ostringstream out;
  model.put (out);
  t.table = out.str ();
  return t;
}

int
mc_shards (int)
{
  return 4 * 4 + 4;
}

const char *
mc_rule ()
{
  return "all combinations of program, model, seed, parents, population, step, accuracy, stop generation and trace modulus of a finite menu; log lines, message, tables and exit code of the program compared with the library; non-trivial: distinct commands";
}

void
mc_case (mc::Ctx &c)
{
  const int app = c.shard () % 4, kind = c.shard () / 4 % 4;
  const bool long_run = c.shard () >= 16;
  const string dir = mc::scratch ();
  static bool made = false;
  if (!made)
    {
      prog::write (dir + "/d.dat", prog::spectrum (33, 0.3, 0.6));
      made = true;
    }
  // 3: nothing to optimize
  const string text = prog::model (app, "d.dat", kind == 3 ? 0 : kind == 2 ? 4 : 3, kind > 0);
  Case k;
  if (long_run)
    {
      // the generation number has up to four or five digits
      static const unsigned many[] = { 105, 1003, 10002 };
      k.stop = many[c.choose (c.tier ? 3 : 2)];
      k.goal = 0;
      k.seed = 1;
      k.step = c.flip () ? 0.25 : 1.5;
      k.parents = 2;
      k.population = 4;
      k.trace = c.pick<unsigned> ({ 1, 7, 100, 1000 });
    }
  else
    {
      static const unsigned long long seeds[] = { 1, 9600629759793949339ull, 0 };
      k.seed = seeds[c.choose (c.tier ? 3 : 2)];
      const int p = c.choose (2);
      k.parents = p ? 5 : 2;
      k.population = p ? 12 : 4;
      k.step = c.flip () ? 0.25 : 1.5;
      k.goal = c.flip () ? 1e-2 : 0.5;
      static const unsigned stops[] = { 0, 1, 7, 60, 200 };
      k.stop = stops[c.choose (c.tier ? 5 : 4)];
      static const unsigned traces[] = { 0, 1, 3 };
      k.trace = traces[c.choose (3)];
    }
  const vector<string> args = { to_string (k.seed), to_string (k.parents), to_string (k.population), mc::cat (k.step), mc::cat (k.goal), to_string (k.stop), to_string (k.trace) };
  string what = string (prog::apps[app].name) + " model " + to_string (kind);
  for (auto &a : args)
    what += " " + a;
  if (chdir (dir.c_str ()) != 0)
    return;
  Res t;
  int error = 0;
  try
  {
  switch (app)
    {
    case 0:
      t = compute<especia::Intergalactic_Doppler> (k, text);
      break;
    case 1:
      t = compute<especia::Intergalactic_Voigt<especia::Pseudo_Voigt> > (k, text);
      break;
    case 2:
      t = compute<especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt> > (k, text);
      break;
    default:
      t = compute<especia::Many_Multiplet> (k, text);
    }
  }
  catch (logic_error &)
    {
      error = 8;
    }
  catch (runtime_error &)
    {
      error = 16;
    }
  const mc::Proc r = mc::run (prog::run (app, args, text, dir));
  auto bad = [&] (const string &key, const string &m) { c.fail (key, m + ": " + what + "\n" + r.out.substr (0, 3000) + r.err); };
  if (error)
    {
      // a fit that ends in an error has no status
      c.count ("fits ending in an error");
      if (r.code () != error)
        bad ("exit code", mc::cat ("exit code ", r.code (), " instead of ", error));
      return;
    }
  const int code = t.optimized ? 0 : t.underflow ? 1 : 2;
  if (r.code () != code)
    bad ("exit code", mc::cat ("exit code ", r.code (), " instead of ", code));
  // the command
  string part;
  if (!result::part (r.out, "command", part))
    bad ("command", "no command");
  string command = " " + prog::path (prog::apps[app].name);
  for (auto &a : args)
    command += " " + a;
  if (part != command + "\n")
    bad ("command", "command is " + part);
  if (!result::part (r.out, "model", part) || part != text)
    bad ("model", "the model is not copied");
  // the log
  if (!result::part (r.out, "log", part))
    bad ("log", "no log");
  const auto rows = result::data (part);
  if (rows.size () != t.lines.size ())
    bad ("log", mc::cat (rows.size (), " lines instead of ", t.lines.size ()));
  for (size_t i = 0; i < rows.size (); ++i)
    {
      const Line &l = t.lines[i];
      if (rows[i].size () != 4 || rows[i][0] != l.g || !result::shown (rows[i][1], l.y, 4, true) || !result::shown (rows[i][2], l.lo, 4, true) || !result::shown (rows[i][3], l.hi, 4, true))
        bad ("log", mc::cat ("line ", i, " differs from ", l.g, " ", l.y, " ", l.lo, " ", l.hi));
    }
  // the message
  if (!result::part (r.out, "message", part))
    bad ("message", "no message");
  const bool success = part.find ("successful") != string::npos, stopped = part.find ("stopped at generation " + to_string (t.g) + "\n") != string::npos || part.find ("stopped at generation " + to_string (t.g) + " ") != string::npos, under = part.find ("underflow") != string::npos;
  if (success != t.optimized || under != t.underflow || (!t.optimized && !stopped))
    bad ("message", "message: " + part);
  // the tables
  const size_t at = r.out.rfind ("<data>");
  const string body = t.table.substr (t.table.rfind ("<data>"));
  const size_t end = body.find ("<address>");
  if (at == string::npos || r.out.compare (at, end, body, 0, end) != 0)
    bad ("tables", "data or tables differ from those of the library");
  c.outcome (mc::hash_str (what));
  c.state (mc::hash_str (r.out));
  c.count ("transitions", t.g);
  c.count ("traces");
  c.count (t.optimized ? "optimized" : t.underflow ? "underflow" : "stopped");
  if (c.want_sample ())
    c.sample (what);
}
