// C02: results depend on the inputs alone, whatever has happened in the process before.
// Every case runs in a process of its own: a history of runs, then the observed one.
#include "core/decompose.h"
#include "core/equations.h"
#include "core/integrator.h"
#include "core/model.h"
#include "core/optimizer.h"
#include "core/profiles.h"
#include "core/random.h"
#include "core/deviates.h"
#include "prog.hpp"
#include <atomic>
#include <clocale>
#include <malloc.h>
#include <map>
#include <memory>

using namespace std;
using especia::natural;
using especia::Optimizer;
using especia::real;

static ostringstream *shared; // a stream all runs of a process write to

static string
hex (double d)
{
  char b[40];
  uint64_t u;
  memcpy (&u, &d, sizeof u);
  snprintf (b, sizeof b, "%016llx ", (unsigned long long)(d != d ? 0 : u));
  return b;
}

static string
describe (const Optimizer::Result &r, size_t n)
{
  string s = to_string (r.get_generation_number ()) + " " + hex (r.get_fitness ()) + hex (r.get_global_step_size ()) + (r.is_optimized () ? "o" : "-") + (r.is_underflow () ? "u" : "-");
  for (size_t i = 0; i < n; ++i)
    s += hex (r.get_parameter_values ()[i]) + hex (r.get_parameter_uncertainties ()[i]) + hex (r.get_local_step_sizes ()[i]);
  for (size_t i = 0; i < n * n; ++i)
    s += hex (r.get_covariance_matrix ()[i]) + hex (r.get_rotation_matrix ()[i]);
  for (size_t i = 0; i < n; ++i)
    s += hex (r.get_distribution_cumulation_path ()[i]) + hex (r.get_step_size_cumulation_path ()[i]);
  return s;
}

struct Objective
{
  int kind;
  shared_ptr<atomic<int> > left = make_shared<atomic<int> > (1 << 30);
  real
  operator() (const real x[], natural n) const
  {
    if (--*left < 0)
      throw runtime_error ("objective");
    double s = 0;
    switch (kind)
      {
      case 0:
        for (natural i = 0; i < n; ++i)
          s += (1 + i) * (x[i] - 1) * (x[i] - 1);
        return s;
      case 1:
        for (natural i = 0; i + 1 < n; ++i)
          s += 100 * pow (x[i + 1] - x[i] * x[i], 2) + pow (1 - x[i], 2);
        return s;
      case 2:
        for (natural i = 0; i < n; ++i)
          s -= x[i] * x[i] * pow (10.0, double (i));
        return s;
      default:
        return 2.5;
      }
  }
};

struct Tr
{
  bool
  is_tracing (natural g) const
  {
    return g % 2 == 0;
  }
  void
  trace (natural g, real y, real a, real b) const
  {
    *shared << g << " " << hex (y) << hex (a) << hex (b) << "\n";
  }
};

static string
hunt (int kind, int n, unsigned seed, unsigned stop, bool maximum = false, int left = 1 << 30)
{
  Optimizer::Builder b;
  b.with_problem_dimension (natural (n)).with_parent_number (3).with_population_size (7).with_accuracy_goal (0.05).with_random_seed (seed).with_stop_generation (stop);
  const Optimizer o = b.build ();
  Objective f{ kind };
  *f.left = left;
  const valarray<real> x (0.5, n), d (1.0, n);
  const Optimizer::Result r = maximum ? o.maximize (f, x, d, 1.0, especia::No_Constraint<real> (), Tr ()) : o.minimize (f, x, d, 1.0, especia::No_Constraint<real> (), Tr ());
  return describe (r, n);
}

template <class Function>
static string
fit (int app, bool two, unsigned stop)
{
  istringstream is (prog::model (app, "d.dat", two ? 4 : 3, two));
  auto model = especia::Model<Function>::parse (is, *shared);
  Optimizer::Builder b;
  b.with_problem_dimension (model.get_parameter_count ()).with_parent_number (3).with_population_size (8).with_accuracy_goal (0.5).with_stop_generation (stop).with_random_seed (7 + app);
  const Optimizer o = b.build ();
  const Optimizer::Result r = o.minimize (model, model.get_initial_parameter_values (), model.get_initial_local_step_sizes (), 1.0, model.get_constraint (), Tr ());
  model.set (&r.get_parameter_values ()[0], &r.get_parameter_uncertainties ()[0]);
  model.put (*shared);
  return describe (r, model.get_parameter_count ());
}

static string
numerics ()
{
  string s;
  especia::Mt19937_64 u (12345);
  for (int i = 0; i < 400; ++i)
    s += hex (u ());
  especia::Normal_Deviate<especia::Mt19937_64> z (54321ull);
  for (int i = 0; i < 401; ++i)
    s += hex (z ());
  for (int k = 0; k < 3; ++k)
    for (natural n : { 2u, 5u, 3u })
      {
        vector<real> A (n * n), Z (n * n), w (n);
        for (natural j = 0; j < n; ++j)
          for (natural i = 0; i <= j; ++i)
            A[i + j * n] = i == j ? 2.0 + i : 1.0 / (1 + i + j);
        if (k == 0)
          especia::D_Decompose{ n }(&A[0], &Z[0], &w[0]);
        else if (k == 1)
          especia::R_Decompose{ n }(&A[0], &Z[0], &w[0]);
        else
          especia::X_Decompose{ n }(&A[0], &Z[0], &w[0]);
        for (natural i = 0; i < n; ++i)
          s += hex (w[i]) + hex (Z[i]);
      }
  especia::Integrator<real> I;
  s += hex (I.integrate ([] (real x) { return exp (-x * x); }, 0.0, 3.0, 1e-10)) + hex (I.integrate_positive_infinite ([] (real x) { return exp (-x); }, 1e-8));
  s += hex (especia::solve (especia::Equations::edlen66, 0.002, 0.002, 1e-8));
  return s;
}

static const int kinds = 15;
static bool german;

// One run. Errors are part of the result.
static string
run (int kind)
{
  shared->str ("");
  string s;
  try
    {
      switch (kind)
        {
        case 0:
          s = hunt (0, 3, 31, 100);
          break;
        case 1:
          s = hunt (1, 5, 32, 9);
          break;
        case 2:
          s = hunt (2, 2, 33, 100, true);
          break;
        case 3:
          s = hunt (0, 4, 34, 100, false, 40); // fails in the course
          break;
        case 4:
          s = hunt (3, 3, 35, 100); // underflow
          break;
        case 5:
          s = fit<especia::Intergalactic_Doppler> (0, false, 30);
          break;
        case 6:
          s = fit<especia::Intergalactic_Voigt<especia::Pseudo_Voigt> > (1, true, 5);
          break;
        case 7:
          s = fit<especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt> > (2, true, 4);
          break;
        case 8:
          s = fit<especia::Many_Multiplet> (3, false, 6);
          break;
        case 9:
          {
            // not a model
            istringstream is ("{\nalpha d.dat 5000 5010 1\n25 0 0 0\na\n1 2");
            especia::Model<especia::Intergalactic_Doppler>::parse (is, *shared);
            break;
          }
        case 10:
          s = numerics ();
          break;
        case 11:
          s = hunt (0, 1, 36, 100, false, 1 << 30); // one parameter
          break;
        case 12:
          s = fit<especia::Intergalactic_Doppler> (0, true, 3); // two sections
          break;
        case 13:
          // settings of the C library
          if (german)
            setlocale (LC_ALL, "de_DE.UTF-8");
          srand (17);
          rand ();
          srandom (18);
          *shared << hexfloat << setprecision (2) << setfill ('*') << setw (9);
          shared->flags (ios_base::fmtflags (ios_base::dec | ios_base::skipws));
          shared->fill (' ');
          shared->width (0);
          shared->precision (6);
          return "settings";
        default:
          {
            // memory used and given back with other contents
            vector<vector<double> > v;
            for (int i = 1; i < 400; ++i)
              v.push_back (vector<double> (i * 3, -1e300));
            return "memory";
          }
        }
    }
  catch (const exception &e)
    {
      s = string ("error ") + e.what ();
    }
  return s + "\n" + shared->str ();
}

// Runs a history in a fresh process and returns the results of the last run.
static string
in_process (const vector<int> &h, int perturb)
{
  int fd[2];
  if (pipe (fd) != 0)
    abort ();
  const pid_t p = fork ();
  if (p == 0)
    {
      close (fd[0]);
      alarm (30);
      mallopt (M_PERTURB, perturb);
      shared = new ostringstream;
      string s;
      for (int k : h)
        s = run (k);
      size_t o = 0;
      while (o < s.size ())
        {
          ssize_t r = write (fd[1], s.data () + o, s.size () - o);
          if (r <= 0)
            _exit (1);
          o += r;
        }
      _exit (0);
    }
  close (fd[1]);
  string s;
  char b[65536];
  ssize_t r;
  while ((r = read (fd[0], b, sizeof b)) > 0)
    s.append (b, r);
  close (fd[0]);
  int status;
  waitpid (p, &status, 0);
  return status == 0 ? s : mc::cat ("ended with status ", status);
}

int
mc_shards (int)
{
  return kinds * kinds;
}

const char *
mc_rule ()
{
  return "every history of up to three (thorough: four) runs of fifteen kinds (searches that finish, stop, fail, underflow, fits with all line types, parse errors, library functions, C library settings, memory use) before each observed run, with several memory contents; every case in a process of its own; non-trivial: distinct histories";
}

double
mc_time_limit ()
{
  return 60;
}

void
mc_case (mc::Ctx &c)
{
  static bool made = false;
  if (!made)
    {
      if (chdir (mc::scratch ().c_str ()) != 0)
        abort ();
      prog::write ("d.dat", prog::spectrum (25, 0.4, 0.6));
      made = true;
      const string locales = string (getenv ("VERIF_BUILD")) + "/locale";
      struct stat st;
      german = stat ((locales + "/de_DE.UTF-8").c_str (), &st) == 0;
      if (german)
        setenv ("LOCPATH", locales.c_str (), 1);
    }
  const int observed = c.shard () % kinds, first = c.shard () / kinds;
  if (observed >= 13)
    return;
  static map<int, string> fresh;
  if (!fresh.count (observed))
    fresh[observed] = in_process ({ observed }, 0);
  // the first run is that of the shard; the last two are of any kind or none
  vector<int> h = { first };
  for (int i = 0; i < (c.tier ? 3 : 2); ++i)
    {
      // the quick tier has half of the histories of three runs
      if (i == 1 && !c.tier && (first + observed) % 2)
        break;
      const int k = c.choose (kinds + 1);
      if (k == kinds)
        break;
      h.push_back (k);
    }
  const int perturb = h.size () > 1 ? (h.size () * 85 + first * 7) % 256 : c.pick<int> ({ 0, 1, 85, 170, 255 });
  h.push_back (observed);
  const string s = in_process (h, perturb);
  string what = "runs";
  for (int k : h)
    what += mc::cat (" ", k);
  what += mc::cat (", memory ", perturb);
  c.outcome (mc::hash_str (what));
  c.count (german ? "with another locale" : "without another locale");
  if (s != fresh[observed])
    {
      size_t i = 0;
      while (i < s.size () && i < fresh[observed].size () && s[i] == fresh[observed][i])
        ++i;
      c.fail ("history", mc::cat ("run ", observed, " after ", what, ": '", s.substr (i, 80), "' instead of '", fresh[observed].substr (i, 80), "' at ", i));
    }
  if (c.want_sample ())
    c.sample (what);
}
