// C18, programs: every failure ends in a documented exit code and a message.
#include "prog.hpp"
#include <map>

using namespace std;

static const string one = "{\nalpha d.dat 5000 5010 1\n25 0 0 0\n";

struct Definition
{
  const char *what;
  string text;
  int code; // 0: any documented one of a failure, otherwise this one
};

static vector<Definition>
definitions (int app)
{
  const string good = prog::model (app, "d.dat", 2, false), head = "{\nalpha d.dat 5000 5010 1\n25 0 0 0\n", line = prog::line (app, "a", 2);
  auto replaced = [&] (const string &a, const string &b) {
    string t = good;
    const size_t i = t.find (a);
    return i == string::npos ? string ("{") : t.replace (i, a.size (), b);
  };
  return {
    { "empty", "", 0 },
    { "only a comment", "% nothing\n", 0 },
    { "empty section", "{\n}\n", 0 },
    { "unterminated", good.substr (0, good.size () - 2), 0 },
    { "missing file", replaced ("d.dat", "missing.dat"), 0 },
    { "empty file", replaced ("d.dat", "empty.dat"), 0 },
    { "directory", replaced ("d.dat", "."), 0 },
    { "null device", replaced ("d.dat", "/dev/null"), 0 },
    { "corrupt file", replaced ("d.dat", "corrupt.dat"), 0 },
    { "truncated file", replaced ("d.dat", "truncated.dat"), 0 },
    { "no data in range", replaced ("5000 5010", "6000 6010"), 0 },
    { "wrong bounds", replaced ("5000", "x"), 0 },
    { "wrong number", replaced ("3335.5", "x"), 0 },
    { "missing number", replaced ("3335.5 0 0 0\n", ""), 0 },
    { "missing flag", replaced ("3335.5 0 0 0\n", "3335.5 0 0\n"), 0 },
    { "unknown reference", replaced ("3335.5 0 0 0\n", "3335.5 0 0 0 b\n"), 0 },
    { "self reference", replaced ("3335.5 0 0 0\n", "3335.5 0 0 0 a\n"), 0 },
    { "duplicate line", replaced ("}\n", line + "}\n"), 0 },
    { "duplicate section", good + good, 0 },
    { "cyclic reference", head + "a\n" + line.substr (2, line.find ('\n', 2) - 2) + " b\n" + line.substr (line.find ('\n', 2) + 1) + "b\n" + line.substr (2, line.find ('\n', 2) - 2) + " a\n" + line.substr (line.find ('\n', 2) + 1) + "}\n", 0 },
    { "singular", replaced ("5010 2 5008 5009", "5010 2000 5008 5009"), 0 },
    { "all masked", replaced ("5008 5009", "4000 6000"), 0 },
    { "singular in the course", replaced ("13 11.5 14.5", "40 1 60"), -1 },
    { "text", "Lorem ipsum { dolor } sit amet\n", 0 },
    { "bytes", string ("\x00\xff{\x01}\n\x00", 7), 0 },
  };
}

static mc::Run
base (int app, const vector<string> &args, const string &in)
{
  static bool made = false;
  const string dir = mc::scratch ();
  if (!made)
    {
      prog::write (dir + "/d.dat", prog::spectrum (25, 0.4, 0.6));
      prog::write (dir + "/empty.dat", "");
      prog::write (dir + "/corrupt.dat", "5000 1 1\n5001 x 1\n5002 1 1\n");
      prog::write (dir + "/truncated.dat", "5000 1 1\n5001 1 1\n5002");
      made = true;
    }
  mc::Run r = prog::run (app, args, in, dir);
  r.aspace = 2l << 30;
  return r;
}

static string
describe (int app, const vector<string> &args)
{
  string s = prog::apps[app].name;
  for (auto &a : args)
    s += " '" + a + "'";
  return s;
}

// want: -1: anything documented, 0: a failure, otherwise this code
static void
judge (mc::Ctx &c, const mc::Proc &p, int want, const string &what)
{
  const int k = p.code ();
  if (k == 999)
    c.fail ("hang", what + ": does not end");
  if (k > 255)
    c.fail ("crash", mc::cat (what, ": ended by signal ", k - 256, "\n", p.err));
  const bool failure = k == 8 || k == 16 || k == 64;
  if (!failure && k != 0 && k != 1 && k != 2)
    c.fail ("code", mc::cat (what, ": exit code ", k, "\n", p.err));
  if (want == 0 && !failure)
    c.fail ("accepted", mc::cat (what, ": exit code ", k));
  if (want > 0 && k != want)
    c.fail ("code", mc::cat (what, ": exit code ", k, " instead of ", want, "\n", p.err));
  if (failure && p.err.find_first_not_of (" \n\t") == string::npos)
    c.fail ("message", mc::cat (what, ": exit code ", k, " without a message"));
  if (k <= 2 && p.out.find ("<message>") == string::npos)
    c.fail ("message", mc::cat (what, ": exit code ", k, " without a message in the result"));
  c.count (mc::cat ("exit code ", k).c_str ());
}

static const vector<string> good = { "1", "2", "6", "0.5", "1", "30", "1" };

static void
arguments (mc::Ctx &c, int app)
{
  // 2: certainly wrong, 1: unspecified
  struct Value
  {
    string s;
    int natural, real;
  };
  static const vector<Value> values = {
    { "x", 2, 2 },  { "", 2, 2 },       { "--help", 2, 2 }, { "e5", 2, 2 },   { "%s%n%s", 2, 2 },
    { "0", 0, 0 },  { "3", 0, 0 },      { "1.5", 1, 0 },    { "-1", 1, 0 },   { "4294967295", 1, 0 },
    { "nan", 2, 2 }, { "1e-300", 1, 0 }, { " 4", 1, 1 },     { "2x", 1, 1 },   { "99999999999999999999999999", 1, 1 },
    { "0x2", 1, 1 }, { "+2", 1, 1 },
  };
  vector<string> args = good;
  const int n = int (args.size ());
  const int i = c.choose (n), j = c.choose (n);
  const Value u = c.pick (values), v = i == j ? u : c.pick (values);
  args[i] = u.s;
  args[j] = v.s;
  // steps much larger than the bounds are not explored: sampling takes as long as it needs
  if (args[3] == "4294967295" || args[3][0] == '9')
    return;
  const string what = describe (app, args);
  auto kind = [&] (int at, const Value &x) { return at == 3 || at == 4 ? x.real : x.natural; };
  int worst = max (kind (i, u), kind (j, v));
  int want = -1;
  if (worst == 2)
    want = 8;
  else if (worst == 0)
    {
      const int parents = args[1] == "0" ? 0 : stoi (args[1]), population = stoi (args[2]);
      want = parents == 0 || population <= parents ? 8 : -1;
    }
  mc::Run r = base (app, args, prog::model (app, "d.dat", 2));
  r.limit = 60;
  const mc::Proc p = mc::run (r);
  c.outcome (mc::hash_str (what));
  if (p.hung && worst == 1)
    return; // numbers of generations and parents without bound
  judge (c, p, want, what);
}

static void
counts (mc::Ctx &c, int app)
{
  const int n = c.choose (12);
  vector<string> args;
  for (int i = 0; i < n; ++i)
    args.push_back (i < 7 ? good[i] : "1");
  const bool input = c.flip ();
  const string what = describe (app, args);
  const mc::Proc p = mc::run (base (app, args, input ? prog::model (app, "d.dat", 2) : ""));
  c.outcome (mc::hash_str (what));
  if (n == 0)
    {
      if (p.code () != 0 || p.out.find ("usage") == string::npos)
        c.fail ("usage", mc::cat (what, ": exit code ", p.code (), " or no usage message"));
      return;
    }
  judge (c, p, n == 7 ? (input ? -1 : 0) : 8, what);
}

static void
models (mc::Ctx &c, int app)
{
  const auto all = definitions (app);
  const Definition d = c.pick (all);
  const string stop = c.pick<string> ({ "0", "1", "30" });
  vector<string> args = good;
  args[5] = stop;
  const string what = describe (app, args) + ", definition " + d.what;
  const mc::Proc p = mc::run (base (app, args, d.text));
  c.outcome (mc::hash_str (what));
  judge (c, p, d.code, what);
  if (c.want_sample ())
    c.sample (what + mc::cat (": exit code ", p.code ()));
}

static void
inputs (mc::Ctx &c, int app)
{
  const int what = c.choose (3);
  mc::Run r = base (app, good, "");
  string cmd = "exec '" + r.argv[0] + "'";
  for (auto &a : good)
    cmd += " '" + a + "'";
  cmd += what == 0 ? " <&-" : what == 1 ? " < ." : " < /dev/null";
  r.argv = { "/bin/sh", "-c", cmd };
  const mc::Proc p = mc::run (r);
  c.outcome (mc::mix (app, what));
  judge (c, p, 0, describe (app, good) + (what == 0 ? " with closed input" : what == 1 ? " reading a directory" : " reading nothing"));
}

struct Counts
{
  long threads, decompositions;
  mc::Proc plain;
};

static const Counts &
counts_of (mc::Ctx &c, int app, const vector<string> &args, const string &text)
{
  static map<string, Counts> all;
  const string key = describe (app, args);
  if (all.count (key))
    return all[key];
  Counts k;
  mc::Run r = base (app, args, text);
  r.env.push_back ("LD_PRELOAD=" + prog::path ("shim.so"));
  r.env.push_back ("SHIM_COUNT=" + mc::scratch () + "/count");
  k.plain = mc::run (r);
  istringstream is (prog::read (mc::scratch () + "/count"));
  if (!(is >> k.threads >> k.decompositions))
    c.fail ("harness", "the preloaded library does not work: " + k.plain.err);
  return all[key] = k;
}

static const int slices = 8;

static void
faults (mc::Ctx &c, int app, int slice)
{
  // few generations that converge, so that uncertainties are estimated
  const vector<string> args = { "1", "2", "5", "0.5", "20", "3", "1" };
  const string text = prog::model (app, "d.dat", 2);
  const Counts &k = counts_of (c, app, args, text);
  if (k.plain.code () > 2)
    c.fail ("harness", mc::cat (describe (app, args), ": exit code ", k.plain.code (), k.plain.err));
  const int mode = c.choose (2);
  const long n = mode == 0 ? k.threads : k.decompositions;
  const long m = (n - slice + slices - 1) / slices;
  if (m <= 0)
    return;
  const long at = slice + slices * c.choose (int (m));
  mc::Run r = base (app, args, text);
  r.env.push_back ("LD_PRELOAD=" + prog::path ("shim.so"));
  string what = describe (app, args);
  int want = -1;
  if (mode == 0)
    {
      r.env.push_back (mc::cat ("SHIM_THREAD=", at));
      what += mc::cat (", thread creation ", at, " fails");
      want = 16;
    }
  else
    {
      // a solver that fails, or an exception of a certain kind raised in the course of the search
      static const vector<pair<int, int> > kinds = { { 3, 16 }, { -3, 8 }, { 1001, 64 }, { 1002, 64 }, { 1003, 8 }, { 1004, 16 }, { 1005, 64 }, { 1006, 16 } };
      const auto kind = c.pick (kinds);
      r.env.push_back (mc::cat ("SHIM_LAPACK=", at, ",", kind.first));
      what += mc::cat (", decomposition ", at, " fails with ", kind.first);
      want = kind.second;
    }
  const mc::Proc p = mc::run (r);
  c.outcome (mc::hash_str (what));
  // carrying on without what failed is fine, if the result is the same
  if (mode != 1 && p.code () == k.plain.code () && p.out == k.plain.out)
    {
      c.count ("carried on");
      return;
    }
  judge (c, p, want, what);
}

int
mc_shards (int)
{
  return 4 * (slices + 3);
}

const char *
mc_rule ()
{
  return "programs with every pair of arguments replaced from a menu, every number of arguments, a menu of wrong definitions and inputs; every thread creation and decomposition of a run fails; non-trivial: distinct cases";
}

double
mc_time_limit ()
{
  return 90;
}

void
mc_case (mc::Ctx &c)
{
  const int app = c.shard () % 4, k = c.shard () / 4;
  if (k < slices)
    return faults (c, app, k);
  if (k == slices)
    return arguments (c, app);
  if (k == slices + 1)
    return counts (c, app);
  if (c.flip ())
    models (c, app);
  else
    inputs (c, app);
}
