// C02, programs: the same command and definition give the same bytes in every environment, and running again what a
// result file contains reproduces it.
#include "prog.hpp"
#include <map>
#include <sched.h>
#include <sys/personality.h>

using namespace std;

struct Variation
{
  const char *what;
  vector<string> env;
  string prefix; // of the command, run by the shell
};

static vector<Variation>
variations ()
{
  vector<Variation> v = {
    { "plain", {}, "" },
    { "memory 0x55", { "MALLOC_PERTURB_=85" }, "" },
    { "memory 0xff", { "MALLOC_PERTURB_=255" }, "" },
    { "memory 0x01", { "MALLOC_PERTURB_=1" }, "" },
    { "one arena", { "MALLOC_ARENA_MAX=1", "MALLOC_PERTURB_=170" }, "" },
    { "no cache", { "GLIBC_TUNABLES=glibc.malloc.tcache_count=0", "MALLOC_PERTURB_=129" }, "" },
    { "mapped memory", { "MALLOC_MMAP_THRESHOLD_=64", "MALLOC_TOP_PAD_=0" }, "" },
    { "German", { "LC_ALL=de_DE.UTF-8", "LANG=de_DE.UTF-8" }, "" },
    { "German numbers", { "LC_ALL=", "LC_NUMERIC=de_DE.UTF-8", "LANG=C" }, "" },
    { "unknown locale", { "LC_ALL=xx_YY.UTF-8" }, "" },
    { "one thread", { "OMP_NUM_THREADS=1", "OPENBLAS_NUM_THREADS=1", "OMP_DYNAMIC=true" }, "" },
    { "seven threads", { "OMP_NUM_THREADS=7", "OPENBLAS_NUM_THREADS=7" }, "" },
    { "one processor", {}, "taskset -c 0 " },
    { "two processors", {}, "taskset -c 0,1 " },
    { "time zone", { "TZ=Asia/Tokyo", "HOME=/tmp", "USER=someone", "TERM=dumb", "COLUMNS=20" }, "" },
    { "low priority", {}, "nice -n 15 " },
    { "fixed addresses", {}, "setarch -R " },
    { "small stack", {}, "ulimit -s 512; " },
    { "from a pipe", {}, "cat | " },
    { "byte by byte", {}, "dd bs=1 status=none | " },
    { "to a pipe", {}, "|" },
    { "other names", {}, ">" },
  };
  for (int n : { 1, 8, 100, 4095, 60000 })
    v.push_back ({ "large environment", { "FILLER=" + string (n, 'x') }, "" });
  return v;
}

static const vector<vector<string> > commands = {
  { "1", "2", "6", "1", "1", "12", "1" }, { "27", "4", "11", "0.5", "0.5", "40", "5" }, { "0", "2", "5", "1", "1E-3", "4", "0" }, { "9600629759793949339", "3", "9", "1.5", "2", "200", "0" },
};

static string
definition (int app, int kind)
{
  switch (kind)
    {
    case 0:
      return prog::model (app, "d.dat", 3, false);
    case 1:
      return prog::model (app, "d.dat", 4, true);
    default: // comments, blank lines, layout and no final newline
      {
        string t = "\n% comment { } <log>\n\n   " + prog::model (app, "d.dat", 2, false) + "\n\t% the end &plusmn; <b>\n\n  \n% no newline";
        return t;
      }
    }
}

static string
files ()
{
  static string d;
  if (d.empty ())
    {
      d = mc::scratch () + "/w";
      mkdir (d.c_str (), 0755);
      prog::write (d + "/d.dat", prog::spectrum (25, 0.4, 0.6));
      for (const char *n : { "ecom", "emod", "elog" })
        if (symlink (prog::path (n).c_str (), (d + "/" + n).c_str ()) != 0)
          abort ();
      const char *r = getenv ("ESPECIA_REPO");
      prog::write (d + "/erun", prog::read (string (r ? r : "/repo") + "/src/main/scripts/erun"));
    }
  return d;
}

static mc::Proc
plain (int app, int kind, int command)
{
  return mc::run (prog::run (app, commands[command], definition (app, kind), files ()));
}

int
mc_shards (int)
{
  return 4 * 3 * 4;
}

const char *
mc_rule ()
{
  return "for each program, definition and command: all pairs of environments (memory contents, locales, threads, processors, environment size, pipes) give the same bytes and exit code as the plain one; result files run again once and twice by the real script; non-trivial: distinct combinations";
}

double
mc_time_limit ()
{
  return 60;
}

void
mc_case (mc::Ctx &c)
{
  int s = c.shard ();
  const int app = s % 4, kind = s / 4 % 3, command = s / 12;
  const string dir = files ();
  static map<int, mc::Proc> base;
  if (!base.count (s))
    {
      base[s] = plain (app, kind, command);
      const mc::Proc &b = base[s];
      // a fit that ends in an error is one to be reproduced, too
      if (b.code () > 2)
        c.count ("failed runs");
      if ((b.code () > 2 && b.code () != 16) || b.out.find ("</html>") == string::npos)
        c.fail ("plain", mc::cat (prog::apps[app].name, ": exit code ", b.code (), "\n", b.err));
    }
  const mc::Proc &b = base[s];
  string what = prog::apps[app].name;
  for (auto &a : commands[command])
    what += " " + a;
  what += mc::cat (", definition ", kind);
  const bool again = c.flip ();
  if (again && b.code () > 2)
    return;
  if (again)
    {
      // run the result again
      const int times = 1 + c.choose (2);
      prog::write (dir + "/r0.html", b.out);
      for (int i = 0; i < times; ++i)
        {
          mc::Run r;
          r.argv = { "/bin/sh", dir + "/erun", mc::cat ("r", i, ".html"), mc::cat ("r", i + 1, ".html") };
          r.cwd = dir;
          r.env = prog::plain_env ();
          const mc::Proc p = mc::run (r);
          const string got = prog::read (dir + mc::cat ("/r", i + 1, ".html"));
          if (got != b.out)
            {
              size_t k = 0;
              while (k < got.size () && k < b.out.size () && got[k] == b.out[k])
                ++k;
              c.fail ("again", mc::cat (what, ": running the result again gives '", got.substr (k, 60), "' instead of '", b.out.substr (k, 60), "' at ", k, "\n", p.err));
            }
        }
      c.outcome (mc::mix (s, 100000 + times));
      c.count ("results run again", times);
      return;
    }
  const auto all = variations ();
  const int n = int (all.size ());
  const int i = c.choose (n), j = c.tier ? i + c.choose (n - i) : i;
  mc::Run r = prog::run (app, commands[command], definition (app, kind), dir);
  const string exe = r.argv[0];
  string cmd, after = " ";
  for (int k : { i, j })
    {
      const Variation &v = all[k];
      for (auto &e : v.env)
        r.env.push_back (e);
      if (v.prefix == "|")
        after = " | cat";
      else if (v.prefix == ">")
        after = " 3>&1 2>&- ";
      else if (k != i || i == j || v.prefix.find ("|") == string::npos)
        cmd = v.prefix.find ("|") != string::npos ? v.prefix + cmd : v.prefix.find (";") != string::npos ? v.prefix + cmd : cmd + v.prefix;
      else
        cmd = v.prefix + cmd;
      if (i == j)
        break;
    }
  const string locales = string (getenv ("VERIF_BUILD")) + "/locale";
  r.env.push_back ("LOCPATH=" + locales);
  // variables given last count
  map<string, string> env;
  for (auto &e : r.env)
    env[e.substr (0, e.find ('='))] = e;
  r.env.clear ();
  for (auto &e : env)
    r.env.push_back (e.second);
  what += string (", ") + all[i].what + (i == j ? "" : string (" and ") + all[j].what);
  bool piped = false;
  if (!cmd.empty () || after != " ")
    {
      string args;
      for (size_t k = 1; k < r.argv.size (); ++k)
        args += " '" + r.argv[k] + "'";
      piped = after == " | cat";
      r.argv = { "/bin/sh", "-c", cmd + "'" + exe + "'" + args + after };
    }
  r.limit = 40;
  const mc::Proc p = mc::run (r);
  c.outcome (mc::hash_str (what));
  if (p.out != b.out || (!piped && p.code () != b.code ()))
    {
      size_t k = 0;
      while (k < p.out.size () && k < b.out.size () && p.out[k] == b.out[k])
        ++k;
      c.fail ("environment", mc::cat (what, ": exit code ", p.code (), ", '", p.out.substr (k, 60), "' instead of '", b.out.substr (k, 60), "' at ", k, "\n", p.err));
    }
  if (c.want_sample ())
    c.sample (what);
}
