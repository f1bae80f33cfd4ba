// C23: a result that could not be written completely is not reported as success.
// Every program, utility and extraction tool; the output is cut off at every byte, and every single write fails or is
// cut short, once or from then on.
#include "prog.hpp"
#include "wfault.hpp"
#include <map>

using namespace std;

struct Target
{
  string name;
  mc::Run run;
  string expected;
  int writes = 0;
  bool supervised = true;
};

static const char *const all[] = { "curcuma", "oregano", "mascada", "azafran", "airtovac", "vactoair", "helicorr", "ezip", "ecom", "edat", "elog", "emes", "emod" };
static const int slices = 8;

static Target
target (mc::Ctx &c, int k)
{
  static map<int, Target> made;
  if (made.count (k))
    return made[k];
  Target t;
  t.name = all[k];
  const string dir = mc::scratch ();
  prog::write (dir + "/d.dat", prog::spectrum (c.tier ? 33 : 15, c.tier ? 0.3 : 0.7, 0.6));
  const vector<string> args = { "1", "2", "6", "1", "2", "100", "1" };
  if (k < 4)
    t.run = prog::run (k, args, prog::model (k, "d.dat", 2, c.tier), dir);
  else
    {
      t.run.argv = { prog::path (all[k]) };
      t.run.cwd = dir;
      t.run.env = prog::plain_env ();
      string rows;
      for (int i = 0; i < 12; ++i)
        rows += mc::cat (5000 + 1.5 * i, " ", 1 + 0.25 * i, i % 2 ? " 0.5\n" : " 0.25\n");
      if (k < 7)
        t.run.in = rows;
      if (k == 6)
        t.run.argv.push_back ("12345");
      if (k == 7)
        {
          prog::write (dir + "/f", rows);
          prog::write (dir + "/u", rows);
          t.run.argv.push_back ("f");
          t.run.argv.push_back ("u");
        }
      if (k > 7)
        t.run.in = mc::run (prog::run (0, args, prog::model (0, "d.dat", 2, true), dir)).out;
    }
  const mc::Proc p = mc::run (t.run), q = mc::run (t.run);
  if (p.code () != 0 || p.out.empty ())
    c.fail ("plain", mc::cat (t.name, ": exit code ", p.code (), " without any fault, ", p.out.size (), " bytes\n", p.err));
  if (p.out != q.out)
    c.fail ("plain", t.name + ": two runs differ");
  t.expected = p.out;
  mc::Proc s;
  t.supervised = mc::run_deciding (t.run, [] (int, size_t) { return 0L; }, s, t.writes);
  if (t.supervised && (s.code () != 0 || s.out != t.expected))
    c.fail ("plain", mc::cat (t.name, ": exit code ", s.code (), " when observed"));
  return made[k] = t;
}

int
mc_shards (int)
{
  return 13 * slices;
}

const char *
mc_rule ()
{
  return "for each of the programs: output limited to every number of bytes, full and closed devices, every single write failing with each of several errors (once or for good) or being cut short; non-trivial: distinct faults";
}

double
mc_time_limit ()
{
  return 120;
}

static void
judge (mc::Ctx &c, const Target &t, const mc::Proc &p, const string &what)
{
  if (p.code () == 999)
    c.fail ("hang", t.name + ", " + what + ": does not end");
  if (p.code () == 0 && p.out != t.expected)
    c.fail ("success", mc::cat (t.name, ", ", what, ": reported success, but ", p.out.size (), " of ", t.expected.size (), " bytes were written or differ"));
  c.count (p.code () == 0 ? "success" : "failure");
}

void
mc_case (mc::Ctx &c)
{
  const int k = c.shard () / slices, slice = c.shard () % slices;
  const Target t = target (c, k);
  const int mode = c.choose (3);
  if (mode == 0)
    {
      const int n = int (t.expected.size ()) + 2, m = (n - slice + slices - 1) / slices;
      const int at = slice + slices * c.choose (m);
      mc::Run r = t.run;
      r.fsize = at;
      const mc::Proc p = mc::run (r);
      if (int (p.out.size ()) > at)
        c.fail ("harness", "the limit was not effective");
      c.outcome (mc::mix (k, at));
      judge (c, t, p, mc::cat ("output limited to ", at, " bytes"));
    }
  else if (mode == 1)
    {
      const int what = c.choose (3);
      if (slice != 0)
        return;
      mc::Run r = t.run;
      if (what == 0)
        r.out_device = "/dev/full";
      else
        {
          // standard output closed, or open for reading only
          string cmd = "exec '" + r.argv[0] + "'";
          for (size_t i = 1; i < r.argv.size (); ++i)
            cmd += " '" + r.argv[i] + "'";
          cmd += what == 1 ? " >&-" : " 1</dev/null";
          r.argv = { "/bin/sh", "-c", cmd };
        }
      const mc::Proc p = mc::run (r);
      c.outcome (mc::mix (k, 1000000 + what));
      judge (c, t, p, what == 0 ? "full device" : what == 1 ? "closed output" : "output that cannot be written");
    }
  else
    {
      if (!t.supervised)
        {
          c.count ("no supervision of writes");
          return;
        }
      const int m = (t.writes - slice + slices - 1) / slices;
      if (m <= 0)
        return;
      const int at = slice + slices * c.choose (m);
      static const int errors[] = { ENOSPC, EIO, EINTR, EAGAIN, EPIPE };
      const int kind = c.choose (5 + 2), times = c.choose (3); // once, twice, for good (interruptions, which may be repeated, 50 times)
      mc::Proc p;
      int w;
      mc::run_deciding (
          t.run,
          [&] (int i, size_t size) -> long {
            const bool hit = i == at || (i > at && ((times == 2 && (kind != 2 || i < at + 50)) || (times == 1 && i == at + 1)));
            if (!hit)
              return 0;
            return kind < 5 ? -errors[kind] : size < 2 ? 0 : kind == 5 ? 1 : long (size - 1);
          },
          p, w);
      c.outcome (mc::mix (k * 100 + kind * 3 + times, at));
      judge (c, t, p, mc::cat ("write ", at, kind < 5 ? " fails with error " : " is cut short ", kind < 5 ? errors[kind] : kind, times == 0 ? " once" : times == 1 ? " twice" : " for good"));
      if (c.want_sample ())
        c.sample (t.name + mc::cat (" write ", at, " kind ", kind, " times ", times));
    }
}
