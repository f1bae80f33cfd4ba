// C24: scripts never lose data and report the verdict truthfully.
// The real scripts run with stand-ins for every command they use; every step fails or the script is killed there.
#include "prog.hpp"
#include <algorithm>
#include <dirent.h>
#include <map>
#include <set>

using namespace std;

static string
repo ()
{
  const char *r = getenv ("ESPECIA_REPO");
  return r ? r : "/repo";
}

static void
remove_tree (const string &d)
{
  if (d.compare (0, mc::scratch ().size (), mc::scratch ()) != 0)
    abort ();
  if (DIR *p = opendir (d.c_str ()))
    {
      while (dirent *e = readdir (p))
        {
          const string n = e->d_name;
          if (n == "." || n == "..")
            continue;
          const string f = d + "/" + n;
          struct stat s;
          if (lstat (f.c_str (), &s) == 0 && S_ISDIR (s.st_mode))
            {
              remove_tree (f);
              rmdir (f.c_str ());
            }
          else
            unlink (f.c_str ());
        }
      closedir (p);
    }
}

static bool
exists (const string &f)
{
  struct stat s;
  return stat (f.c_str (), &s) == 0;
}

// The directory of stand-ins and scripts.
static const string &
tools ()
{
  static string d;
  if (d.empty ())
    {
      d = mc::scratch () + "/bin";
      mkdir (d.c_str (), 0755);
      for (const char *n : { "user-cmd-2x", "cp", "mv", "rm", "ln", "cat", "basename", "dirname", "grep", "sed", "tee", "mktemp", "touch", "install", "cmp", "test", "ecom", "emod", "elog" })
        if (symlink ((getenv ("VERIF_BUILD") + string ("/stub")).c_str (), (d + "/" + n).c_str ()) != 0)
          abort ();
      prog::write (d + "/foreach", prog::read (repo () + "/src/main/scripts/foreach"));
      prog::write (d + "/erun", prog::read (repo () + "/src/main/scripts/erun"));
    }
  return d;
}

static string
interpreter (const string &script)
{
  const string t = prog::read (tools () + "/" + script);
  const string l = t.substr (0, t.find ('\n'));
  return l.find ("bash") != string::npos ? "/bin/bash" : "/bin/sh";
}

static mc::Run
script (const string &name, const vector<string> &args, const string &cwd)
{
  mc::Run r;
  r.argv = { "/usr/bin/setsid", interpreter (name), tools () + "/" + name };
  r.argv.insert (r.argv.end (), args.begin (), args.end ());
  r.cwd = cwd;
  r.env = { "PATH=" + tools () + ":/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", "STUB_REAL=" + string (getenv ("VERIF_BUILD")) + ":/usr/bin:/bin", "TMPDIR=" + mc::scratch () + "/w" };
  return r;
}

// Files a script is applied to. {} is replaced by the working directory.
static const vector<vector<string> > lists = {
  { "data/a.dat" },
  { "data/a b.dat" },
  { "data/a.dat", "data/b.dat" },
  { "data/a.dat", "other/a.dat" },
  { "data/a.dat", "other/b.dat", "data/c d.dat" },
  { "{}/data/a.dat" },
  { "a.dat" },
  { "./a.dat" },
  { "a.dat", "b.dat" },
  { "data/a.dat", "a.dat" },
  { "a.dat", "data/a.dat" },
  { "data/missing.dat", "data/a.dat" },
  { "data/a.dat", "data/missing.dat", "data/b.dat" },
  { "data/[ab]*.dat", "data/a.dat" },
  { "data/a'\"$HOME`x`.dat" },
  { "data/new\nline.dat", "data/tab\t.dat" },
  { "data/ a.dat ", "data/-x.dat" },
  { "../up/a.dat", "data/a.dat" },
};

static string
content (size_t i)
{
  return "original content of file " + to_string (i) + "\nwith a second line " + string (20 + 7 * i, 'x') + "\n";
}

static void
foreach_case (mc::Ctx &c)
{
  const string w = mc::scratch () + "/w";
  const int l = c.shard ();
  vector<string> files = lists[l];
  // what the command does with each file
  string plan;
  for (size_t i = 0; i < files.size (); ++i)
    plan += i == 0 || c.tier ? char ('0' + c.choose (7)) : i == 1 ? c.pick<char> ({ '0', '1', '2', '5' }) : c.pick<char> ({ '0', '1' });
  const int mode = c.choose (7);
  vector<string> paths;
  vector<bool> there;
  for (string &f : files)
    {
      if (f.compare (0, 2, "{}") == 0)
        f = w + f.substr (2);
      paths.push_back (f[0] == '/' ? f : w + "/" + f);
      there.push_back (f.find ("missing") == string::npos);
    }
  const string count = mc::scratch () + "/count";
  vector<string> bystanders;
  auto prepare = [&] () {
    remove_tree (mc::scratch () + "/w");
    remove_tree (mc::scratch () + "/up");
    for (const char *d : { "", "/data", "/other", "/../up" })
      mkdir ((w + d).c_str (), 0755);
    for (size_t i = 0; i < files.size (); ++i)
      if (there[i])
        prog::write (paths[i], content (i));
    for (const string &s : bystanders)
      prog::write (s, "bystander " + s);
    unlink (count.c_str ());
  };
  // files the command is not applied to
  for (const char *d : { "", "data/", "other/" })
    for (const char *n : { "a", "b", "c", "a.dat.old.backup", "a.old.backup", "keep.backup", "keep.target", "b.dat.backup", "d.dat.backup", "b.dat", "d.dat", "b.dat.target", ".backup", "x.dat", "a.dat~", "target" })
      {
        const string s = w + "/" + d + n;
        bool other = true;
        for (size_t i = 0; i < files.size (); ++i)
          other = other && s != paths[i] && s != paths[i] + ".backup" && s != paths[i] + ".target";
        if (other)
          bystanders.push_back (s);
      }
  prepare ();
  vector<string> args = { "user-cmd-2x" };
  args.insert (args.end (), files.begin (), files.end ());
  mc::Run r = script ("foreach", args, w);
  r.env.push_back ("APPLY=" + plan);
  r.env.push_back ("STUB_COUNT=" + count);
  string what = "foreach user-cmd-2x";
  for (auto &f : files)
    what += " '" + f + "'";
  what += ", command " + plan;
  long at = -1;
  if (mode > 0)
    {
      // the number of steps without any fault
      static map<string, int> lengths;
      if (!lengths.count (what))
        {
          mc::run (r);
          lengths[what] = int (prog::read (count).size ());
          prepare ();
        }
      at = c.choose (max (1, lengths[what]));
      r.env.push_back ("STUB_AT=" + to_string (at));
      r.env.push_back ("STUB_MODE=" + to_string (mode));
      static const char *const names[] = { "", "fails", "is done and fails", "is half done and fails", "is preceded by a kill", "is followed by a kill", "is killed halfway" };
      what += mc::cat (", step ", at, " ", names[mode]);
    }
  const mc::Proc p = mc::run (r);
  const string steps = prog::read (count);
  c.outcome (mc::hash_str (what));
  c.count ("steps", steps.size ());
  if (p.code () == 999)
    c.fail ("hang", what + ": does not end");
  bool every = true;
  for (size_t i = 0; i < files.size (); ++i)
    {
      if (!there[i])
        {
          every = false;
          continue;
        }
      const string now = prog::read (paths[i]), old = content (i);
      // the result of the command for this file, if it succeeded
      const int k = plan[i] - '0';
      const bool replaced = exists (paths[i]) && ((k == 4 && now.empty ()) || ((k == 0 || k == 5 || k == 6) && now == "new:" + old));
      if (replaced && k != 5)
        continue;
      every = false;
      if (exists (paths[i]) && now == old)
        continue;
      // in a backup next to the file
      if (prog::read (paths[i] + ".backup") == old)
        continue;
      bool backup = false;
      const string dir = paths[i].substr (0, paths[i].rfind ('/')), base = paths[i].substr (paths[i].rfind ('/') + 1);
      if (DIR *d = opendir (dir.c_str ()))
        {
          while (dirent *e = readdir (d))
            {
              const string n = e->d_name;
              if (n.size () > base.size () && n.find (base) != string::npos && prog::read (dir + "/" + n) == old)
                backup = true;
            }
          closedir (d);
        }
      if (backup)
        continue;
      c.fail ("lost", mc::cat (what, " (exit code ", p.code (), "): the content of '", files[i], "' is lost, it is now '", now, "'\n", p.err));
    }
  if (p.code () == 0 && !every)
    c.fail ("success", what + ": reported success, but not every file was replaced by the result\n" + p.err);
  for (const string &s : bystanders)
    if (prog::read (s) != "bystander " + s)
      c.fail ("bystander", mc::cat (what, ": '", s.substr (w.size () + 1), "', to which the command is not applied, is lost or changed\n", p.err));
  // without any fault, files that exist are replaced
  if (mode == 0 && plan.find_first_not_of ("046") == string::npos && find (there.begin (), there.end (), false) == there.end () && files[0].find (" a.dat ") == string::npos)
    {
      if (p.code () != 0 || !every)
        c.fail ("failure", mc::cat (what, ": exit code ", p.code (), " without any fault\n", p.err));
      c.count ("success");
    }
  if (c.want_sample ())
    c.sample (what);
}

// Re-running.
static const vector<string> costs = { "12.34", "2.34", "0.00", "123.45" };

static void
erun_case (mc::Ctx &c, int first)
{
  const string w = mc::scratch () + "/w", dir = w + "/data set";
  remove_tree (w);
  mkdir (w.c_str (), 0755);
  mkdir (dir.c_str (), 0755);
  // the new result has any of these costs, and other numbers elsewhere
  const int present = first;
  const int fault = c.choose (4 * 3); // a command of the script fails
  const int program_mode = fault ? c.pick<int> ({ 0, 2 }) : c.choose (5); // writes all, nothing, half, is missing, is killed after half
  const int decoy = fault || (program_mode && !c.tier) ? 0 : c.choose (3);
  string out = "<!DOCTYPE html>\n<html>\n<!--\n<command>\n prog\n</command>\n-->\n</html>\n<log>\n       1  1.0 2.0\n</log>\n<message>\nm\n</message>\n";
  string stale = out;
  for (size_t i = 0; i < costs.size (); ++i)
    {
      if (present & (1 << i))
        out += "      <td><strong>" + costs[i] + "</strong></td>\n";
      else if (decoy == 1)
        out += "      <td>" + costs[i] + "</td> <strong>" + costs[i] + "</strong> <td><strong>9" + costs[i] + "</strong></td><td><strong>" + costs[i] + "0</strong></td>\n";
      else if (decoy == 2)
        out += "      <td><strong>-" + costs[i] + "</strong></td> " + costs[i] + "\n      <td><strong>" + string (1, costs[i][0]) + "9" + costs[i].substr (costs[i].find ('.')) + "</strong></td>\n";
      stale += "      <td><strong>" + costs[i] + "</strong></td>\n";
    }
  out += "</table>\n";
  string result = stale;
  const string program = w + "/prog";
  const int exit_code = fault || program_mode == 4 ? 0 : c.flip () ? 2 : c.tier && c.flip () ? 16 : 0;
  {
    const size_t i = result.find ("<command>\n") + 10;
    result.replace (i, result.find ("</command>") - i, " " + program + " 1 2\n");
    result += "<model>\n% model\n</model>\n";
  }
  prog::write (w + "/new.txt", out);
  const string half = program_mode == 2 || program_mode == 4 ? out.substr (0, out.size () - 70) : program_mode == 1 ? "" : out;
  prog::write (w + "/half.txt", half);
  if (program_mode != 3)
    {
      prog::write (program, "#!/bin/sh\n/usr/bin/cat '" + w + "/half.txt'\n" + (program_mode == 4 ? "kill -9 $$\n" : "") + "exit " + to_string (exit_code) + "\n");
      chmod (program.c_str (), 0755);
    }
  prog::write (dir + "/result.html", result);
  const bool old_target = (program_mode == 0 && !fault && !c.tier) || c.flip ();
  const string target = dir + "/target.html";
  if (old_target)
    prog::write (target, stale);
  // the values expected: none, one or two of the costs or others
  vector<string> args = { "data set/result.html", "data set/target.html" };
  vector<string> values;
  static const vector<string> more = { "12.34", "2.34", "0.00", "7.00", "123.45", "2.3" };
  const int n = c.choose (c.tier ? 4 : 3);
  for (int i = 0; i < n; ++i)
    values.push_back (more[c.choose (i && !c.tier ? 4 : 6)]);
  args.insert (args.end (), values.begin (), values.end ());
  mc::Run r = script ("erun", args, w);
  string what = "erun";
  for (auto &v : values)
    what += " " + v;
  what += mc::cat (" costs ", present, " decoy ", decoy, " exit ", exit_code, " program ", program_mode, old_target ? " old target" : "");
  static const char *const names[] = { "", "ecom", "emod", "elog", "tee", "grep", "dirname" };
  if (fault > 0)
    {
      const int name = 1 + (fault - 1) % 6, mode = (fault - 1) / 6 ? 2 : 1;
      if (name == 6 && mode == 2)
        return;
      r.env.push_back (string ("STUB_NAME=") + names[name]);
      r.env.push_back ("STUB_MODE=" + to_string (mode));
      what += string (", ") + names[name] + (mode == 1 ? " fails" : " is done and fails");
    }
  const mc::Proc p = mc::run (r);
  c.outcome (mc::hash_str (what));
  if (p.code () == 999)
    c.fail ("hang", what + ": does not end");
  const string got = prog::read (target);
  bool all = true;
  for (auto &v : values)
    {
      const size_t i = find (costs.begin (), costs.end (), v) - costs.begin ();
      const bool written = i < costs.size () && (present & (1 << i)) && half.find ("<td><strong>" + v + "</strong></td>") != string::npos;
      all = all && written && program_mode != 3;
    }
  if (p.code () == 0)
    {
      if (!values.empty () && !all)
        c.fail ("verdict", what + ": reported success, but an expected value is not in the new result");
      if (!values.empty () && got != half)
        c.fail ("target", what + ": reported success, but the target is not the output of the new run");
      c.count ("success");
    }
  else
    c.count ("failure");
  if (fault == 0 && exit_code == 0 && program_mode == 0)
    {
      if (all && p.code () != 0)
        c.fail ("verdict", mc::cat (what, ": every expected value is present, but the exit code is ", p.code (), "\n", p.err));
      if (got != out)
        c.fail ("target", what + ": the target is not the output of the new run");
    }
  if (prog::read (dir + "/result.html") != result)
    c.fail ("result", what + ": the result re-run has changed");
  if (c.want_sample ())
    c.sample (what);
}

int
mc_shards (int)
{
  return int (lists.size ()) + 16;
}

const char *
mc_rule ()
{
  return "foreach: lists of files, what the command does with each of them, and every step failing (nothing, all or half done) or being killed (before, after, halfway); "
         "erun: sets of costs in the new result, expected values, exit codes and partial output of the program, failing commands; non-trivial: distinct cases";
}

double
mc_time_limit ()
{
  return 60;
}

void
mc_case (mc::Ctx &c)
{
  tools ();
  mkdir ((mc::scratch () + "/w").c_str (), 0755);
  mkdir ((mc::scratch () + "/up").c_str (), 0755);
  if (c.shard () < int (lists.size ()))
    foreach_case (c);
  else
    erun_case (c, c.shard () - int (lists.size ()));
}
