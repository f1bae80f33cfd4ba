// Runs the programs of the repository on small models.
#pragma once
#include "mc.hpp"
#include "proc.hpp"
#include <fstream>
#include <sys/stat.h>

namespace prog
{

inline std::string
path (const std::string &name)
{
  return std::string (getenv ("VERIF_BUILD")) + "/" + name;
}

inline void
write (const std::string &file, const std::string &text)
{
  std::ofstream os (file, std::ios::binary);
  os << text;
}

inline std::string
read (const std::string &file)
{
  std::ifstream is (file, std::ios::binary);
  std::ostringstream os;
  os << is.rdbuf ();
  return os.str ();
}

// The environment of a program unless stated otherwise.
inline std::vector<std::string>
plain_env ()
{
  return { "PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", "HOME=/nonexistent" };
}

// A synthetic spectrum with a line at 5003.25.
inline std::string
spectrum (int points, double step, double depth)
{
  std::ostringstream os;
  for (int i = 0; i < points; ++i)
    {
      const double w = 5000 + step * i;
      os << mc::str (w) << " " << mc::str (1.0 - depth * std::exp (-0.5 * std::pow ((w - 5003.25) / 0.4, 2)) + 0.01 * ((i * 7) % 5 - 2)) << " 0.03\n";
    }
  return os.str ();
}

struct App
{
  const char *name;
  int parameters;
};

static const App apps[] = { { "curcuma", 6 }, { "oregano", 7 }, { "mascada", 7 }, { "azafran", 8 } };

// A line near 5003.25.
inline std::string
line (int app, const std::string &id, int free = 3)
{
  std::string t = id + "\n3335.5 0 0 0\n0.25 0 0 0\n0.5 0 0 0\n";
  t += free > 0 ? "0 -12 10 1\n" : "3.5 0 0 0\n";
  t += free > 1 ? "20 5 60 1\n" : "20 0 0 0\n";
  t += free > 2 ? "13 11.5 14.5 1\n" : "13 0 0 0\n";
  if (app == 1 || app == 2)
    t += "2E8 0 0 0\n";
  if (app == 3)
    t += "1200 0 0 0\n0.5 -5 5 0\n";
  return t;
}

inline std::string
model (int app, const std::string &file, int free = 3, bool two = false)
{
  std::string t = "% a small model\n{\nalpha " + file + " 5000 5010 2 5008 5009\n25 0 0 0\n" + line (app, "a", free) + "}\n";
  if (two)
    {
      // the same line again, which makes the data sensitive to the resolution
      t += "\n{\nbeta " + file + " 5001 5009 1\n25 20 30 " + (free > 3 ? "1" : "0") + "\nb\n";
      for (int i = 0; i < apps[app].parameters; ++i)
        t += "0 0 0 0 a\n";
      t += "}\n";
    }
  return t;
}

inline mc::Run
run (int app, const std::vector<std::string> &args, const std::string &in, const std::string &cwd)
{
  mc::Run r;
  r.argv = { path (apps[app].name) };
  r.argv.insert (r.argv.end (), args.begin (), args.end ());
  r.in = in;
  r.cwd = cwd;
  r.env = plain_env ();
  return r;
}

} // namespace prog
