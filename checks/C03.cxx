// C03: extraction tools return exactly the requested part of a result.
// The real tools run as processes on every sequence of lines up to a bound; reference: a filter on lists of lines.
#include "mc.hpp"
#include "proc.hpp"
#include <algorithm>

using namespace std;

struct Tool
{
  const char *name;
  vector<string> open, close;
  string other_open, other_close;
};

static const vector<Tool> tools = {
  { "ecom", { "<command>" }, { "</command>" }, "<model>", "</model>" },
  { "edat", { "<data>" }, { "</data>" }, "<log>", "</log>" },
  { "elog", { "<log>" }, { "</log>" }, "<message>", "</message>" },
  { "emes", { "<message>", "<mesg>" }, { "</message>", "</mesg>" }, "<data>", "</data>" },
  { "emod", { "<model>", "<job>", "<input>" }, { "</model>", "</job>", "</input>" }, "<command>", "</command>" },
};

static vector<string>
alphabet (const Tool &t, int family)
{
  vector<string> a;
  if (family == 0)
    {
      a = { "text", "" };
      a.insert (a.end (), t.open.begin (), t.open.end ());
      a.insert (a.end (), t.close.begin (), t.close.end ());
      a.push_back (t.other_open);
      a.push_back (t.other_close);
      a.push_back (" " + t.open[0]);
      a.push_back (t.close[0] + " ");
      a.push_back ("x " + t.close[0]);
      a.push_back ("% comment { a } <");
    }
  else if (family == 1) // fewer lines, longer sequences
    {
      a = { "1.0  \t2 ", "", t.open.back (), t.close.back (), t.open.front (), t.close.front () };
      if (t.open.size () == 1)
        {
          a.resize (4);
          a.push_back ("<!--");
        }
    }
  else // unusual lines
    {
      string upper = t.open[0];
      transform (upper.begin (), upper.end (), upper.begin (), ::toupper);
      a = { t.open[0],
            t.close[0],
            upper,
            t.open[0] + "\r",
            t.close[0] + "\r",
            string (5000, 'a') + "b",
            string (70000, 'c') + t.close[0],
            string ("nul\0byte", 8),
            string ("\xff\xfe\x80 &plusmn; \x1a"),
            "\ttab\v\f",
            t.close[0].substr (0, t.close[0].size () - 1),
            t.open[0].substr (1) };
    }
  return a;
}

static int
depth (int family, int tier)
{
  return family == 0 ? (tier ? 5 : 3) : family == 1 ? (tier ? 7 : 5) : (tier ? 4 : 3);
}

int
mc_shards (int)
{
  return int (tools.size ()) * 3 * 14;
}

const char *
mc_rule ()
{
  return "all line sequences up to the depth over three alphabets per tool (tags, near-tags, long sequences of few lines, unusual bytes), with and without final newline; non-trivial: distinct expected outputs";
}

double
mc_time_limit ()
{
  return 60;
}

void
mc_case (mc::Ctx &c)
{
  int s = c.shard ();
  const Tool &t = tools[s % tools.size ()];
  s /= tools.size ();
  const int family = s % 3;
  const size_t first = s / 3;
  vector<string> a = alphabet (t, family);
  vector<string> l;
  if (family == 2 && first == a.size () + 1) // very long lines
    {
      a = { string ((1 << 17) + 1, 'd') + "e",
            string ((1 << 20) - 1, 'f'),
            string (1 << 20, 'g') + t.close[0],
            string (3000000, ' ') + t.open[0] };
      if (c.choose (2))
        l.push_back (t.open[0]);
      l.push_back (a[c.choose (int (a.size ()))]);
      if (c.choose (2))
        l.push_back (t.close[0]);
    }
  else if (first > a.size ())
    return;
  if (first < a.size ())
    {
      l.push_back (a[first]);
      const int d = depth (family, c.tier);
      while (int (l.size ()) < d)
        {
          int k = c.choose (int (a.size ()) + 1);
          if (k == 0)
            break;
          l.push_back (a[k - 1]);
        }
    }
  const bool nl = l.empty () || c.flip () == 0;
  string in, expect;
  bool inside = false;
  for (size_t i = 0; i < l.size (); ++i)
    {
      in += l[i];
      if (i + 1 < l.size () || nl)
        in += '\n';
      else if (l[i].empty ())
        continue; // an empty last line without newline is no line
      const bool o = count (t.open.begin (), t.open.end (), l[i]) > 0;
      const bool e = count (t.close.begin (), t.close.end (), l[i]) > 0;
      if (inside && !e)
        expect += l[i] + "\n";
      else
        inside = o;
    }
  mc::Run r;
  r.argv = { string (getenv ("VERIF_BUILD")) + "/" + t.name };
  r.in = in;
  mc::Proc p = mc::run (r);
  c.state (mc::hash_str (in, s));
  if (!expect.empty ())
    c.outcome (mc::hash_str (expect, s % tools.size ()));
  if (c.want_sample () && !expect.empty () && in.size () < 300)
    c.sample (mc::cat (t.name, " < ", in, " => ", p.out));
  c.log (mc::cat ("tool: ", t.name, "\ninput:\n", in.substr (0, 3000), "\noutput:\n", p.out.substr (0, 3000), "\nexpected:\n", expect.substr (0, 3000)));
  if (p.code () != 0)
    c.fail ("exit", mc::cat (t.name, " ended with ", p.code ()));
  if (p.out != expect)
    c.fail ("output", mc::cat (t.name, " did not copy exactly the lines of its part"));
}
