#include "mc.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <dirent.h>

extern "C" __attribute__ ((weak)) const char *
__asan_default_options ()
{
  return "exitcode=66:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=1";
}
extern "C" __attribute__ ((weak)) const char *
__ubsan_default_options ()
{
  return "halt_on_error=1:exitcode=66:print_stacktrace=0";
}

__attribute__ ((weak)) double
mc_time_limit ()
{
  return 20.0;
}

namespace
{

const int MAXT = 1 << 14;
struct Slot
{
  volatile double start;
  volatile int len;
  int vals[MAXT];
  volatile long cases;
  char key[256];
  char msg[8192];
  volatile int failed;
  volatile int finished; // the explorer itself ended the process
};
struct Shared
{
  volatile unsigned long states, outcomes;
  volatile int states_full, outcomes_full;
};

Slot *slots;
Slot *self;
Shared *shared;
uint64_t *tabS, *tabO;
size_t tabN;
std::set<std::string> known;
std::map<std::string, long> counters;
std::vector<std::string> samples;
std::set<std::string> known_hit;
size_t sample_max = 2;
std::string workdir;
long n_choices;
std::string scratch_dir;
pid_t scratch_pid;

double
now ()
{
  timespec t;
  clock_gettime (CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

void *
shmap (size_t n)
{
  void *p = mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    {
      perror ("mmap");
      _exit (70);
    }
  return p;
}

bool
insert (uint64_t *tab, uint64_t h, volatile int &full)
{
  if (h == 0)
    h = 1;
  size_t i = h & (tabN - 1);
  for (int k = 0; k < 256; ++k)
    {
      uint64_t v = __atomic_load_n (&tab[i], __ATOMIC_RELAXED);
      if (v == h)
        return false;
      if (v == 0)
        {
          uint64_t e = 0;
          if (__atomic_compare_exchange_n (&tab[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
            return true;
          if (e == h)
            return false;
        }
      i = (i + 1) & (tabN - 1);
    }
  full = 1;
  return false;
}

std::string
esc (const std::string &s)
{
  std::string r;
  for (unsigned char c : s)
    {
      if (c == '"' || c == '\\')
        {
          r += '\\';
          r += char (c);
        }
      else if (c == '\n')
        r += "\\n";
      else if (c < 32 || c > 126)
        {
          char b[8];
          snprintf (b, sizeof b, "\\u%04x", c);
          r += b;
        }
      else
        r += char (c);
    }
  return r;
}

void
remove_scratch ()
{
  if (!scratch_dir.empty () && scratch_pid == getpid ())
    {
      if (DIR *d = opendir (scratch_dir.c_str ()))
        {
          while (dirent *e = readdir (d))
            {
              std::string n = e->d_name;
              if (n != "." && n != "..")
                unlink ((scratch_dir + "/" + n).c_str ());
            }
          closedir (d);
        }
      rmdir (scratch_dir.c_str ());
      scratch_dir.clear ();
    }
}

// Runs one case; returns true when it passed.
bool
run_case (mc::Ctx &c, mc::Fail &f)
{
  try
    {
      mc_case (c);
      if (c.pos < c.prefix)
        {
          f = { "replay-divergence", "the case ended before its recorded choices were used up" };
          return false;
        }
      return true;
    }
  catch (const mc::Fail &e)
    {
      f = e;
      return false;
    }
  catch (const std::exception &e)
    {
      f = { "exception", mc::cat ("unexpected exception ", typeid (e).name (), ": ", e.what ()) };
      return false;
    }
  catch (...)
    {
      f = { "exception", "unexpected exception of unknown type" };
      return false;
    }
}

// Explores a shard depth first, from the trail given (empty: from its start). Ends the process.
void
explore_shard (int shard, int tier, const std::vector<int> *stop_after)
{
  std::vector<int> trail{ shard };
  std::vector<int> arity{ mc_shards (tier) };
  size_t prefix = 1;
  int rc = 0;
  for (;;)
    {
      mc::Ctx c;
      c.tier = tier;
      c.trail.assign (trail.begin (), trail.begin () + prefix);
      c.arity.assign (arity.begin (), arity.begin () + prefix);
      c.prefix = prefix;
      c.pos = 1;
      self->len = int (prefix);
      std::copy (c.trail.begin (), c.trail.end (), self->vals);
      self->start = now ();
      mc::Fail f;
      bool ok = run_case (c, f);
      ++self->cases;
      n_choices += long (c.pos) - 1;
      if (!ok)
        {
          self->len = int (std::min<size_t> (c.trail.size (), MAXT));
          std::copy_n (c.trail.begin (), self->len, self->vals);
          snprintf (self->key, sizeof self->key, "%s", f.key.c_str ());
          snprintf (self->msg, sizeof self->msg, "%s", f.msg.c_str ());
          self->failed = 1;
          rc = 3;
          break;
        }
      if (stop_after && c.trail == *stop_after)
        {
          rc = 4;
          break;
        }
      // next trail
      trail = c.trail;
      arity = c.arity;
      size_t i = trail.size ();
      if (c.cut_ && c.cut_ < i)
        i = c.cut_;
      while (i > 1 && trail[i - 1] + 1 >= arity[i - 1])
        --i;
      if (i <= 1)
        break;
      ++trail[i - 1];
      prefix = i;
    }
  self->start = now ();
  {
    std::ofstream o (workdir + "/shard" + std::to_string (shard));
    o << "cases " << self->cases << "\nchoices " << n_choices << "\n";
    for (auto &p : counters)
      o << "counter " << p.second << " " << p.first << "\n";
    for (auto &s : known_hit)
      o << "known " << s << "\n";
    for (auto &s : samples)
      o << "sample " << esc (s) << "\n";
  }
  remove_scratch ();
  self->finished = 1;
  _exit (rc);
}

struct Cand
{
  bool any = false;
  int shard = 0;
  std::vector<int> trail;
  std::string key, msg;
  std::string text;
  std::string how;
};

// Replays one trail alone in a child; returns 0 passed, 1 failed (fills c), 2 died/hung (fills c)
int
replay (Cand &c, int tier, double limit)
{
  Slot *s = self = static_cast<Slot *> (shmap (sizeof (Slot)));
  std::string tf = workdir + "/replay.txt";
  unlink (tf.c_str ());
  s->start = now ();
  pid_t p = fork ();
  if (p == 0)
    {
      setpgid (0, 0);
      mc::Ctx x;
      x.tier = tier;
      x.trail = c.trail;
      x.arity.assign (c.trail.size (), -1);
      x.prefix = c.trail.size ();
      x.pos = 1;
      x.verbose_ = true;
      mc::Fail f;
      bool ok = run_case (x, f);
      if (!ok)
        {
          snprintf (s->key, sizeof s->key, "%s", f.key.c_str ());
          snprintf (s->msg, sizeof s->msg, "%s", f.msg.c_str ());
        }
      {
        std::ofstream o (tf);
        o << x.text_;
      }
      remove_scratch ();
      s->finished = 1;
      _exit (ok ? 0 : 3);
    }
  int st = 0;
  double t0 = now ();
  bool hung = false;
  while (waitpid (p, &st, WNOHANG) == 0)
    {
      usleep (5000);
      if (now () - t0 > limit)
        {
          kill (p, SIGKILL);
          kill (-p, SIGKILL);
          waitpid (p, &st, 0);
          hung = true;
          break;
        }
    }
  kill (-p, SIGKILL);
  std::ifstream in (tf);
  std::stringstream ss;
  ss << in.rdbuf ();
  c.text = ss.str ();
  if (hung)
    {
      c.key = "hang";
      c.msg = mc::cat ("no progress within ", limit, " s (deadlock or endless loop)");
      return 2;
    }
  if (WIFSIGNALED (st))
    {
      c.key = "crash";
      c.msg = mc::cat ("the process was ended by signal ", WTERMSIG (st), " (", strsignal (WTERMSIG (st)), ")");
      return 2;
    }
  if (WEXITSTATUS (st) == 0 && s->finished)
    return 0;
  if (WEXITSTATUS (st) == 3)
    {
      c.key = s->key;
      c.msg = s->msg;
      return 1;
    }
  c.key = "crash";
  c.msg = mc::cat ("the process ended with status ", WEXITSTATUS (st), WEXITSTATUS (st) == 66 ? " (sanitizer report)" : "");
  return 2;
}

} // namespace

const std::string &
mc::scratch ()
{
  if (scratch_dir.empty () || scratch_pid != getpid ())
    {
      scratch_pid = getpid ();
      scratch_dir = workdir + "/s" + std::to_string (scratch_pid);
      if (mkdir (scratch_dir.c_str (), 0700) != 0 && errno != EEXIST)
        {
          perror ("mkdir scratch");
          _exit (70);
        }
    }
  return scratch_dir;
}

int
mc::Ctx::choose (int n)
{
  if (n <= 0)
    {
      fprintf (stderr, "mc: empty choice\n");
      _exit (71);
    }
  int v = 0;
  if (pos < prefix)
    {
      v = trail[pos];
      if (v >= n || (arity[pos] >= 0 && arity[pos] != n))
        {
          throw Fail{ "replay-divergence", cat ("choice ", pos, " has ", n, " alternatives, not ", arity[pos]) };
        }
      arity[pos] = n;
    }
  else
    {
      trail.push_back (0);
      arity.push_back (n);
      if (self && pos < size_t (MAXT))
        {
          self->vals[pos] = 0;
          self->len = int (pos + 1);
        }
    }
  ++pos;
  return v;
}

void
mc::Ctx::state (uint64_t h)
{
  if (tabS && insert (tabS, h, shared->states_full))
    __atomic_fetch_add (&shared->states, 1, __ATOMIC_RELAXED);
}

void
mc::Ctx::outcome (uint64_t h)
{
  if (tabO && insert (tabO, h, shared->outcomes_full))
    __atomic_fetch_add (&shared->outcomes, 1, __ATOMIC_RELAXED);
}

void
mc::Ctx::count (const char *name, long n)
{
  counters[name] += n;
}

bool
mc::Ctx::want_sample () const
{
  return samples.size () < sample_max;
}

void
mc::Ctx::sample (const std::string &s)
{
  if (samples.size () < sample_max)
    samples.push_back (s.substr (0, 1500));
}

void
mc::Ctx::cut (size_t depth)
{
  cut_ = depth + 1;
  ++counters["subtrees cut"];
}

int
mc::Ctx::shard () const
{
  return trail[0];
}

void
mc::Ctx::fail (const std::string &key, const std::string &msg)
{
  throw Fail{ key, msg };
}

namespace mc
{
// Ends this process with a failure of the current case (from any thread).
[[noreturn]] void die (const std::string &key, const std::string &msg);
void
die (const std::string &key, const std::string &msg)
{
  if (self)
    {
      snprintf (self->key, sizeof self->key, "%s", key.c_str ());
      snprintf (self->msg, sizeof self->msg, "%s", msg.c_str ());
      self->failed = 1;
    }
  remove_scratch ();
  _exit (3);
}
}

void
mc::Ctx::check (bool ok, const std::string &key, const std::string &msg)
{
  if (!ok)
    {
      if (known.count (key))
        known_hit.insert (key);
      else
        throw Fail{ key, msg };
    }
}

int
main (int argc, char **argv)
{
  {
    // small stacks are reused by the C library, threads are created often
    pthread_attr_t a;
    if (pthread_attr_init (&a) == 0 && pthread_attr_setstacksize (&a, 512 << 10) == 0)
      pthread_setattr_default_np (&a);
  }
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> opt;
  for (int i = 2; i + 1 < argc; i += 2)
    opt[argv[i]] = argv[i + 1];
  int tier = opt["--tier"] == "thorough";
  workdir = opt["--work"];
  if (workdir.empty () || (mode != "explore" && mode != "replay"))
    {
      fprintf (stderr, "usage: %s explore|replay --work DIR --out FILE [--tier quick|thorough] [--jobs N] [--deadline S] [--known k1,k2] [--trail a,b,c]\n", argv[0]);
      return 70;
    }
  {
    std::stringstream ks (opt["--known"]);
    std::string k;
    while (std::getline (ks, k, ','))
      if (!k.empty ())
        known.insert (k);
  }
  double limit = mc_time_limit ();
  if (mode == "replay")
    {
      Cand c;
      std::stringstream ts (opt["--trail"]);
      std::string k;
      while (std::getline (ts, k, ','))
        c.trail.push_back (atoi (k.c_str ()));
      int r = replay (c, tier, 3 * limit);
      printf ("%s", c.text.c_str ());
      if (r)
        printf ("FAIL %s: %s\n", c.key.c_str (), c.msg.c_str ());
      else
        printf ("PASS\n");
      return r ? 1 : 0;
    }
  int jobs = opt.count ("--jobs") ? atoi (opt["--jobs"].c_str ()) : 8;
  double deadline = opt.count ("--deadline") ? atof (opt["--deadline"].c_str ()) : 1e9;
  tabN = size_t (1) << 25;
  tabS = static_cast<uint64_t *> (shmap (tabN * 8));
  tabO = static_cast<uint64_t *> (shmap (tabN * 8));
  shared = static_cast<Shared *> (shmap (sizeof (Shared)));
  slots = static_cast<Slot *> (shmap (sizeof (Slot) * jobs));
  const int ns = mc_shards (tier);
  std::vector<pid_t> pid (jobs, 0);
  std::vector<int> of (jobs, -1);
  int next = 0, running = 0, done = 0;
  bool capped = false;
  Cand cand;
  double t0 = now ();
  bool stop = false;
  while ((next < ns && !stop) || running)
    {
      if (now () - t0 > deadline && !stop)
        {
          stop = capped = true;
          for (int j = 0; j < jobs; ++j)
            if (pid[j])
              kill (-pid[j], SIGKILL), kill (pid[j], SIGKILL);
        }
      for (int j = 0; j < jobs && next < ns && !stop; ++j)
        if (!pid[j])
          {
            memset (&slots[j], 0, sizeof (Slot));
            slots[j].start = now ();
            of[j] = next++;
            fflush (nullptr);
            pid_t p = fork ();
            if (p == 0)
              {
                setpgid (0, 0);
                self = &slots[j];
                explore_shard (of[j], tier, nullptr);
              }
            setpgid (p, p);
            pid[j] = p;
            ++running;
          }
      bool progress = false;
      for (int j = 0; j < jobs; ++j)
        if (pid[j])
          {
            int st;
            pid_t r = waitpid (pid[j], &st, WNOHANG);
            bool hung = false;
            if (r == 0)
              {
                if (now () - slots[j].start > limit && !stop)
                  {
                    hung = true;
                    kill (pid[j], SIGKILL);
                    waitpid (pid[j], &st, 0);
                  }
                else
                  continue;
              }
            progress = true;
            kill (-pid[j], SIGKILL);
            int code = WIFEXITED (st) ? WEXITSTATUS (st) : -1;
            {
              std::string sd = workdir + "/s" + std::to_string (pid[j]);
              pid_t keep = pid[j];
              if (access (sd.c_str (), F_OK) == 0)
                {
                  scratch_dir = sd;
                  scratch_pid = getpid ();
                  remove_scratch ();
                }
              (void)keep;
            }
            pid[j] = 0;
            --running;
            if (stop)
              continue;
            if (code == 0 && !hung && slots[j].finished)
              {
                ++done;
                continue;
              }
            if (code == 70 || code == 71)
              {
                fprintf (stderr, "mc: internal error in shard %d\n", of[j]);
                return 70;
              }
            // candidate violation
            if (!cand.any)
              {
                cand.any = true;
                cand.shard = of[j];
                cand.trail.assign (slots[j].vals, slots[j].vals + slots[j].len);
                if (hung)
                  {
                    cand.key = "hang";
                    cand.msg = "no progress (deadlock or endless loop)";
                  }
                else if (code == 3)
                  {
                    cand.key = slots[j].key;
                    cand.msg = slots[j].msg;
                  }
                else
                  {
                    cand.key = "crash";
                    cand.msg = code == 0 ? std::string ("the code under test ended the process") : WIFSIGNALED (st) ? mc::cat ("ended by signal ", WTERMSIG (st)) : mc::cat ("ended with status ", code);
                  }
                stop = true;
                for (int k = 0; k < jobs; ++k)
                  if (pid[k])
                    kill (-pid[k], SIGKILL), kill (pid[k], SIGKILL);
              }
          }
      if (!progress)
        usleep (2000);
    }
  std::string verdict = "pass";
  if (cand.any)
    {
      // Replay alone.
      Cand alone = cand;
      int r = replay (alone, tier, 3 * limit);
      if (r)
        {
          alone.how = "alone in a fresh process";
          cand = alone;
          verdict = "violation";
        }
      else
        {
          // Replay with the history of its shard.
          Cand h = cand;
          Slot *s = self = static_cast<Slot *> (shmap (sizeof (Slot)));
          s->start = now ();
          fflush (nullptr);
          pid_t p = fork ();
          if (p == 0)
            {
              setpgid (0, 0);
              explore_shard (cand.shard, tier, &cand.trail);
            }
          int st;
          bool hung = false;
          while (waitpid (p, &st, WNOHANG) == 0)
            {
              usleep (5000);
              if (now () - s->start > 3 * limit)
                {
                  hung = true;
                  kill (p, SIGKILL);
                  waitpid (p, &st, 0);
                  break;
                }
            }
          int code = WIFEXITED (st) ? WEXITSTATUS (st) : -1;
          bool again = hung || (code != 0 && code != 4) || (code == 0 && !s->finished);
          h.text = alone.text;
          h.how = again ? "with the preceding executions of its shard in the same process (not alone: hidden state is carried over)"
                        : "not reproduced";
          if (again && code == 3)
            {
              h.key = s->key;
              h.msg = s->msg;
              h.trail.assign (s->vals, s->vals + s->len);
            }
          cand = h;
          verdict = again ? "violation" : "unstable";
        }
    }
  // Collect
  long cases = 0, choices = 0;
  std::map<std::string, long> cn;
  std::vector<std::string> smp;
  std::set<std::string> kn;
  for (int i = 0; i < ns; ++i)
    {
      std::string fn = workdir + "/shard" + std::to_string (i);
      std::ifstream in (fn);
      std::string l;
      while (std::getline (in, l))
        {
          std::stringstream ls (l);
          std::string k;
          ls >> k;
          if (k == "cases")
            {
              long v;
              ls >> v;
              cases += v;
            }
          else if (k == "choices")
            {
              long v;
              ls >> v;
              choices += v;
            }
          else if (k == "counter")
            {
              long v;
              std::string nme;
              ls >> v;
              std::getline (ls >> std::ws, nme);
              cn[nme] += v;
            }
          else if (k == "known")
            kn.insert (l.substr (6));
          else if (k == "sample" && smp.size () < 8)
            smp.push_back (l.substr (7));
        }
      unlink (fn.c_str ());
    }
  std::ofstream o (opt["--out"]);
  o << "{\"verdict\": \"" << verdict << "\", \"shards\": " << ns << ", \"shards_done\": " << done << ", \"exhaustive\": " << (capped || verdict != "pass" ? "false" : "true") << ", \"executions\": " << cases << ", \"choices\": " << choices << ", \"states\": " << shared->states << ", \"outcomes\": " << shared->outcomes << ", \"states_full\": " << shared->states_full << ", \"outcomes_full\": " << shared->outcomes_full << ", \"rule\": \"" << esc (mc_rule ()) << "\", \"counters\": {";
  bool first = true;
  for (auto &p : cn)
    {
      o << (first ? "" : ", ") << "\"" << esc (p.first) << "\": " << p.second;
      first = false;
    }
  o << "}, \"known\": [";
  first = true;
  for (auto &k : kn)
    {
      o << (first ? "" : ", ") << "\"" << esc (k) << "\"";
      first = false;
    }
  o << "], \"samples\": [";
  first = true;
  for (auto &k : smp)
    {
      o << (first ? "" : ", ") << "\"" << k << "\"";
      first = false;
    }
  o << "]";
  if (cand.any)
    {
      o << ", \"key\": \"" << esc (cand.key) << "\", \"message\": \"" << esc (cand.msg) << "\", \"text\": \"" << esc (cand.text) << "\", \"how\": \"" << esc (cand.how) << "\", \"trail\": [";
      for (size_t i = 0; i < cand.trail.size (); ++i)
        o << (i ? ", " : "") << cand.trail[i];
      o << "]";
    }
  o << "}\n";
  return verdict == "pass" ? 0 : verdict == "violation" ? 1 : 2;
}
