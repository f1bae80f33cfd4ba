// Runs a program with a given standard input and collects its output. All effects stay in the caller's scratch.
#pragma once
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern char **environ;

namespace mc
{

struct Proc
{
  int status = 0;   // wait status
  bool hung = false;
  std::string out, err;
  int
  code () const // exit code, or 256 + signal
  {
    return hung ? 999 : WIFSIGNALED (status) ? 256 + WTERMSIG (status) : WEXITSTATUS (status);
  }
};

struct Run
{
  std::vector<std::string> argv;
  std::string in;
  std::string cwd;
  std::vector<std::string> env; // empty: inherit
  long fsize = -1;              // RLIMIT_FSIZE (SIGXFSZ ignored)
  long aspace = -1;             // RLIMIT_AS
  std::string out_device;       // write standard output here instead
  double limit = 20.0;
};

inline int
mem_file (const std::string &s)
{
  int fd = memfd_create ("mc", 0);
  size_t o = 0;
  while (o < s.size ())
    {
      ssize_t r = write (fd, s.data () + o, s.size () - o);
      if (r <= 0)
        abort ();
      o += r;
    }
  lseek (fd, 0, SEEK_SET);
  return fd;
}

inline std::string
slurp_fd (int fd)
{
  off_t n = lseek (fd, 0, SEEK_END);
  std::string s (n, 0);
  size_t o = 0;
  while (o < s.size ())
    {
      ssize_t r = pread (fd, &s[o], s.size () - o, o);
      if (r <= 0)
        break;
      o += r;
    }
  return s;
}

inline Proc
run (const Run &r)
{
  Proc p;
  int fi = mem_file (r.in);
  int fo = r.out_device.empty () ? mem_file ("") : open (r.out_device.c_str (), O_WRONLY);
  int fe = mem_file ("");
  std::vector<char *> a, e;
  for (auto &s : r.argv)
    a.push_back (const_cast<char *> (s.c_str ()));
  a.push_back (nullptr);
  for (auto &s : r.env)
    e.push_back (const_cast<char *> (s.c_str ()));
  e.push_back (nullptr);
  pid_t c = r.fsize >= 0 || r.aspace >= 0 ? fork () : vfork ();
  if (c == 0)
    {
      dup2 (fi, 0);
      dup2 (fo, 1);
      dup2 (fe, 2);
      if (!r.cwd.empty () && chdir (r.cwd.c_str ()) != 0)
        _exit (126);
      if (r.fsize >= 0)
        {
          signal (SIGXFSZ, SIG_IGN);
          struct rlimit l = { rlim_t (r.fsize), rlim_t (r.fsize) };
          setrlimit (RLIMIT_FSIZE, &l);
        }
      if (r.aspace >= 0)
        {
          struct rlimit l = { rlim_t (r.aspace), rlim_t (r.aspace) };
          setrlimit (RLIMIT_AS, &l);
        }
      if (r.env.empty ())
        execv (a[0], a.data ());
      else
        execve (a[0], a.data (), e.data ());
      _exit (127);
    }
  auto t0 = std::chrono::steady_clock::now ();
  int spin = 0;
  while (waitpid (c, &p.status, WNOHANG) == 0)
    {
      double t = std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count ();
      if (t > r.limit)
        {
          kill (c, SIGKILL);
          waitpid (c, &p.status, 0);
          p.hung = true;
          break;
        }
      usleep (++spin < 50 ? 100 : 1000);
    }
  if (r.out_device.empty ())
    p.out = slurp_fd (fo);
  p.err = slurp_fd (fe);
  close (fi);
  close (fo);
  close (fe);
  return p;
}

} // namespace mc
