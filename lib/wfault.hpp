// Runs a program whose writes to the standard output are decided one by one: each can be let through, fail with an
// error, or be cut short. (seccomp user notification of write and writev with descriptor 1)
#pragma once
#include "proc.hpp"
#include <cerrno>
#include <cstddef>
#include <functional>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>

namespace mc
{

// Decision: 0 lets the write through, -errno fails it, n > 0 writes n bytes only.
typedef std::function<long (int, size_t)> Write_Decision;

inline int
fault_child_filter ()
{
  struct sock_filter f[] = {
    BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (struct seccomp_data, nr)),
    BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, SYS_write, 1, 0),
    BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, SYS_writev, 0, 3),
    BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (struct seccomp_data, args[0])),
    BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, 1, 0, 1),
    BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_USER_NOTIF),
    BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
  };
  struct sock_fprog p = { sizeof f / sizeof f[0], f };
  if (prctl (PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0)
    return -1;
  return int (syscall (SYS_seccomp, SECCOMP_SET_MODE_FILTER, SECCOMP_FILTER_FLAG_NEW_LISTENER, &p));
}

// Returns false if the kernel does not support this.
inline bool
run_deciding (const Run &r, const Write_Decision &decide, Proc &p, int &writes)
{
  p = Proc ();
  writes = 0;
  int fi = mem_file (r.in), fo = mem_file (""), fe = mem_file ("");
  int sv[2];
  if (socketpair (AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0, sv) != 0)
    abort ();
  std::vector<char *> a, e;
  for (auto &s : r.argv)
    a.push_back (const_cast<char *> (s.c_str ()));
  a.push_back (nullptr);
  for (auto &s : r.env)
    e.push_back (const_cast<char *> (s.c_str ()));
  e.push_back (nullptr);
  pid_t c = fork ();
  if (c == 0)
    {
      dup2 (fi, 0);
      dup2 (fo, 1);
      dup2 (fe, 2);
      if (!r.cwd.empty () && chdir (r.cwd.c_str ()) != 0)
        _exit (126);
      int fd = fault_child_filter ();
      char byte = fd >= 0 ? 'y' : 'n';
      struct iovec io = { &byte, 1 };
      union
      {
        char buf[CMSG_SPACE (sizeof (int))];
        struct cmsghdr align;
      } u;
      struct msghdr m = {};
      m.msg_iov = &io;
      m.msg_iovlen = 1;
      if (fd >= 0)
        {
          m.msg_control = u.buf;
          m.msg_controllen = sizeof u.buf;
          struct cmsghdr *h = CMSG_FIRSTHDR (&m);
          h->cmsg_level = SOL_SOCKET;
          h->cmsg_type = SCM_RIGHTS;
          h->cmsg_len = CMSG_LEN (sizeof (int));
          memcpy (CMSG_DATA (h), &fd, sizeof fd);
        }
      if (sendmsg (sv[1], &m, 0) != 1 || fd < 0)
        _exit (125);
      close (fd);
      if (r.env.empty ())
        execv (a[0], a.data ());
      else
        execve (a[0], a.data (), e.data ());
      _exit (127);
    }
  close (sv[1]);
  int listener = -1;
  {
    char byte = 'n';
    struct iovec io = { &byte, 1 };
    union
    {
      char buf[CMSG_SPACE (sizeof (int))];
      struct cmsghdr align;
    } u;
    struct msghdr m = {};
    m.msg_iov = &io;
    m.msg_iovlen = 1;
    m.msg_control = u.buf;
    m.msg_controllen = sizeof u.buf;
    if (recvmsg (sv[0], &m, MSG_CMSG_CLOEXEC) == 1 && byte == 'y')
      if (struct cmsghdr *h = CMSG_FIRSTHDR (&m))
        memcpy (&listener, CMSG_DATA (h), sizeof listener);
  }
  close (sv[0]);
  auto t0 = std::chrono::steady_clock::now ();
  if (listener >= 0)
    {
      for (;;)
        {
          if (std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count () > r.limit)
            {
              kill (c, SIGKILL);
              p.hung = true;
              break;
            }
          struct pollfd pf = { listener, POLLIN, 0 };
          int n = poll (&pf, 1, 200);
          if (n <= 0)
            {
              siginfo_t si;
              si.si_pid = 0;
              if (waitid (P_PID, c, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == c)
                break;
              continue;
            }
          if (!(pf.revents & POLLIN))
            break; // no task left
          struct seccomp_notif q;
          memset (&q, 0, sizeof q);
          if (ioctl (listener, SECCOMP_IOCTL_NOTIF_RECV, &q) != 0)
            continue;
          struct seccomp_notif_resp s;
          memset (&s, 0, sizeof s);
          s.id = q.id;
          const size_t size = q.data.nr == SYS_write ? size_t (q.data.args[2]) : 0;
          const long d = decide (writes++, size);
          if (d < 0)
            s.error = int (d);
          else if (d > 0 && size_t (d) < size)
            {
              std::string b (d, 0);
              struct iovec here = { &b[0], size_t (d) }, there = { (void *)q.data.args[1], size_t (d) };
              if (process_vm_readv (q.pid, &here, 1, &there, 1, 0) == d && ::write (fo, b.data (), d) == d)
                s.val = d;
              else
                s.flags = SECCOMP_USER_NOTIF_FLAG_CONTINUE;
            }
          else
            s.flags = SECCOMP_USER_NOTIF_FLAG_CONTINUE;
          ioctl (listener, SECCOMP_IOCTL_NOTIF_SEND, &s);
        }
      close (listener);
    }
  waitpid (c, &p.status, 0);
  p.out = slurp_fd (fo);
  p.err = slurp_fd (fe);
  close (fi);
  close (fo);
  close (fe);
  return listener >= 0;
}

} // namespace mc
