/* Stands in for the commands a script uses: does the real thing unless this is the step to fail.
   STUB_COUNT file with one byte per step so far, STUB_AT step to fail, STUB_MODE what happens then:
     1 fails without doing anything   2 does it and fails   3 does half of it and fails
     4 the script is killed before it 5 killed after it     6 killed halfway
   STUB_REAL directory list of the real commands.  The command applied to files is called "user-cmd-2x". */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static void
die (void)
{
  kill (0, SIGKILL); /* the process group of the script */
  _exit (99);
}

static char *
slurp (const char *f, long *n)
{
  int fd = open (f, O_RDONLY);
  char *b = malloc (1 << 16);
  *n = fd < 0 ? -1 : read (fd, b, 1 << 16);
  if (fd >= 0)
    close (fd);
  return b;
}

static int
spit (const char *f, const char *b, long n)
{
  int fd = open (f, O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0)
    return 1;
  if (write (fd, b, n) != n)
    return 1;
  close (fd);
  return 0;
}

/* The command: writes "new:" and the source in the given way. APPLY=<digit per call>:
   0 works, 1 fails at once, 2 writes half and fails, 3 succeeds without a target, 4 writes an empty target,
   5 the target is complete but it fails, 6 truncates the target before it reads the source (like a redirection) */
static int
apply (int argc, char **argv, int call, int half)
{
  const char *plan = getenv ("APPLY");
  int k = plan && (int) strlen (plan) > call ? plan[call] - '0' : 0;
  long n;
  char *b, *o;
  if (argc != 3)
    return 3;
  if (k == 1)
    return 1;
  if (k == 3)
    return 0;
  if (k == 4)
    return spit (argv[2], "", 0);
  if (k == 6 && spit (argv[2], "", 0))
    return 1;
  b = slurp (argv[1], &n);
  if (n < 0)
    return 1;
  o = malloc (n + 10);
  memcpy (o, "new:", 4);
  memcpy (o + 4, b, n);
  if (k == 2 || half)
    {
      spit (argv[2], o, (n + 4) / 2);
      return 1;
    }
  if (spit (argv[2], o, n + 4))
    return 1;
  return k == 5;
}

static int
really (const char *name, int argc, char **argv, int half)
{
  int status;
  pid_t p;
  if (half && argc > 2 && (!strcmp (name, "cp") || !strcmp (name, "mv")))
    {
      /* as when a copy is interrupted */
      struct stat s;
      long n;
      char *b = slurp (argv[argc - 2], &n);
      char *to = malloc (strlen (argv[argc - 1]) + strlen (argv[argc - 2]) + 2);
      strcpy (to, argv[argc - 1]);
      if (stat (to, &s) == 0 && S_ISDIR (s.st_mode))
        {
          const char *base = strrchr (argv[argc - 2], '/');
          strcat (to, "/");
          strcat (to, base ? base + 1 : argv[argc - 2]);
        }
      if (n >= 0)
        {
          struct stat t;
          if (!(stat (to, &s) == 0 && stat (argv[argc - 2], &t) == 0 && s.st_ino == t.st_ino && s.st_dev == t.st_dev))
            spit (to, b, n / 2);
        }
      return 1;
    }
  p = fork ();
  if (p == 0)
    {
      const char *dirs = getenv ("STUB_REAL");
      char path[4096];
      while (dirs && *dirs)
        {
          int l = (int) strcspn (dirs, ":");
          snprintf (path, sizeof path, "%.*s/%s", l, dirs, name);
          execv (path, argv);
          dirs += l + (dirs[l] == ':');
        }
      _exit (127);
    }
  waitpid (p, &status, 0);
  return WIFEXITED (status) ? WEXITSTATUS (status) : 99;
}

int
main (int argc, char **argv)
{
  const char *name = strrchr (argv[0], '/') ? strrchr (argv[0], '/') + 1 : argv[0];
  const char *f = getenv ("STUB_COUNT"), *at = getenv ("STUB_AT"), *m = getenv ("STUB_MODE"), *only = getenv ("STUB_NAME");
  int mode = m ? atoi (m) : 0, is_apply = !strcmp (name, "user-cmd-2x"), r;
  long step = -1, applied = 0;
  if (f)
    {
      int fd = open (f, O_RDWR | O_CREAT, 0666);
      char b[4096];
      long n = read (fd, b, sizeof b), i;
      for (i = 0; i < n; ++i)
        applied += b[i] == 'a';
      step = n;
      if (write (fd, is_apply ? "a" : "x", 1) != 1)
        return 98;
      close (fd);
    }
  if (only ? strcmp (only, name) != 0 : !at || atol (at) != step)
    mode = 0;
  if (mode == 1)
    return 1;
  if (mode == 4)
    die ();
  r = is_apply ? apply (argc, argv, (int) applied, mode == 3 || mode == 6) : really (name, argc, argv, mode == 3 || mode == 6);
  if (mode >= 5)
    die ();
  return mode ? 1 : r;
}
