/* dl PATH...: loads shared builds of the library at run time, several of them
   at once, uses them as a program compiled years ago would, unloads and reloads
   them, in threads that outlive them.  Arguments narrower than a register come with rubbish in its upper half
   where the calling convention leaves that half undefined. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <sched.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <dirent.h>
#include "ref.h"

#if defined(__x86_64__) || defined(__aarch64__)
typedef uint64_t uint_arg;
#define RUBBISH(n) ((uint64_t)(n) | (uint64_t)rnd32() << 32)
#else
typedef unsigned int uint_arg;
#define RUBBISH(n) (n)
#endif
struct entry { unsigned char *data; unsigned int len; };
struct lib {
  const char *path;
  void *h;
  void *(*key_alloc)(void), *(*bs_key_alloc)(void);
  void (*key_free)(void *), (*bs_key_free)(void *);
  void (*key_set)(const unsigned char *, void *), (*bs_key_set)(const unsigned char *, void *);
  void (*enc)(const void *, unsigned char *, uint_arg), (*dec)(const void *, unsigned char *, uint_arg);
  void (*bs_enc)(const void *, const struct entry *, uint_arg), (*bs_dec)(const void *, const struct entry *, uint_arg);
  unsigned int (*size)(void);
  void *k, *bk;
  unsigned char cw[8];
  unsigned n;
};
static uint32_t seed = 12345;
static uint32_t rnd32(void)
{
  seed = seed * 1664525 + 1013904223;
  return seed ^ seed >> 15;
}
static int bad;
static void viol(const char *key, const char *path, const char *detail)
{
  printf("VIOL %s case=0 %s: %s\n", key, strrchr(path, '=') ? strrchr(path, '=') + 1 : path, detail ? detail : "");
  bad++;
}
/* ---- what a program can see of its process ---------------------------------
   Taken before and after: nothing the library does may change it. */
enum { SNAP = 400 };
struct snap { int n; const char *what[SNAP]; uint64_t v[SNAP]; };
static uint64_t mix(uint64_t h, const void *p, size_t n)
{
  const unsigned char *c = p;
  while (n--) h = (h ^ *c++) * 0x100000001b3ULL;
  return h;
}
static void put(struct snap *s, const char *what, uint64_t v)
{
  if (s->n < SNAP) s->what[s->n] = what, s->v[s->n++] = v;
}
static long entries(const char *dir)
{
  DIR *d = opendir(dir);
  long k = 0;
  if (!d) return -1;
  while (readdir(d)) k++;
  closedir(d);
  return k;
}
extern char **environ;
static char tokens[8];
/* The C library's state that a program shares with everything linked to it. */
static void shared_state(struct snap *s)
{
  put(s, "sequence of rand()", (uint64_t)rand() << 32 | (unsigned)rand());
  put(s, "sequence of lrand48()", (uint64_t)lrand48() << 32 | (unsigned)lrand48());
  srand(7);
  srand48(7);
  put(s, "sequence of strtok()", mix(1, strtok(NULL, ",") ? "y" : "n", 1));
  strtok(strcpy(tokens, "a,b,c"), ",");
  put(s, "buffering of stdout", __fbufsize(stdout) * 4 + __flbf(stdout));
  put(s, "buffering of stderr", __fbufsize(stderr) * 4 + __flbf(stderr));
  put(s, "option parsing", optind * 16 + opterr);
  put(s, "scheduling policy", sched_getscheduler(0));
}
static void snapshot(struct snap *s)
{
  struct sigaction sa;
  sigset_t set;
  struct rlimit rl;
  struct itimerval it;
  stack_t ss;
  char b[4096], *l;
  int i;
  uint64_t h = 1;
  FILE *f;
  s->n = 0;
  for (i = 1; i < 65; i++)
    {
      if (sigaction(i, NULL, &sa)) continue;
      h = (uint64_t)(uintptr_t)sa.sa_sigaction;
      h ^= (uint64_t)(unsigned)sa.sa_flags << 40;
      put(s, "signal disposition", h);
    }
  pthread_sigmask(SIG_BLOCK, NULL, &set);
  for (i = 1, h = 0; i < 65; i++) h = h * 2 + (sigismember(&set, i) == 1) + h / 3;
  put(s, "signal mask", h);
  memset(&ss, 0, sizeof ss);
  sigaltstack(NULL, &ss);
  put(s, "alternate signal stack", (uint64_t)(uintptr_t)ss.ss_sp ^ (unsigned)ss.ss_flags);
#if defined(__x86_64__)
  unsigned mx;
  unsigned short cw;
  __asm__ volatile("stmxcsr %0" : "=m"(mx));
  __asm__ volatile("fnstcw %0" : "=m"(cw));
  put(s, "MXCSR", mx & ~0x3fu);
  put(s, "x87 control word", cw);
#elif defined(__aarch64__)
  uint64_t fp;
  __asm__ volatile("mrs %0, fpcr" : "=r"(fp));
  put(s, "FPCR", fp);
#endif
  put(s, "rounding mode", fegetround());
  volatile double tiny = 4.9e-324, one = 1.0;
  put(s, "subnormal arithmetic", tiny * one != 0.0);
  for (i = 0; i < 16; i++)
    if (!getrlimit(i, &rl)) put(s, "resource limit", rl.rlim_cur * 31 + rl.rlim_max);
  for (i = 0; i < 3; i++)
    {
      memset(&it, 0, sizeof it);
      getitimer(i, &it);
      put(s, "interval timer", it.it_interval.tv_usec || it.it_value.tv_usec || it.it_value.tv_sec);
    }
  errno = 0;
  put(s, "priority", getpriority(PRIO_PROCESS, 0));
  mode_t um = umask(077);
  umask(um);
  put(s, "umask", um);
  put(s, "working directory", getcwd(b, sizeof b) ? mix(1, b, strlen(b)) : 0);
  l = setlocale(LC_ALL, NULL);
  put(s, "locale", l ? mix(1, l, strlen(l)) : 0);
  shared_state(s);
  put(s, "environ", (uint64_t)(uintptr_t)environ);
  for (i = 0, h = 1; environ[i]; i++) h = mix(h, environ[i], strlen(environ[i]));
  put(s, "environment", h);
  put(s, "open files", entries("/proc/self/fd"));
  put(s, "threads", entries("/proc/self/task"));
  for (i = 0; i < 3; i++)
    {
      struct stat st;
      put(s, "standard stream", fstat(i, &st) ? 0 : st.st_ino);
    }
#if defined(__x86_64__)         /* an emulator would show its own */
  memset(b, 0, sizeof b);
  prctl(PR_GET_NAME, b);
  put(s, "thread name", mix(1, b, 16));
  put(s, "dumpable", prctl(PR_GET_DUMPABLE));
  put(s, "no_new_privs", prctl(PR_GET_NO_NEW_PRIVS, 0, 0, 0, 0));
  put(s, "timer slack", prctl(PR_GET_TIMERSLACK));
  int wx = 0, xstack = 0;
  if ((f = fopen("/proc/self/maps", "r")))
    {
      while (fgets(b, sizeof b, f))
        {
          char *m = strchr(b, ' ');
          if (!m || strlen(m) < 5) continue;
          if (m[2] == 'w' && m[3] == 'x') wx++;
          if (strstr(b, "[stack]")) xstack = m[3] == 'x';
        }
      fclose(f);
    }
  put(s, "memory both writable and executable", wx);
  put(s, "executable stack", xstack);
  if ((f = fopen("/proc/self/status", "r")))
    {
      while (fgets(b, sizeof b, f))
        if (!strncmp(b, "VmLck:", 6) || !strncmp(b, "Seccomp:", 8) || !strncmp(b, "Cpus_allowed:", 13) || !strncmp(b, "CapEff:", 7))
          put(s, "process status", mix(1, b, strlen(b)));
      fclose(f);
    }
#endif
}
static long snaps, looked;
static int watch;               /* only for C28 */
static void compare(const struct snap *a, const struct snap *b, const char *path, const char *after)
{
  char m[300];
  snaps++;
  looked += a->n;
  if (a->n != b->n) { viol("process-state", path, after); return; }
  for (int i = 0; i < a->n; i++)
    if (a->v[i] != b->v[i])
      {
        /* a thread that was joined may not be quite gone yet */
        if (!strcmp(a->what[i], "threads") && b->v[i] < a->v[i]) continue;
        snprintf(m, sizeof m, "%s changed the process: %s: %llx, was %llx", after, a->what[i], (unsigned long long)b->v[i], (unsigned long long)a->v[i]);
        viol("process-state", path, m);
        return;
      }
}
static int sym(struct lib *l, void *where, const char *name)
{
  void *p = dlsym(l->h, name);
  memcpy(where, &p, sizeof p);
  if (!p) viol("function-missing", l->path, name);
  return !!p;
}
static struct snap s0, s1;
#define AFTER(what) do { if (!watch) break; snapshot(&s1); compare(&s0, &s1, l->path, what); } while (0)
static int load(struct lib *l)
{
  snapshot(&s0);
  l->h = dlopen(l->path, (rnd32() & 16 ? RTLD_NOW : RTLD_LAZY) | RTLD_LOCAL);
  if (!l->h) { viol("does-not-load", l->path, dlerror()); return 0; }
  if (!(sym(l, &l->key_alloc, "dvbcsa_key_alloc") & sym(l, &l->key_free, "dvbcsa_key_free") & sym(l, &l->key_set, "dvbcsa_key_set") &
        sym(l, &l->enc, "dvbcsa_encrypt") & sym(l, &l->dec, "dvbcsa_decrypt") &
        sym(l, &l->bs_key_alloc, "dvbcsa_bs_key_alloc") & sym(l, &l->bs_key_free, "dvbcsa_bs_key_free") & sym(l, &l->bs_key_set, "dvbcsa_bs_key_set") &
        sym(l, &l->size, "dvbcsa_bs_batch_size") & sym(l, &l->bs_enc, "dvbcsa_bs_encrypt") & sym(l, &l->bs_dec, "dvbcsa_bs_decrypt")))
    return 0;
  AFTER("loading");
  l->k = l->key_alloc();
  l->bk = l->bs_key_alloc();
  AFTER("allocating contexts");
  l->n = l->size();
  if (!l->k || !l->bk || l->n < 32 || l->n % 32 || l->n > 1024) { viol("unusable", l->path, "context allocation or batch size"); return 0; }
  for (int i = 0; i < 8; i++) l->cw[i] = rnd32();
  l->key_set(l->cw, l->k);
  l->bs_key_set(l->cw, l->bk);
  AFTER("key setup");
  return 1;
}
static void unload(struct lib *l)
{
  snapshot(&s0);
  l->key_free(l->k);
  l->bs_key_free(l->bk);
  AFTER("releasing contexts");
  dlclose(l->h);
  AFTER("unloading");
  l->h = NULL;
}
static long calls;
static int use(struct lib *l)
{
  static unsigned char p[1024][184], e[1024][184];
  static struct entry d[1025];
  struct ref_key rk;
  unsigned i, n, ml = 8 * (rnd32() % 24);
  int enc = rnd32() & 1;
  if (watch && rnd32() % 4 == 0) snapshot(&s0); else s0.n = 0;
  ref_key_set(&rk, l->cw);
  n = rnd32() % 3 ? l->n : rnd32() % (l->n + 1);
  for (i = 0; i < n; i++)
    {
      unsigned len = rnd32() % 4 ? 184 : rnd32() % 185, m;
      for (int j = 0; j < 184; j += 4) { uint32_t v = rnd32(); memcpy(p[i] + j, &v, 4); }
      memcpy(e[i], p[i], 184);
      d[i].data = p[i], d[i].len = len;
      m = len < ml ? len : ml;
      if (enc) ref_encrypt(&rk, e[i], m); else ref_decrypt(&rk, e[i], m);
    }
  d[n].data = NULL;
  d[n].len = rnd32();
  (enc ? l->bs_enc : l->bs_dec)(l->bk, d, RUBBISH(ml));
  for (i = 0; i < n; i++) if (memcmp(p[i], e[i], 184)) { viol("wrong-result", l->path, "batch"); return 0; }
  for (i = 0; i < 3; i++)
    {
      unsigned len = rnd32() % 185;
      memset(p[i], i, 184);
      memset(e[i], i, 184);
      if (enc) ref_encrypt(&rk, e[i], len); else ref_decrypt(&rk, e[i], len);
      (enc ? l->enc : l->dec)(l->k, p[i], RUBBISH(len));
      if (memcmp(p[i], e[i], 184)) { viol("wrong-result", l->path, "single"); return 0; }
    }
  if (s0.n) AFTER("processing");
  calls += 4;
  return 1;
}
static struct lib l[64];
static int n;
static long rounds = 20, loads;
/* One life: libraries come and go; at the end, all or some of them are gone
   while the thread that called them is still to exit. */
static void *life(void *keep)
{
  long q, todo = rounds * n / 8 + 1;
  int i;
  for (q = 0; q < todo && !bad; q++)
    {
      i = rnd32() % n;
      if (!l[i].h) { if (!load(&l[i])) break; loads++; }
      else if (rnd32() % 4 == 0) { unload(&l[i]); continue; }
      if (!use(&l[i])) break;
    }
  if (!bad) for (i = 0; i < n; i++) if (l[i].h && (!keep || rnd32() & 1)) unload(&l[i]);
  return NULL;
}
int main(int argc, char **argv)
{
  int i;
  for (i = 1; i < argc && n < 64; i++)
    if (!strncmp(argv[i], "lib=", 4)) l[n++].path = argv[i] + 4;
    else if (!strncmp(argv[i], "watch=", 6)) watch = atoi(argv[i] + 6);
    else if (!strncmp(argv[i], "rounds=", 7)) rounds = atol(argv[i] + 7);
    else if (!strncmp(argv[i], "seed=", 5)) seed = atol(argv[i] + 5);
  srand(7);
  srand48(7);
  strtok(strcpy(tokens, "a,b,c"), ",");
  ref_init();
  for (i = 0; i < 8 && !bad; i++)
    {
      pthread_t t;
      if (pthread_create(&t, NULL, life, rnd32() & 1 ? l : NULL)) return 3;
      pthread_join(t, NULL);
    }
  if (!bad) life(rnd32() & 1 ? l : NULL);
  printf("STAT libraries %d\nSTAT loads %ld\nSTAT library_calls %ld\nSTAT threads 9\nSTAT snapshots_compared %ld\nSTAT facts_compared %ld\nSTAT evaluations %ld\nSTAT distinct %ld\nDONE\n", n, loads, calls, snaps, looked, calls + snaps, loads);
  return 0;
}
