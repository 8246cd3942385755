#include "common.h"
#include <signal.h>
#include <sys/mman.h>
#include <fcntl.h>

uint64_t SEED = 1;
volatile uint64_t cur_case;
static volatile uint64_t *casefile;
static int g_argc;
static char **g_argv;
static unsigned n_viol;
static uint64_t n_eval;

void die(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  fprintf(stdout, "HARNESS-ERROR ");
  vfprintf(stdout, fmt, ap);
  fprintf(stdout, "\n");
  fflush(stdout);
  _exit(70);
}

const char *arg_str(const char *name, const char *dflt)
{
  size_t l = strlen(name);
  for (int i = 2; i < g_argc; i++)
    if (!strncmp(g_argv[i], name, l) && g_argv[i][l] == '=')
      return g_argv[i] + l + 1;
  return dflt;
}
uint64_t arg_u64(const char *name, uint64_t dflt)
{
  const char *s = arg_str(name, NULL);
  return s ? strtoull(s, NULL, 0) : dflt;
}

void case_begin(uint64_t idx)
{
  cur_case = idx;
  if (casefile)
    {                           /* decimal text: readable on any byte order */
      volatile char *p = (volatile char *)casefile;
      for (int i = 19; i >= 0; i--, idx /= 10)
        p[i] = '0' + idx % 10;
    }
}

void viol(const char *key, const char *fmt, ...)
{
  va_list ap;
  if (n_viol++ >= 20)
    return;
  printf("VIOL %s case=%llu ", key, (unsigned long long)cur_case);
  va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
  printf("\n");
  fflush(stdout);
}
int too_many(void) { return n_viol >= 20; }

static struct { const char *name; uint64_t v; } stats[128];
void stat_add(const char *name, uint64_t v)
{
  for (int i = 0; i < 128; i++)
    {
      if (!stats[i].name)
        stats[i].name = strdup(name);
      if (stats[i].name == name || !strcmp(stats[i].name, name))
        {
          stats[i].v += v;
          return;
        }
    }
}
void nontrivial_eval(uint64_t n) { n_eval += n; }

static int n_sample;
void sample(const char *fmt, ...)
{
  va_list ap;
  if (n_sample++ >= 2)
    return;
  printf("SAMPLE ");
  va_start(ap, fmt);
  vprintf(fmt, ap);
  va_end(ap);
  printf("\n");
}

static uint64_t *dset;
static size_t dcap, dcnt;
void distinct(uint64_t h)
{
  if (!h) h = 1;
  if (dcnt * 2 >= dcap)
    {
      size_t ncap = dcap ? dcap * 2 : 4096;
      uint64_t *n = calloc(ncap, 8);
      if (!n) die("out of memory");
      for (size_t i = 0; i < dcap; i++)
        if (dset[i])
          {
            size_t j = dset[i] & (ncap - 1);
            while (n[j]) j = (j + 1) & (ncap - 1);
            n[j] = dset[i];
          }
      free(dset);
      dset = n;
      dcap = ncap;
    }
  size_t j = h & (dcap - 1);
  while (dset[j])
    {
      if (dset[j] == h) return;
      j = (j + 1) & (dcap - 1);
    }
  dset[j] = h;
  dcnt++;
}

const char *hex(const void *p, size_t n)
{
  static char ring[8][2 * 200 + 8];
  static int k;
  char *o = ring[k++ & 7], *s = o;
  size_t m = n > 200 ? 200 : n;
  for (size_t i = 0; i < m; i++, s += 2)
    sprintf(s, "%02x", ((const uint8_t *)p)[i]);
  if (m < n) strcpy(s, "...");
  return o;
}

/* ---- generator ---- */
static uint64_t mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
uint64_t hash_bytes(uint64_t h, const void *p, size_t n)
{
  const uint8_t *b = p;
  uint64_t w;
  while (n >= 8)
    {
      w = (uint64_t)b[0] | (uint64_t)b[1] << 8 | (uint64_t)b[2] << 16 | (uint64_t)b[3] << 24
        | (uint64_t)b[4] << 32 | (uint64_t)b[5] << 40 | (uint64_t)b[6] << 48 | (uint64_t)b[7] << 56;
      h = (h ^ w) * 0x9e3779b97f4a7c15ULL;
      h ^= h >> 29;
      b += 8, n -= 8;
    }
  while (n--)
    h = (h ^ *b++) * 0x100000001b3ULL;
  return mix(h);
}
static __thread uint8_t last_cw[8];                      /* of this case: payloads may repeat it */
rng_t rng_for(const char *tag, uint64_t idx)
{
  rng_t r;
  memset(last_cw, 0, 8);
  uint64_t h = hash_bytes(SEED * 0x9e3779b97f4a7c15ULL + 77, tag, strlen(tag));
  r.s[0] = mix(h ^ mix(idx));
  r.s[1] = mix(r.s[0] + idx) | 1;
  return r;
}
uint64_t rnd(rng_t *r)
{                               /* xorshift128+ */
  uint64_t a = r->s[0], b = r->s[1];
  r->s[0] = b;
  a ^= a << 23;
  r->s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
  return r->s[1] + b;
}
void rnd_bytes(rng_t *r, void *p, size_t n)
{
  uint8_t *b = p;
  while (n >= 8)
    {
      uint64_t v = rnd(r);
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
      v = __builtin_bswap64(v);
#endif
      memcpy(b, &v, 8);
      b += 8, n -= 8;
    }
  uint64_t v = rnd(r);
  while (n--)
    *b++ = v, v >>= 8;
}
void gen_cw(rng_t *r, uint8_t cw[8])
{
  unsigned i;
  rnd_bytes(r, cw, 8);
  switch (rnd_n(r, 20))
    {
    case 0: memset(cw, 0, 8); break;
    case 1: memset(cw, 0xff, 8); break;
    case 2: { unsigned b = rnd_n(r, 64); memset(cw, 0, 8); cw[b / 8] = 1 << (b & 7); break; }
    case 3: { unsigned b = rnd_n(r, 64); memset(cw, 0xff, 8); cw[b / 8] ^= 1 << (b & 7); break; }
    case 4:
    case 5: cw[3] = cw[0] + cw[1] + cw[2]; cw[7] = cw[4] + cw[5] + cw[6]; break;
    case 6: memset(cw + (rnd(r) & 4), 0, 4); break;
    case 7: memset(cw, cw[0], 8); break;
    case 8: cw[rnd_n(r, 8)] = 0; cw[rnd_n(r, 8)] = 0xff; break;
    case 9: cw[3] = cw[7] = rnd(r) & 1 ? 0 : 0xff; break;
    case 10: memcpy(cw + 4, cw, 4); break;                      /* equal halves */
    case 11: for (i = 0; i < 4; i++) cw[4 + i] = ~cw[i]; break; /* complementary ones */
    case 12: for (i = 0; i < 4; i++) cw[7 - i] = cw[i]; break;
    case 13: for (i = 0; i < 8; i++) cw[i] = (cw[i] & 15) * 0x11; break;  /* equal nibbles */
    case 14: for (i = 0; i < 8; i++) cw[i] &= 0x7f; break;
    case 15: if (rnd(r) & 1) { memcpy(cw, last_cw, 8); i = rnd_n(r, 64); cw[i / 8] ^= 1 << (i & 7); }
             else memcpy(cw, last_cw + 4, 4), memcpy(cw + 4, last_cw, 4);
             break;                                             /* close to the one before */
    default: break;
    }
  memcpy(last_cw, cw, 8);
}
static void special_block(rng_t *r, uint8_t *b)
{
  switch (rnd_n(r, 8))
    {
    case 0: case 1: memset(b, 0, 8); break;
    case 2: memset(b, 0xff, 8); break;
    case 3: memset(b, rnd(r), 8); break;
    case 4: memcpy(b, last_cw, 8); break;
    case 5: rnd_bytes(r, b, 8); memset(b + 4 * (rnd(r) & 1), 0, 4); break;      /* half of it zero */
    case 6: rnd_bytes(r, b, 4); memcpy(b + 4, b, 4); break;
    default: memset(b, 0, 8); b[rnd_n(r, 8)] = 1 << rnd_n(r, 8); break;
    }
}
/* A payload whose chain of blocks meets special values on the way through the
   block cipher: what goes into it, what comes out of it, the first block being
   what the stream is started from. */
static void gen_chain(rng_t *r, uint8_t *p, size_t n)
{
  static __thread struct ref_key rk;
  static __thread int have;
  uint8_t y[8] = { 0 }, x[8];
  long i;
  if (!have || memcmp(rk.cw, last_cw, 8)) ref_key_set(&rk, last_cw), have = 1;
  int all = rnd_n(r, 3) == 0, out = rnd(r) & 1;
  rnd_bytes(r, p, n);
  for (i = (long)(n / 8) - 1; i >= 0; i--)
    {
      uint8_t *b = p + 8 * i;
      int sp = all || rnd_n(r, 3) == 0 || (i == 0 && (rnd(r) & 1)), j;
      int at_out = i == 0 ? rnd_n(r, 4) != 0 : out;
      if (sp && at_out) { special_block(r, x); memcpy(b, x, 8); ref_block_dec(rk.kk, b); }
      else if (sp) { special_block(r, b); }
      else for (j = 0; j < 8; j++) b[j] ^= y[j];
      /* b: the input of the block cipher here; the plaintext is b ^ y */
      memcpy(x, b, 8);
      ref_block_enc(rk.kk, x);
      for (j = 0; j < 8; j++) b[j] ^= y[j];
      memcpy(y, x, 8);
    }
  if (rnd_n(r, 3) == 0) ref_encrypt(&rk, p, n);
}
void gen_payload(rng_t *r, uint8_t *p, size_t n)
{
  size_t i;
  switch (rnd_n(r, 16))
    {
    case 14: if (n <= 2000) { gen_chain(r, p, n); break; } rnd_bytes(r, p, n); break;
    case 15:                                   /* scrambled from something simple */
      if (n <= 2000)
        {
          struct ref_key rk;
          ref_key_set(&rk, last_cw);
          memset(p, rnd_n(r, 3) ? (rnd(r) & 1 ? 0 : 0xff) : rnd(r), n);
          if (n && rnd_n(r, 3) == 0) rnd_bytes(r, p, rnd_n(r, n));
          ref_encrypt(&rk, p, n);
          break;
        }
      rnd_bytes(r, p, n);
      break;
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0, n); if (n) p[rnd_n(r, n)] = 1 << rnd_n(r, 8); break;
    case 3: { uint8_t x = rnd(r); for (i = 0; i < n; i++) p[i] = x + i; break; }
    case 4: rnd_bytes(r, p, n); if (n >= 8) memset(p, rnd(r) & 1 ? 0 : 0xff, 8); break;
    case 5: rnd_bytes(r, p, n); for (i = 8; i < n; i++) p[i] = p[i - 8]; break;      /* one block over and over */
    case 6: rnd_bytes(r, p, n); if (n >= 8) memcpy(p, last_cw, 8); break;            /* the control word itself */
    case 7: rnd_bytes(r, p, n);
            if (n >= 16) { size_t b = 8 * (1 + rnd_n(r, n / 8 - 1)); memcpy(p + b, p + b - 8, 8); }
            break;                                                                   /* two equal blocks */
    case 8: rnd_bytes(r, p, n);
            if (n >= 16) { size_t b = 8 * rnd_n(r, n / 8); memset(p + b, rnd(r) & 1 ? 0 : 0xff, 8); }
            break;                                                                   /* one constant block */
    default: rnd_bytes(r, p, n); break;
    }
}
unsigned gen_len(rng_t *r, unsigned max)
{
  static const unsigned edge[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 31, 32,
    33, 63, 64, 65, 127, 128, 129, 167, 168, 169, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184 };
  unsigned l;
  switch (rnd_n(r, 10))
    {
    case 0: case 1: l = max; break;
    case 2: case 3: l = rnd_n(r, (uint64_t)max + 1); break;
    case 4: case 5: l = edge[rnd_n(r, sizeof edge / sizeof *edge)]; break;
    case 6: l = 8 * rnd_n(r, max / 8 + 1); break;
    case 7: l = 8 * rnd_n(r, max / 8 + 1) + rnd_n(r, 3) - 1; break;
    case 8: l = rnd_n(r, 20); break;
    default: l = max - rnd_n(r, max < 16 ? max + 1 : 16); break;
    }
  if (l > max)
    l = rnd_n(r, (uint64_t)max + 1);
  return l;
}
unsigned gen_maxlen(rng_t *r)
{
  switch (rnd_n(r, 8))
    {
    case 0: case 1: case 2: return 184;
    case 3: return 8 * rnd_n(r, 4);
    case 4: return 176 - 8 * rnd_n(r, 3);
    default: return 8 * rnd_n(r, 24);
    }
}
unsigned bsz(void)
{
  unsigned n = dvbcsa_bs_batch_size();
  if (n < 1 || n > MAXB)
    {
      viol("batch-size", "dvbcsa_bs_batch_size() = %u", n);
      printf("DONE\n");
      fflush(stdout);
      _exit(0);
    }
  return n;
}
unsigned gen_count(rng_t *r, unsigned b)
{
  static const unsigned edge[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97,
    127, 128, 129, 191, 192, 193, 255, 256 };
  unsigned n;
  switch (rnd_n(r, 8))
    {
    case 0: case 1: n = b; break;
    case 2: n = 1; break;
    case 3: n = rnd_n(r, 6); break;
    case 4: n = edge[rnd_n(r, sizeof edge / sizeof *edge)]; break;
    case 5: n = b - rnd_n(r, 5); break;
    default: n = rnd_n(r, b + 1); break;
    }
  return n > b ? rnd_n(r, b + 1) : n;
}

struct batch *batch_new(void)
{
  struct batch *b = calloc(1, sizeof *b);
  if (!b) die("out of memory");
  b->memlen = MAXB * 720 + 4096;
  b->mem = malloc(b->memlen);
  b->copy = malloc(b->memlen);
  if (!b->mem || !b->copy) die("out of memory");
  return b;
}
void batch_gen(rng_t *r, struct batch *b, int over) { batch_gen2(r, b, over, ~0u, ~0u); }

void batch_gen2(rng_t *r, struct batch *b, int over, unsigned n, unsigned maxlen)
{
  unsigned i, B = bsz(), lim;
  static const unsigned longs[] = { 185, 186, 187, 188, 190, 191, 192, 193, 200, 204, 208, 255, 256, 257, 300, 368, 400 };
  gen_cw(r, b->cw);
  b->enc = rnd(r) & 1;
  b->n = n == ~0u ? gen_count(r, B) : n;
  b->maxlen = maxlen == ~0u ? gen_maxlen(r) : maxlen;
  b->lenmode = rnd_n(r, 8);
  b->layout = rnd_n(r, 6);
  lim = b->maxlen;
  for (i = 0; i < b->n; i++)
    {
      unsigned l;
      switch (b->lenmode)
        {
        case 0: case 1: l = lim; break;                              /* all full */
        case 2: l = (i == 0) ? gen_len(r, lim) : b->len[0]; break;   /* all the same */
        case 3: l = rnd_n(r, 10) ? lim : gen_len(r, lim); break;     /* mostly full */
        case 4: l = rnd_n(r, 10) ? rnd_n(r, 9) : gen_len(r, lim); break; /* mostly tiny */
        case 5: l = (i * 7 + 3) % (lim + 1); break;                  /* staircase */
        default: l = gen_len(r, lim); break;
        }
      if (l > lim) l = lim;
      if (over == LEN_OVER || (over == LEN_ANY && !rnd_n(r, 4)))
        switch (rnd_n(r, 6))
          {
          case 0: l = lim + 1 + rnd_n(r, 9); break;
          case 1: l = lim + rnd_n(r, 200); break;
          case 2: l = longs[rnd_n(r, sizeof longs / sizeof *longs)]; break;
          case 3: l = 184; break;
          case 4: l = lim + 8 * rnd_n(r, 10); break;
          default: break;                                            /* keep a short one */
          }
      b->len[i] = l;
    }
  batch_layout(r, b);
  if (rnd_n(r, 3))
    for (i = 0; i < b->n; i++)
      gen_payload(r, batch_orig(b, i), b->len[i]);
  batch_reset(b);
}

/* place payloads of the lengths b->len[] and fill the arena with noise */
void batch_layout(rng_t *r, struct batch *b)
{
  unsigned i, perm[MAXB];
  for (i = 0; i < b->n; i++)
    perm[i] = i;
  if (b->layout == 3 || b->layout == 5)                              /* shuffled in memory */
    for (i = b->n; i > 1; i--)
      {
        unsigned j = rnd_n(r, i), t = perm[j];
        perm[j] = perm[i - 1];
        perm[i - 1] = t;
      }
  else if (b->layout == 4)
    for (i = 0; i < b->n; i++)
      perm[i] = b->n - 1 - i;
  size_t off = rnd_n(r, 64);
  for (i = 0; i < b->n; i++)
    {
      unsigned k = perm[i];
      switch (b->layout)
        {
        case 0: case 3: break;                                       /* back to back */
        case 1: off += 4; break;                                     /* TS headers */
        default: off += rnd_n(r, 70); break;
        }
      b->d[k].data = b->mem + off;
      b->d[k].len = b->len[k];
      off += b->len[k];
    }
  b->d[b->n].data = NULL;
  b->d[b->n].len = rnd_n(r, 2) ? (unsigned)rnd(r) : 0;
  if (off + 64 > b->memlen) die("payload arena too small");
  rnd_bytes(r, b->copy, off + 64);
  batch_reset(b);
}
/* only the part of the arena in use differs from the copy */
size_t batch_used(struct batch *b)
{
  size_t e = 0;
  for (unsigned i = 0; i < b->n; i++)
    {
      size_t x = b->d[i].data - b->mem + b->len[i];
      if (x > e) e = x;
    }
  return e + 64;
}
void batch_reset(struct batch *b) { memcpy(b->mem, b->copy, batch_used(b)); }
uint64_t batch_hash(struct batch *b)
{
  uint64_t h = hash_bytes(b->enc, b->cw, 8);
  h = hash_bytes(h, &b->maxlen, 4);
  for (unsigned i = 0; i < b->n; i++)
    h = hash_bytes(h ^ b->len[i], batch_orig(b, i), b->len[i]);
  return h;
}
const char *batch_desc(struct batch *b)
{
  static char buf[2][400];
  static int k;
  char *o = buf[k++ & 1];
  int p = snprintf(o, 400, "%s cw=%s maxlen=%u n=%u layout=%d lens=", b->enc ? "encrypt" : "decrypt",
                   hex(b->cw, 8), b->maxlen, b->n, b->layout);
  for (unsigned i = 0; i < b->n && i < 12 && p < 360; i++)
    p += snprintf(o + p, 400 - p, "%u,", b->len[i]);
  if (b->n > 12) snprintf(o + p, 400 - p, "...");
  return o;
}

static void no_context(const char *fn)
{                               /* memory is plentiful: refusing is wrong */
  viol("context-refused", "%s() returned NULL", fn);
  printf("DONE\n");
  fflush(stdout);
  _exit(0);
}
struct dvbcsa_key_s *xkey(void)
{
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  if (!k) no_context("dvbcsa_key_alloc");
  return k;
}
struct dvbcsa_bs_key_s *xbskey(void)
{
  struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc();
  if (!k) no_context("dvbcsa_bs_key_alloc");
  return k;
}

long diffpos(const void *a, const void *b, size_t n)
{
  const uint8_t *x = a, *y = b;
  if (!memcmp(a, b, n)) return -1;
  for (size_t i = 0; i < n; i++)
    if (x[i] != y[i]) return (long)i;
  return -1;
}

size_t pgsz(void) { static size_t p; return p ? p : (p = sysconf(_SC_PAGESIZE)); }
uint8_t *guarded(size_t n)
{
  size_t P = pgsz(), m = (n + P - 1) / P * P;
  uint8_t *p = mmap(NULL, m + 2 * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) die("mmap");
  if (mprotect(p, P, PROT_NONE) || mprotect(p + P + m, P, PROT_NONE)) die("mprotect");
  return p + P;
}
void guarded_free(uint8_t *p, size_t n)
{
  size_t P = pgsz(), m = (n + P - 1) / P * P;
  munmap(p - P, m + 2 * P);
}

/* ---- crash attribution: async-signal-safe report ---- */
static char *fmt_u(char *p, uint64_t v, int base)
{
  char t[24];
  int n = 0;
  do t[n++] = "0123456789abcdef"[v % base]; while (v /= base);
  while (n) *p++ = t[--n];
  return p;
}
static void on_crash(int sig, siginfo_t *si, void *uc)
{
  char b[200], *p = b;
  (void)uc;
  const char *m = "CRASH sig=";
  while (*m) *p++ = *m++;
  p = fmt_u(p, sig, 10);
  m = " case=";
  while (*m) *p++ = *m++;
  p = fmt_u(p, cur_case, 10);
  m = " addr=0x";
  while (*m) *p++ = *m++;
  p = fmt_u(p, (uintptr_t)si->si_addr, 16);
  *p++ = '\n';
  if (write(1, b, p - b) < 0) {}
  _exit(77);
}
static void crash_setup(void)
{
  static uint8_t alt[65536];
  stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
  struct sigaction sa;
  int s[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
  sigaltstack(&ss, NULL);
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (unsigned i = 0; i < sizeof s / sizeof *s; i++)
    sigaction(s[i], &sa, NULL);
}

int main(int argc, char **argv)
{
  const char *f;
  g_argc = argc;
  g_argv = argv;
  if (argc < 2) die("usage: h MODE [name=value...]");
  SEED = arg_u64("seed", 1);
  if ((f = getenv("VCASE")))
    {
      int fd = open(f, O_RDWR | O_CREAT, 0600);
      if (fd >= 0 && !ftruncate(fd, 4096))
        {
          void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
          if (p != MAP_FAILED) casefile = p;
        }
    }
#if !defined(NO_CRASH_HANDLER)
  crash_setup();
#endif
  ref_init();
  case_begin(arg_u64("from", 0));
  const struct mode *tabs[] = { modes_func, modes_sys, modes_more };
  for (int t = 0; t < 3; t++)
    for (const struct mode *m = tabs[t]; m->name; m++)
      if (!strcmp(m->name, argv[1]))
        {
          m->fn();
          for (int i = 0; i < 128 && stats[i].name; i++)
            printf("STAT %s %llu\n", stats[i].name, (unsigned long long)stats[i].v);
          printf("STAT evaluations %llu\n", (unsigned long long)n_eval);
          printf("STAT distinct %llu\n", (unsigned long long)dcnt);
          printf("STAT violations %u\n", n_viol);
          printf("DONE\n");
          fflush(stdout);
          return 0;
        }
  die("unknown mode %s", argv[1]);
}
