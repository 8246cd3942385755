/* Monitors that observe executions from below: page protections, allocator
   interposition, threads, signals, single stepping, CPU state, child death. */
#include "common.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <fcntl.h>

#define LOOP uint64_t from = arg_u64("from", 0), cnt = arg_u64("n", 100); \
  for (uint64_t idx = from; idx < from + cnt && !too_many(); idx++)

#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#define ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#if __has_feature(memory_sanitizer)
#define MSAN 1
#include <sanitizer/msan_interface.h>
#endif

/* ======================================================================== */
/* allocator interposition (linked with -Wl,--wrap=malloc ...)               */
enum { A_PASS, A_TRACK, A_GUARD };
static int a_mode;                              /* per process, single thread */
static uint64_t a_calls, a_fail_mask, a_fail_from = ~0ULL;  /* fail the k-th call of a window */
static uint64_t a_live, a_frees;
static int a_fill = 0xAA;
static int a_exact;                             /* hand out minimal alignment only */
#define MAXA 8192
static struct ablk { uint8_t *p, *raw; size_t n, rawn, al; int kind; int live; } a_blk[MAXA];
static unsigned a_n;
static uint8_t *a_across;                       /* the next block lies across this address */

#ifdef WRAP
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_memalign(size_t, size_t);

static struct ablk *a_find(void *p)
{
  for (unsigned i = a_n; i-- > 0;)
    if (a_blk[i].p == p && a_blk[i].live)
      return a_blk + i;
  return NULL;
}
static void *a_get(size_t n, size_t al)
{
  uint64_t k = a_calls++;
  struct ablk *b;
  if ((k < 64 && (a_fail_mask >> k & 1)) || k >= a_fail_from)
    {
      errno = ENOMEM;
      return NULL;
    }
  if (a_n == MAXA)
    {                           /* drop dead entries */
      unsigned j = 0;
      for (unsigned i = 0; i < a_n; i++)
        if (a_blk[i].live) a_blk[j++] = a_blk[i];
      a_n = j;
      if (a_n == MAXA) die("allocation table full");
    }
  b = a_blk + a_n++;
  b->n = n;
  b->al = al;
  b->live = 1;
  b->kind = 0;
  if (a_across)
    {
      b->kind = 1;
      b->rawn = n;
      b->raw = b->p = (uint8_t *)(((uintptr_t)a_across - n / 2) & ~(uintptr_t)(al - 1));
      a_across = NULL;
    }
  else if (a_mode == A_GUARD)
    {                           /* own pages, unmapped page right behind */
      size_t P = pgsz();
      b->rawn = (n + P - 1) / P * P;
      b->raw = guarded(b->rawn);
      b->p = (uint8_t *)((uintptr_t)(b->raw + b->rawn - n) & ~(uintptr_t)(al - 1));
      memset(b->raw, 0x5c, b->rawn);
    }
  else
    {
      b->rawn = n + 2 * al + 256;
      b->raw = __real_malloc(b->rawn);
      if (!b->raw) die("out of memory");
      memset(b->raw, 0x5c, b->rawn);
      uintptr_t x = ((uintptr_t)b->raw + 64 + 2 * al - 1) & ~(uintptr_t)(2 * al - 1);
      if (a_exact) x += al;     /* aligned to al and to nothing more */
      b->p = (uint8_t *)x;
      if (b->p + n + 32 > b->raw + b->rawn) die("allocator arithmetic");
    }
  memset(b->p, a_fill, n);
  a_live++;
  return b->p;
}
static void a_put(void *p)
{
  struct ablk *b;
  if (!p) return;
  a_frees++;
  b = a_find(p);
  if (!b) { viol("free-of-unknown-block", "%p was not obtained from the heap or is released already", p); return; }
  b->live = 0;
  a_live--;
  if (b->kind) return;
  if (a_mode == A_GUARD || b->raw == b->p)
    {
      guarded_free(b->raw, b->rawn);
      return;
    }
  for (uint8_t *q = b->raw; q < b->p; q++)
    if (*q != 0x5c) { viol("write-before-context", "%ld bytes before a context of %zu bytes", (long)(b->p - q), b->n); break; }
  for (uint8_t *q = b->p + b->n; q < b->raw + b->rawn; q++)
    if (*q != 0x5c) { viol("write-behind-context", "%ld bytes behind a context of %zu bytes", (long)(q - (b->p + b->n)), b->n); break; }
  memset(b->p, 0xDD, b->n);
  __real_free(b->raw);
}
void *__wrap_malloc(size_t n) { return a_mode ? a_get(n, 2 * sizeof(void *)) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b)
{
  if (!a_mode) return __real_calloc(a, b);
  void *p = a_get(a * b, 2 * sizeof(void *));
  if (p) memset(p, 0, a * b);
  return p;
}
void *__wrap_realloc(void *p, size_t n)
{
  if (!a_mode) return __real_realloc(p, n);
  void *q = a_get(n, 2 * sizeof(void *));
  if (q && p) { struct ablk *b = a_find(p); if (b) memcpy(q, p, b->n < n ? b->n : n); a_put(p); }
  return q;
}
void __wrap_free(void *p) { if (a_mode) a_put(p); else __real_free(p); }
int __wrap_posix_memalign(void **r, size_t al, size_t n)
{
  if (!a_mode) return __real_posix_memalign(r, al, n);
  if (al % sizeof(void *) || (al & (al - 1)) || !al) return EINVAL;
  void *p = a_get(n, al);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return a_mode ? a_get(n, al) : __real_aligned_alloc(al, n); }
void *__wrap_memalign(size_t al, size_t n) { return a_mode ? a_get(n, al) : __real_memalign(al, n); }
#endif
static void a_window(void) { a_calls = 0; }

/* ======================================================================== */
/* C07: only payload bytes are written                                        */
struct kbuf { void *k; uint8_t *raw; size_t rawn; };
static void protect_blocks(int prot)
{
  for (unsigned i = 0; i < a_n; i++)
    if (a_blk[i].live && mprotect(a_blk[i].raw, a_blk[i].rawn, prot))
      die("mprotect");
}
enum { TAILS = 24 };
static void m_contain(void)
{
#ifdef WRAP
  unsigned B = bsz();
  size_t P = pgsz(), dn = (MAXB + 1) * sizeof(struct dvbcsa_bs_batch_s), dtot = (dn + P - 1) / P * P;
  uint8_t *cwreg = guarded(P), *dreg = guarded(dn), *pay = guarded(4 * P), *tails = guarded(TAILS * 2 * P);
  struct dvbcsa_bs_batch_s *dimg = malloc(dn);
  struct batch *b = batch_new();
  uint8_t *arena = guarded(b->memlen), *img = malloc(4 * P), *kimg = malloc(1 << 20);
  free(b->mem);
  b->mem = arena;
  a_mode = A_GUARD;
  struct dvbcsa_key_s *k = dvbcsa_key_alloc();
  struct dvbcsa_bs_key_s *bk = dvbcsa_bs_key_alloc();
  a_mode = A_PASS;
  if (!k || !bk) die("context allocation");
  LOOP
    {
      rng_t r = rng_for("contain", idx);
      int enc = rnd(&r) & 1;
      unsigned len, off, i;
      uint8_t *cw = cwreg + (rnd(&r) & 1 ? P - 8 : rnd_n(&r, P - 8));
      if (mprotect(cwreg, P, PROT_READ | PROT_WRITE)) die("mprotect");
      rnd_bytes(&r, cwreg, P);
      gen_cw(&r, cw);
      case_begin(idx);
      nontrivial_eval(1);
      protect_blocks(PROT_READ | PROT_WRITE);
      if (mprotect(cwreg, P, PROT_READ)) die("mprotect");
      dvbcsa_key_set(cw, k);    /* the control word is read-only memory */
      stat_add("key_set_with_read_only_cw", 2);
      if (mprotect(cwreg, P, PROT_READ)) die("mprotect");
      dvbcsa_bs_key_set(cw, bk);
      protect_blocks(PROT_READ);                /* contexts are read-only from here */
      for (i = 0; i < a_n; i++)
        if (a_blk[i].live)
          for (uint8_t *q = a_blk[i].raw; q < a_blk[i].raw + a_blk[i].rawn; q == a_blk[i].p ? q += a_blk[i].n : q++)
            if (q != a_blk[i].p && *q != 0x5c)
              { viol("write-around-context", "key setup wrote %ld bytes from the start of a context of %zu bytes", (long)(q - a_blk[i].p), a_blk[i].n); break; }
      /* snapshot contexts */
      size_t ko = 0;
      for (i = 0; i < a_n; i++) if (a_blk[i].live) { memcpy(kimg + ko, a_blk[i].raw, a_blk[i].rawn); ko += a_blk[i].rawn; }
      if (idx % 2)
        {
          /* single: payload inside known bytes; or against an unmapped page */
          len = gen_len(&r, rnd_n(&r, 4) ? 184 : 900);
          switch (rnd_n(&r, 4))
            {
            case 0: off = 4 * P - len; stat_add("against_unmapped_end", 1); break;
            case 1: off = 0; stat_add("against_unmapped_start", 1); break;
            default: off = rnd_n(&r, 4 * P - len + 1); break;
            }
          rnd_bytes(&r, pay, 4 * P);
          memcpy(img, pay, 4 * P);
          uint8_t *w = pay + off;
          /* pages without payload bytes are read-only during the call */
          size_t p0 = off / P, p1 = len ? (off + len - 1) / P : p0;
          for (size_t q = 0; q < 4; q++)
            if (len == 0 || q < p0 || q > p1) { if (mprotect(pay + q * P, P, PROT_READ)) die("mprotect"); }
          single_run(k, enc, w, len);
          if (mprotect(pay, 4 * P, PROT_READ | PROT_WRITE)) die("mprotect");
          for (size_t q = 0; q < 4 * P; q++)
            if ((q < off || q >= off + len) && pay[q] != img[q])
              {
                viol("write-outside-payload-single", "%s of %u bytes changed the byte at %ld relative to the payload", enc ? "encrypt" : "decrypt", len, (long)q - (long)off);
                break;
              }
          stat_add("single_calls", 1);
          stat_add("canary_bytes", 4 * P - len);
          distinct(hash_bytes(off * 8 + enc, cw, 8) + len);
        }
      else
        {
          batch_gen2(&r, b, LEN_ANY, gen_count(&r, B), ~0u);
          size_t used = batch_used(b);
          struct dvbcsa_bs_batch_s *d;
          if (mprotect(dreg, dtot, PROT_READ | PROT_WRITE)) die("mprotect");
          d = (void *)(dreg + dtot - (b->n + 1) * sizeof *d);
          memcpy(d, b->d, (b->n + 1) * sizeof *d);
          /* what lies beyond the limit may be read-only memory: the limit
             falls on the border of a page there */
          unsigned nt = 0;
          for (i = 0; i < b->n && nt < TAILS; i++)
            if (b->len[i] > b->maxlen && b->maxlen <= P && b->len[i] - b->maxlen <= P && (nt == 0 || rnd_n(&r, 3)))
              {
                uint8_t *t = tails + nt++ * 2 * P + P - b->maxlen;
                if (mprotect(t + b->maxlen, P, PROT_READ | PROT_WRITE)) die("mprotect");
                memcpy(t, b->d[i].data, b->len[i]);
                if (mprotect(t + b->maxlen, P, PROT_READ)) die("mprotect");
                d[i].data = t;
              }
          stat_add("payloads_with_read_only_bytes_beyond_the_limit", nt);
          memcpy(dimg, d, (b->n + 1) * sizeof *d);
          if (mprotect(dreg, dtot, PROT_READ)) die("mprotect");
          if (b->enc) dvbcsa_bs_encrypt(bk, d, b->maxlen); else dvbcsa_bs_decrypt(bk, d, b->maxlen);
          if (memcmp(d, dimg, (b->n + 1) * sizeof *d)) viol("descriptors-written", "%s", batch_desc(b));
          /* blank out the payloads in both images: the rest must be the same */
          for (i = 0; i < b->n; i++)
            {
              memset(b->d[i].data, 0, b->len[i]);
              memset(batch_orig(b, i), 0, b->len[i]);
            }
          long q = diffpos(b->mem, b->copy, used);
          if (q >= 0) viol("write-outside-payload-batch", "%s: byte %ld of the arena (payload of packet 0 at %ld)", batch_desc(b), q, (long)(b->n ? b->d[0].data - b->mem : -1));
          stat_add("batch_calls", 1);
          stat_add("batch_packets", b->n);
          distinct(batch_hash(b));
          sample("%s with read-only contexts, descriptors and control word", batch_desc(b));
        }
      ko = 0;
      for (i = 0; i < a_n; i++) if (a_blk[i].live) { if (memcmp(kimg + ko, a_blk[i].raw, a_blk[i].rawn)) viol("context-written", "key context changed by processing"); ko += a_blk[i].rawn; }
    }
#else
  die("contain needs the allocator wrappers");
#endif
}

/* byte exact, transient stores included: AddressSanitizer poisons every byte
   that is not payload.  Payload starts are multiples of 8 (shadow granularity). */
static void m_poison(void)
{
#ifdef ASAN
  unsigned B = bsz();
  struct dvbcsa_key_s *k = xkey();
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct ref_key rk;
  size_t N = MAXB * 520 + 4096;
  uint8_t *mem = NULL;
  if (posix_memalign((void **)&mem, 64, N)) die("out of memory");
  uint8_t *img = malloc(N), e[600];
  struct dvbcsa_bs_batch_s *d = malloc((MAXB + 1) * sizeof *d);
  LOOP
    {
      rng_t r = rng_for("poison", idx);
      uint8_t cw[8];
      int enc = rnd(&r) & 1, bs = rnd(&r) & 1;
      unsigned n = bs ? gen_count(&r, B) : 1, ml = gen_maxlen(&r), i;
      size_t off = 64;
      struct dvbcsa_bs_batch_s *dd;
      gen_cw(&r, cw);
      ref_key_set(&rk, cw);
      case_begin(idx);
      if (bs) dvbcsa_bs_key_set(cw, bk); else dvbcsa_key_set(cw, k);
      for (i = 0; i < n; i++)
        {
          d[i].len = gen_len(&r, bs ? (rnd_n(&r, 3) ? 184 : 400) : 500);
          d[i].data = mem + off;
          off += (d[i].len + 7) / 8 * 8 + 8 * rnd_n(&r, 4);
        }
      d[n].data = NULL;
      d[n].len = rnd(&r);
      rnd_bytes(&r, mem, off + 64);
      memcpy(img, mem, off + 64);
      dd = malloc((n + 1) * sizeof *dd);        /* exact descriptor array */
      memcpy(dd, d, (n + 1) * sizeof *d);
      __asan_poison_memory_region(mem, off + 64);
      for (i = 0; i < n; i++) __asan_unpoison_memory_region(d[i].data, d[i].len);
      if (!bs) single_run(k, enc, d[0].data, d[0].len);
      else if (enc) dvbcsa_bs_encrypt(bk, dd, ml);
      else dvbcsa_bs_decrypt(bk, dd, ml);
      __asan_unpoison_memory_region(mem, off + 64);
      free(dd);
      for (i = 0; i < n; i++)
        {
          unsigned m = bs && d[i].len > ml ? ml : d[i].len;
          memcpy(e, img + (d[i].data - mem), d[i].len);
          ref_run(&rk, enc, e, m);
          if (memcmp(e, d[i].data, d[i].len)) stat_add("results_differing", 1);
        }
      nontrivial_eval(1);
      distinct(hash_bytes(hash_bytes(n * 4 + bs * 2 + enc, cw, 8), &off, sizeof off));
      stat_add(bs ? "batch_calls" : "single_calls", 1);
      stat_add("payloads", n);
      sample("%s %s cw=%s n=%u limit=%u first length %u, all other bytes poisoned", bs ? "batch" : "single", enc ? "encrypt" : "decrypt", hex(cw, 8), n, ml, n ? d[0].len : 0);
    }
  free(mem);
  free(img);
  free(d);
  dvbcsa_key_free(k);
  dvbcsa_bs_key_free(bk);
#else
  die("poison needs AddressSanitizer");
#endif
}

/* C08: every object in a block of exactly its size, any alignment */
static void m_tight(void)
{
  unsigned B = bsz();
  LOOP
    {
      rng_t r = rng_for("tight", idx);
      uint8_t *cw = malloc(8), *base[MAXB];
      int enc = rnd(&r) & 1;
      unsigned i;
      gen_cw(&r, cw);
      case_begin(idx);
      nontrivial_eval(1);
      if (idx % 2)
        {
          unsigned len = gen_len(&r, rnd_n(&r, 4) ? 184 : 2000), off = rnd_n(&r, 8);
          struct dvbcsa_key_s *k = xkey();
          uint8_t *p = malloc(len + off);
          rnd_bytes(&r, p, len + off);
          dvbcsa_key_set(cw, k);
          free(cw);
          single_run(k, enc, p + off, len);
          single_run(k, !enc, p + off, len);
          dvbcsa_key_free(k);
          free(p);
          stat_add("single_calls", 2);
          distinct(hash_bytes(len * 16 + off * 2 + enc, &idx, 8));
          continue;
        }
      unsigned n = gen_count(&r, B), ml = gen_maxlen(&r);
      int over = rnd_n(&r, 3) == 0;
      struct dvbcsa_bs_key_s *bk = xbskey();
      struct dvbcsa_bs_batch_s *d = malloc((n + 1) * sizeof *d);
      for (i = 0; i < n; i++)
        {
          unsigned len = over ? gen_len(&r, 184) + (rnd_n(&r, 8) ? 0 : rnd_n(&r, 3000)) : gen_len(&r, ml), off = rnd_n(&r, 8);
          base[i] = malloc(len + off);
          rnd_bytes(&r, base[i], len + off);
          d[i].data = base[i] + off;
          d[i].len = len;
        }
      d[n].data = NULL;
      d[n].len = rnd(&r);
      dvbcsa_bs_key_set(cw, bk);
      free(cw);
      if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
      for (i = 0; i < n; i++) free(base[i]);
      free(d);
      dvbcsa_bs_key_free(bk);
      stat_add("batch_calls", 1);
      stat_add("batch_packets", n);
      distinct(hash_bytes(n * 1000 + ml * 2 + enc, &idx, 8));
      sample("n=%u maxlen=%u %s, exact heap blocks", n, ml, enc ? "encrypt" : "decrypt");
    }
}

/* ======================================================================== */
/* C10: threads                                                               */
#ifdef THREADS
#include <pthread.h>
static pthread_barrier_t bar;
static struct dvbcsa_key_s *sh_k;
static struct dvbcsa_bs_key_s *sh_bk;
static struct ref_key sh_rk;
static unsigned T;
#define TPK 64                  /* packets per thread and round */
static uint8_t *sh_buf, *sh_in;
static unsigned (*sh_len)[TPK];
static size_t (*sh_off)[TPK];
static uint64_t round_idx;
static int round_kind;
enum { TMAX = 512 };
static volatile unsigned t_bad[TMAX];
static volatile const char *t_what[TMAX];
static uint64_t t_calls[TMAX];

static void t_fail(unsigned t, const char *what) { t_bad[t]++; t_what[t] = what; }

static void *t_main(void *arg)
{
  unsigned t = (unsigned)(uintptr_t)arg;
  uint64_t rounds = arg_u64("n", 20);
  unsigned B = dvbcsa_bs_batch_size();
  for (uint64_t q = 0; q < rounds; q++)
    {
      pthread_barrier_wait(&bar);               /* main prepared the round */
      rng_t r = rng_for("thr", round_idx * TMAX + t);
      struct dvbcsa_bs_batch_s d[TPK + 1];
      struct ref_key rk;
      uint8_t cw[8], e[200];
      unsigned i, j;
      int enc = rnd(&r) & 1;
      struct dvbcsa_key_s *k = NULL;
      struct dvbcsa_bs_key_s *bk = NULL;
      int private_key = round_kind & 1 ? rnd(&r) & 1 : 0;
      int spin = rnd_n(&r, 400);
      for (volatile int z = 0; z < spin; z++) {}
      rk = sh_rk;
      for (int rep = 0; rep < (private_key ? 3 : 1); rep++)
        {
          if (private_key)
            {
              gen_cw(&r, cw);
              ref_key_set(&rk, cw);
              k = dvbcsa_key_alloc();
              bk = dvbcsa_bs_key_alloc();
              if (!k || !bk) { t_fail(t, "allocation"); break; }
              dvbcsa_key_set(cw, k);
              dvbcsa_bs_key_set(cw, bk);
            }
          const struct dvbcsa_key_s *uk = private_key ? k : sh_k;
          const struct dvbcsa_bs_key_s *ubk = private_key ? bk : sh_bk;
          for (i = 0; i < TPK; i++) memcpy(sh_buf + sh_off[t][i], sh_in + sh_off[t][i], sh_len[t][i]);
          if (round_kind >= 2)
            for (i = 0; i < TPK; i += j)
              {
                for (j = 0; j < B && i + j < TPK; j++) d[j].data = sh_buf + sh_off[t][i + j], d[j].len = sh_len[t][i + j];
                d[j].data = NULL, d[j].len = 0;
                if (enc) dvbcsa_bs_encrypt(ubk, d, 48); else dvbcsa_bs_decrypt(ubk, d, 48);
                t_calls[t]++;
              }
          else
            for (i = 0; i < TPK; i++)
              {
                single_run(uk, enc, sh_buf + sh_off[t][i], sh_len[t][i]);
                t_calls[t]++;
              }
          for (i = 0; i < TPK; i++)
            {
              memcpy(e, sh_in + sh_off[t][i], sh_len[t][i]);
              ref_run(&rk, enc, e, sh_len[t][i]);
              if (memcmp(e, sh_buf + sh_off[t][i], sh_len[t][i])) t_fail(t, round_kind >= 2 ? "batch" : "single");
            }
          if (private_key)
            {
              dvbcsa_key_free(k);
              dvbcsa_bs_key_free(bk);
            }
        }
      pthread_barrier_wait(&bar);
    }
  return NULL;
}
static void m_threads(void)
{
  uint64_t rounds = arg_u64("n", 20), from = arg_u64("from", 0);
  pthread_t th[TMAX];
  T = arg_u64("t", 8);
  if (T > TMAX) die("too many threads");
  sh_len = calloc(T, sizeof *sh_len);
  sh_off = calloc(T, sizeof *sh_off);
  size_t N = T * TPK * 64 + 64;
  sh_buf = malloc(N);
  sh_in = malloc(N);
  sh_k = xkey();
  sh_bk = xbskey();
  pthread_barrier_init(&bar, NULL, T + 1);
  for (uintptr_t t = 0; t < T; t++) if (pthread_create(th + t, NULL, t_main, (void *)t)) die("pthread_create");
  for (uint64_t q = 0; q < rounds; q++)
    {
      rng_t r = rng_for("thrmain", from + q);
      uint8_t cw[8];
      case_begin(from + q);
      round_idx = from + q;
      round_kind = q & 3;
      gen_cw(&r, cw);
      dvbcsa_key_set(cw, sh_k);
      dvbcsa_bs_key_set(cw, sh_bk);
      ref_key_set(&sh_rk, cw);
      /* payloads of the threads interleaved in one buffer without gaps */
      size_t off = rnd_n(&r, 16);
      for (unsigned i = 0; i < TPK; i++)
        for (unsigned t = 0; t < T; t++)
          {
            unsigned u = (t + i) % T;
            sh_len[u][i] = 1 + rnd_n(&r, 48);
            sh_off[u][i] = off;
            off += sh_len[u][i];
          }
      if (off > N) die("thread buffer");
      rnd_bytes(&r, sh_in, N);
      pthread_barrier_wait(&bar);
      pthread_barrier_wait(&bar);
      for (unsigned t = 0; t < T; t++)
        if (t_bad[t])
          {
            viol("concurrent-result", "round %llu kind %d thread %u of %u: wrong %s results", (unsigned long long)(from + q), round_kind, t, T, (const char *)t_what[t]);
            t_bad[t] = 0;
          }
      nontrivial_eval(T);
      distinct(from + q + 1);
      sample("round %llu: %u threads, %d adjacent payloads each, kind %d", (unsigned long long)q, T, TPK, round_kind);
    }
  for (unsigned t = 0; t < T; t++) { pthread_join(th[t], NULL); stat_add("concurrent_calls", t_calls[t]); }
  stat_add("threads", T);
  stat_add("rounds", rounds);
}

/* concurrent allocation, key setup and release only: contention on whatever they share */
static void *t_churn(void *arg)
{
  unsigned t = (unsigned)(uintptr_t)arg;
  uint64_t n = arg_u64("n", 2000);
  rng_t r = rng_for("churn", t);
  struct ref_key rk;
  pthread_barrier_wait(&bar);
  for (uint64_t i = 0; i < n; i++)
    {
      uint8_t cw[8], x[16], y[16], e[16];
      struct dvbcsa_key_s *k = dvbcsa_key_alloc();
      struct dvbcsa_bs_key_s *bk = dvbcsa_bs_key_alloc();
      struct dvbcsa_bs_batch_s d[2] = { { y, 16 }, { NULL, 0 } };
      if (!k || !bk) { t_fail(t, "allocation"); break; }
      gen_cw(&r, cw);
      dvbcsa_key_set(cw, k);
      dvbcsa_bs_key_set(cw, bk);
      ref_key_set(&rk, cw);
      rnd_bytes(&r, x, 16);
      memcpy(y, x, 16);
      memcpy(e, x, 16);
      dvbcsa_encrypt(k, x, 16);
      ref_encrypt(&rk, e, 16);
      if (memcmp(x, e, 16)) t_fail(t, "single");
      if (i % 8 == 0)
        {
          dvbcsa_bs_encrypt(bk, d, 16);
          if (memcmp(y, e, 16)) t_fail(t, "batch");
        }
      dvbcsa_key_free(k);
      dvbcsa_bs_key_free(bk);
      t_calls[t]++;
    }
  return NULL;
}
static void m_churn(void)
{
  pthread_t th[64];
  T = arg_u64("t", 8);
  pthread_barrier_init(&bar, NULL, T);
  for (uintptr_t t = 0; t < T; t++) if (pthread_create(th + t, NULL, t_churn, (void *)t)) die("pthread_create");
  for (unsigned t = 0; t < T; t++)
    {
      pthread_join(th[t], NULL);
      if (t_bad[t]) viol("concurrent-key-setup", "thread %u: %u wrong %s results", t, t_bad[t], (const char *)t_what[t]);
      stat_add("context_lifecycles", t_calls[t]);
      nontrivial_eval(t_calls[t]);
      distinct(t + 1);
    }
}
#else
static void m_threads(void) { die("built without threads"); }
static void m_churn(void) { die("built without threads"); }
#endif

/* ======================================================================== */
/* single stepping inside the process (x86-64)                                */
#if defined(__x86_64__)
#include <ucontext.h>
static volatile uint64_t st_count, st_limit, st_ceil;
static volatile int st_on, st_fired;
static volatile uint64_t st_syscalls, st_hidden;
static volatile uint8_t st_op[4];
static volatile int st_look;
static void (*volatile st_hook)(void);
static volatile uint64_t st_every;             /* run the hook at every n-th instruction */
static uintptr_t vdso_lo, vdso_hi;

static void on_trap(int sig, siginfo_t *si, void *ucv)
{
  ucontext_t *uc = ucv;
  (void)sig;
  (void)si;
  if (!st_on) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
  st_count++;
  if (st_ceil && st_count > st_ceil)
    {                           /* only in `cost`: never mind what was interrupted */
      viol("unbounded-work", "a call is not over after %llu instructions", (unsigned long long)st_count);
      printf("DONE\n");
      fflush(stdout);
      _exit(0);
    }
  if (st_look)
    {
      uintptr_t pc = uc->uc_mcontext.gregs[REG_RIP];
      const uint8_t *p = (const uint8_t *)pc;
      if (pc >= vdso_lo && pc < vdso_hi) { st_hidden++; memcpy((void *)st_op, "vdso", 4); }
      else if (p[0] == 0x0f && (p[1] == 0x05 || p[1] == 0x34)) { st_syscalls++; st_op[0] = p[0]; st_op[1] = p[1]; }
      else if (p[0] == 0xcd && p[1] == 0x80) st_syscalls++;
      else if (p[0] == 0x0f && (p[1] == 0x31 || p[1] == 0x33 || (p[1] == 0x01 && p[2] == 0xf9))) { st_hidden++; memcpy((void *)st_op, p, 3); }
      else
        {
          int q = 0;            /* rdrand, rdseed, rdpid: [66|f3|rex] 0f c7 /6 /7 with a register operand */
          while (q < 3 && (p[q] == 0x66 || p[q] == 0xf3 || (p[q] & 0xf0) == 0x40)) q++;
          if (p[q] == 0x0f && p[q + 1] == 0xc7 && (p[q + 2] & 0xc0) == 0xc0 && ((p[q + 2] >> 3) & 7) >= 6)
            { st_hidden++; memcpy((void *)st_op, p, 3); }
        }
    }
  if (st_every)
    {
      if (st_count % st_every == 0) { st_fired = 1; st_on = 0; st_hook(); st_on = 1; }
      return;
    }
  if (st_limit && st_count >= st_limit)
    {
      st_on = 0;
      uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
      if (st_hook) { st_fired = 1; st_hook(); }
    }
}
static void step_setup(void)
{
  struct sigaction sa;
  FILE *f = fopen("/proc/self/maps", "r");
  char l[512];
  while (f && fgets(l, sizeof l, f))
    if (strstr(l, "[vdso]") || strstr(l, "[vvar"))
      {
        unsigned long a, b;
        if (sscanf(l, "%lx-%lx", &a, &b) == 2)
          {
            if (!vdso_lo || a < vdso_lo) vdso_lo = a;
            if (b > vdso_hi) vdso_hi = b;
          }
      }
  if (f) fclose(f);
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);
}
__attribute__((noinline)) static void step_begin(uint64_t limit)
{
  st_count = 0;
  st_limit = limit;
  st_fired = 0;
  st_on = 1;
  /* a function below the flag change: the red zone is not touched */
  __asm__ volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\torl $0x100,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" : : : "memory", "cc");
}
__attribute__((noinline)) static void step_end(void)
{
  __asm__ volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\tandl $0xfffffeff,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" : : : "memory", "cc");
  st_on = 0;
}
#define STEPPING 1
#endif

/* one public call, described */
struct call { int op; int enc; uint8_t cw[8]; unsigned len, n, maxlen; };
static struct dvbcsa_key_s *c_k;
static struct dvbcsa_bs_key_s *c_bk;

/* ---- C11 ---- */
enum { OP_KEYSET, OP_BSKEYSET, OP_SINGLE, OP_BATCH };
struct side { struct dvbcsa_key_s *k; struct dvbcsa_bs_key_s *bk; struct call c; uint8_t pay[8][64], exp[8][64]; struct dvbcsa_bs_batch_s d[9]; int shared; };
static struct side outer_, nested_;

static void side_gen(rng_t *r, struct side *s, const struct ref_key *shared, int op)
{
  struct ref_key rk;
  s->c.op = rnd_n(r, 4);
  if (op >= 0) s->c.op = op;
  s->c.enc = rnd(r) & 1;
  if (shared) { rk = *shared; s->shared = 1; memcpy(s->c.cw, rk.cw, 8); }
  else { gen_cw(r, s->c.cw); ref_key_set(&rk, s->c.cw); s->shared = 0; }
  s->c.n = 1 + rnd_n(r, 3);
  s->c.maxlen = 8 + 8 * rnd_n(r, 3);
  for (unsigned i = 0; i < s->c.n; i++)
    {
      unsigned len = s->c.op == OP_BATCH ? rnd_n(r, s->c.maxlen + 1) : 8 + rnd_n(r, 40);
      rnd_bytes(r, s->pay[i], 64);
      memcpy(s->exp[i], s->pay[i], 64);
      ref_run(&rk, s->c.enc, s->exp[i], len);
      s->d[i].data = s->pay[i];
      s->d[i].len = len;
    }
  s->d[s->c.n].data = NULL;
}
/* the monitored call; key setup is part of it except for shared contexts */
static void side_pre(struct side *s)
{
  if (s->shared) return;
  if (s->c.op == OP_SINGLE) dvbcsa_key_set(s->c.cw, s->k);
  if (s->c.op == OP_BATCH) dvbcsa_bs_key_set(s->c.cw, s->bk);
}
static void side_call(struct side *s)
{
  switch (s->c.op)
    {
    case OP_KEYSET: dvbcsa_key_set(s->c.cw, s->k); break;
    case OP_BSKEYSET: dvbcsa_bs_key_set(s->c.cw, s->bk); break;
    case OP_SINGLE: for (unsigned i = 0; i < s->c.n; i++) single_run(s->k, s->c.enc, s->pay[i], s->d[i].len); break;
    default: if (s->c.enc) dvbcsa_bs_encrypt(s->bk, s->d, s->c.maxlen); else dvbcsa_bs_decrypt(s->bk, s->d, s->c.maxlen);
    }
}
static void side_post(struct side *s)
{                               /* a key setup is observed through processing */
  if (s->c.op == OP_KEYSET) for (unsigned i = 0; i < s->c.n; i++) single_run(s->k, s->c.enc, s->pay[i], s->d[i].len);
  if (s->c.op == OP_BSKEYSET) { if (s->c.enc) dvbcsa_bs_encrypt(s->bk, s->d, 48); else dvbcsa_bs_decrypt(s->bk, s->d, 48); }
}
static int side_bad(struct side *s)
{
  for (unsigned i = 0; i < s->c.n; i++) if (memcmp(s->pay[i], s->exp[i], 64)) return (int)i + 1;
  return 0;
}
static volatile int nested_done;
static void nested_run(void)
{
  side_pre(&nested_);
  side_call(&nested_);
  side_post(&nested_);
  nested_done = 1;
}
static void on_hang(int s)
{
  (void)s;
  static const char m[] = "HANG a call interrupted by a signal, or the nested one, does not return\n";
  if (write(1, m, sizeof m - 1) < 0) {}
  _exit(78);
}
static const char *opname(int op) { return op == OP_KEYSET ? "key_set" : op == OP_BSKEYSET ? "bs_key_set" : op == OP_SINGLE ? "single" : "batch"; }

/* oop, nop, sh: operations and sharing, or -1 */
static void sides_prepare(rng_t *r, struct ref_key *rk, int oop, int nop, int sh)
{
  int shared = sh < 0 ? rnd_n(r, 3) == 0 : sh;
  outer_.k = c_k;
  outer_.bk = c_bk;
  side_gen(r, &outer_, NULL, oop);
  ref_key_set(rk, outer_.c.cw);
  static struct dvbcsa_key_s *k2;
  static struct dvbcsa_bs_key_s *bk2;
  if (!k2) k2 = xkey();
  if (!bk2) bk2 = xbskey();
  nested_.k = k2;
  nested_.bk = bk2;
  if (shared && outer_.c.op >= OP_SINGLE)
    {                           /* the nested call processes with the context in use */
      side_gen(r, &nested_, rk, nop);
      nested_.c.op = outer_.c.op;
      for (unsigned i = 0; i < nested_.c.n; i++)
        {                       /* regenerate for the operation */
          unsigned len = nested_.c.op == OP_BATCH ? rnd_n(r, nested_.c.maxlen + 1) : 8 + rnd_n(r, 40);
          memcpy(nested_.exp[i], nested_.pay[i], 64);
          ref_run(rk, nested_.c.enc, nested_.exp[i], len);
          nested_.d[i].len = len;
        }
      nested_.k = outer_.k;
      nested_.bk = outer_.bk;
    }
  else
    side_gen(r, &nested_, NULL, nop);
}
static void sides_check(const char *how, uint64_t at)
{
  int q;
  if ((q = side_bad(&outer_)))
    viol("interrupted-call", "%s cw=%s (%s, packet %d) interrupted %s %llu by %s: wrong result", opname(outer_.c.op), hex(outer_.c.cw, 8), outer_.c.enc ? "encrypt" : "decrypt", q - 1,
         how, (unsigned long long)at, opname(nested_.c.op));
  if (nested_done && (q = side_bad(&nested_)))
    viol("nested-call", "%s cw=%s (%s, packet %d) inside %s, %s %llu: wrong result", opname(nested_.c.op), hex(nested_.c.cw, 8), nested_.c.enc ? "encrypt" : "decrypt", q - 1, opname(outer_.c.op),
         how, (unsigned long long)at);
}

static void m_sigstep(void)
{
#ifdef STEPPING
  struct ref_key rk;
  c_k = xkey();
  c_bk = xbskey();
  step_setup();
  signal(SIGALRM, on_hang);
  uint64_t maxsteps = arg_u64("maxsteps", 60000), tot[4] = { 0 };
  LOOP
    {
      rng_t r = rng_for("sigstep", idx);
      sides_prepare(&r, &rk, -1, -1, -1);
      case_begin(idx);
      alarm(120);
      side_pre(&outer_);
      nested_done = 0;
      int op = outer_.c.op;
      /* length of such a call, learnt from an earlier one that ran to its end */
      uint64_t lim = tot[op] ? 1 + rnd_n(&r, tot[op] < maxsteps ? tot[op] : maxsteps) : 1ULL << 40;
      st_hook = nested_run;
      step_begin(lim);
      side_call(&outer_);
      step_end();
      if (st_count > tot[op] && !st_fired) tot[op] = st_count;
      side_post(&outer_);
      alarm(0);
      sides_check("after instruction", st_count);
      nontrivial_eval(1);
      if (st_fired)
        {
          stat_add("interruptions", 1);
          distinct(hash_bytes(op * 4 + nested_.c.op, (void *)&st_count, 8));
          stat_add(op == OP_KEYSET ? "in_key_set" : op == OP_BSKEYSET ? "in_bs_key_set" : op == OP_SINGLE ? "in_single" : "in_batch", 1);
          if (nested_.k == outer_.k) stat_add("same_context", 1);
          sample("%s interrupted after %llu instructions by %s", opname(op), (unsigned long long)st_count, opname(nested_.c.op));
        }
    }
#else
  die("no single stepping on this target");
#endif
}
/* the nested call runs at every instruction of the outer one (or every n-th) */
#ifdef STEPPING
static uint8_t ne_pay[8][64];
static uint64_t ne_runs, ne_bad, ne_first;
static void nested_every(void)
{
  memcpy(nested_.pay, ne_pay, sizeof ne_pay);
  side_pre(&nested_);
  side_call(&nested_);
  side_post(&nested_);
  ne_runs++;
  if (side_bad(&nested_) && !ne_bad++) ne_first = st_count;
}
#endif
static void m_sigevery(void)
{
#ifdef STEPPING
  struct ref_key rk;
  c_k = xkey();
  c_bk = xbskey();
  step_setup();
  signal(SIGALRM, on_hang);
  uint64_t stride = arg_u64("stride", 1);
  LOOP
    {
      rng_t r = rng_for("sigevery", idx);
      uint64_t f0 = ne_runs;
      sides_prepare(&r, &rk, (int)(idx & 3), (int)(idx >> 2 & 3), idx >> 4 & 1);
      case_begin(idx);
      alarm(400);
      side_pre(&outer_);
      memcpy(ne_pay, nested_.pay, sizeof ne_pay);
      ne_bad = 0;
      nested_done = 0;
      st_hook = nested_every;
      st_every = stride;
      step_begin(0);
      side_call(&outer_);
      step_end();
      st_every = 0;
      uint64_t steps = st_count;
      side_post(&outer_);
      alarm(0);
      sides_check("at every instruction of", steps);
      if (ne_bad)
        viol("nested-call", "%s cw=%s (%s) nested in %s: wrong result at %llu of %llu interruption points, first after instruction %llu", opname(nested_.c.op), hex(nested_.c.cw, 8),
             nested_.c.enc ? "encrypt" : "decrypt", opname(outer_.c.op), (unsigned long long)ne_bad, (unsigned long long)(ne_runs - f0), (unsigned long long)ne_first);
      nontrivial_eval(1);
      stat_add("interruptions", ne_runs - f0);
      stat_add("instructions_of_outer_calls", steps);
      if (nested_.k == outer_.k) stat_add("same_context", 1);
      if (ne_runs > f0) distinct(idx + 1);
      sample("%s interrupted at %llu of its %llu instructions by %s", opname(outer_.c.op), (unsigned long long)(ne_runs - f0), (unsigned long long)steps, opname(nested_.c.op));
    }
#else
  die("no single stepping on this target");
#endif
}
/* timer driven: covers long calls too, and other architectures */
static void on_tick(int s) { (void)s; if (!nested_done) nested_run(); }
static void m_sigtimer(void)
{
  struct ref_key rk;
  timer_t tm;
  struct sigevent ev;
  struct sigaction sa;
  c_k = xkey();
  c_bk = xbskey();
  signal(SIGALRM, on_hang);
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_tick;
  sigaction(SIGUSR1, &sa, NULL);
  memset(&ev, 0, sizeof ev);
  ev.sigev_notify = SIGEV_SIGNAL;
  ev.sigev_signo = SIGUSR1;
  if (timer_create(CLOCK_MONOTONIC, &ev, &tm)) die("timer_create");
  uint64_t inside = 0, span = arg_u64("span", 300000);
  LOOP
    {
      rng_t r = rng_for("sigtimer", idx);
      sides_prepare(&r, &rk, -1, -1, -1);
      if (outer_.c.op < OP_SINGLE) outer_.c.op = OP_BATCH, outer_.shared = 0;
      if (outer_.c.op == OP_BATCH)
        for (unsigned i = 0; i < outer_.c.n; i++)
          {                     /* regenerated: lengths within the limit */
            if (outer_.d[i].len > outer_.c.maxlen) outer_.d[i].len = outer_.c.maxlen;
            memcpy(outer_.exp[i], outer_.pay[i], 64);
            ref_run(&rk, outer_.c.enc, outer_.exp[i], outer_.d[i].len);
          }
      case_begin(idx);
      alarm(120);
      side_pre(&outer_);
      nested_done = 0;
      uint64_t ns = 500 + rnd_n(&r, outer_.c.op == OP_SINGLE ? 15000 : span);
      struct itimerspec it = { { 0, 0 }, { 0, (long)ns } };
      timer_settime(tm, 0, &it, NULL);
      side_call(&outer_);
      int in = nested_done;
      /* a tick that comes late only delays the nested call */
      for (int w = 0; !nested_done && w < 100000; w++) usleep(1);
      struct itimerspec off = { { 0, 0 }, { 0, 0 } };
      timer_settime(tm, 0, &off, NULL);
      side_post(&outer_);
      alarm(0);
      sides_check(in ? "during the call, timer ns" : "after the call, timer ns", ns);
      nontrivial_eval(1);
      if (in)
        {
          inside++;
          distinct(hash_bytes(outer_.c.op * 4 + nested_.c.op, &ns, 8));
          sample("%s interrupted %llu ns after its start by %s", opname(outer_.c.op), (unsigned long long)ns, opname(nested_.c.op));
        }
    }
  stat_add("ticks_inside_a_call", inside);
}

/* ======================================================================== */
/* C10: calls of many threads held in the middle of their work, all at once,
   while others are made and the held ones go on one by one                    */
#ifdef THREADS
#include <semaphore.h>
#include <unistd.h>
#include <errno.h>
enum { HOLDS = 160 };
struct hold { struct side s; uint8_t in[8][64]; volatile int held, looping; int fd[2]; sem_t done; pthread_t th; };
static struct hold hold_[HOLDS + 1];
static __thread struct hold *hold_me;
static sem_t hold_all;
static void on_hold(int sig)
{
  struct hold *h = hold_me;
  int e = errno;
  char c;
  (void)sig;
  if (!h || h->held) return;
  h->held = 1;
  sem_post(&hold_all);
  while (read(h->fd[0], &c, 1) != 1) {}
  errno = e;
}
static void *hold_main(void *v)
{
  struct hold *h = v;
  hold_me = h;
  side_pre(&h->s);
  h->looping = 1;
  do
    {
      memcpy(h->s.pay, h->in, sizeof h->in);
      side_call(&h->s);
    }
  while (!h->held);
  side_post(&h->s);
  sem_post(&h->done);
  return NULL;
}
static void *hold_probe(void *v)
{                               /* calls that nothing holds, three of them */
  struct hold *h = v;
  for (int i = 0; i < 3; i++)
    {
      memcpy(h->s.pay, h->in, sizeof h->in);
      side_pre(&h->s);
      side_call(&h->s);
      side_post(&h->s);
      if (side_bad(&h->s)) break;
    }
  sem_post(&h->done);
  return NULL;
}
/* the calls a forked child makes while those of its parent are held: with
   the contexts it inherited and with its own */
static int hold_child(struct side *shared, struct side *own)
{
  struct hold h;
  int bad = 0;
  for (int i = 0; i < 2; i++)
    {
      struct side *s = i ? own : shared;
      memcpy(h.in, s->pay, sizeof h.in);
      for (int j = 0; j < 2; j++)
        {
          memcpy(s->pay, h.in, sizeof h.in);
          side_pre(s);
          side_call(s);
          side_post(s);
          if (side_bad(s)) bad |= 1 << i;
        }
    }
  own->k = dvbcsa_key_alloc();
  own->bk = dvbcsa_bs_key_alloc();
  if (!own->k || !own->bk) return bad | 4;
  memcpy(own->pay, h.in, sizeof h.in);
  side_pre(own);
  side_call(own);
  side_post(own);
  if (side_bad(own)) bad |= 8;
  dvbcsa_key_free(own->k);
  dvbcsa_bs_key_free(own->bk);
  return bad;
}
static int sem_within(sem_t *s, int sec)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_sec += sec;
  while (sem_timedwait(s, &ts))
    if (errno != EINTR) return 0;
  return 1;
}
static void m_held(void)
{
  struct sigaction sa;
  unsigned most = arg_u64("t", 100), i, j, n, lates = 0;
  struct dvbcsa_key_s *sk = xkey();
  struct dvbcsa_bs_key_s *sbk = xbskey();
  if (most > HOLDS) die("too many threads");
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_hold;
  sigaction(SIGUSR2, &sa, NULL);
  for (i = 0; i <= most; i++) { hold_[i].s.k = xkey(); hold_[i].s.bk = xbskey(); }
  struct { struct dvbcsa_key_s *k; struct dvbcsa_bs_key_s *bk; } own[HOLDS + 1];
  for (i = 0; i <= most; i++) own[i].k = hold_[i].s.k, own[i].bk = hold_[i].s.bk;
  LOOP
    {
      rng_t r = rng_for("held", idx);
      struct ref_key rk;
      uint8_t cw[8];
      unsigned order[HOLDS];
      int same = rnd_n(&r, 3) ? -1 : (int)rnd_n(&r, 4), late = 0;
      case_begin(idx);
      n = rnd_n(&r, 3) ? 1 + rnd_n(&r, 8) : 1 + rnd_n(&r, most);
      gen_cw(&r, cw);
      ref_key_set(&rk, cw);
      dvbcsa_key_set(cw, sk);
      dvbcsa_bs_key_set(cw, sbk);
      sem_init(&hold_all, 0, 0);
      for (i = 0; i <= n; i++)
        {
          struct hold *h = &hold_[i];
          int op = same >= 0 ? same : (int)rnd_n(&r, 4), sh = op >= OP_SINGLE && rnd(&r) & 1;
          h->s.k = sh ? sk : own[i].k;
          h->s.bk = sh ? sbk : own[i].bk;
          side_gen(&r, &h->s, sh ? &rk : NULL, op);
          memcpy(h->in, h->s.pay, sizeof h->in);
          h->held = h->looping = 0;
          sem_init(&h->done, 0, 0);
        }
      for (i = 0; i < n; i++)
        {
          order[i] = i;
          if (pipe(hold_[i].fd) || pthread_create(&hold_[i].th, NULL, hold_main, &hold_[i])) die("thread %u", i);
          while (!hold_[i].looping) usleep(20);
          for (volatile int z = rnd_n(&r, 3000); z; z--) {}
          pthread_kill(hold_[i].th, SIGUSR2);
          if (!sem_within(&hold_all, 60)) die("thread %u took no signal", i);
        }
      if (arg_u64("fork", 0))
        {
          static struct side fs, fo;
          int ws;
          pid_t p;
          fs.k = sk, fs.bk = sbk, fo.k = own[n].k, fo.bk = own[n].bk;
          side_gen(&r, &fs, &rk, OP_SINGLE + (int)rnd_n(&r, 2));
          side_gen(&r, &fo, NULL, -1);
          fflush(stdout);
          p = fork();
          if (!p)
            {
              alarm(60);
              _exit(hold_child(&fs, &fo));
            }
          if (p > 0)
            {
              while (waitpid(p, &ws, 0) < 0 && errno == EINTR) {}
              if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM) viol("stuck-in-child", "a call in a forked child does not return, %u calls of the parent's threads are midway", n);
              else if (!WIFEXITED(ws)) viol("dies-in-child", "status %x in a forked child, %u calls of the parent's threads are midway", ws, n);
              else if (WEXITSTATUS(ws))
                viol("wrong-in-child", "%s%s%s in a forked child, %u calls of the parent's threads are midway", WEXITSTATUS(ws) & 1 ? "wrong result with an inherited context, " : "",
                     WEXITSTATUS(ws) & 10 ? "wrong result with its own context, " : "", WEXITSTATUS(ws) & 4 ? "allocation refused, " : "", n);
              stat_add("children_forked_with_calls_midway", 1);
            }
        }
      /* a library that makes its callers wait for each other is not wrong here */
      if (pthread_create(&hold_[n].th, NULL, hold_probe, &hold_[n])) die("probe thread");
      if (!sem_within(&hold_[n].done, 3)) late = 1;
      else sem_post(&hold_[n].done);
      for (i = n; i > 1; i--) { j = rnd_n(&r, i); unsigned x = order[j]; order[j] = order[i - 1], order[i - 1] = x; }
      for (i = 0; i < n; i++)
        {
          struct hold *h = &hold_[order[i]];
          if (write(h->fd[1], "x", 1) != 1) die("release");
          if (late || rnd(&r) & 1) continue;    /* several go on together */
          if (!sem_within(&h->done, 3)) late = 1;
        }
      for (i = 0; i <= n; i++)
        {
          struct hold *h = &hold_[i];
          pthread_join(h->th, NULL);
          sem_destroy(&h->done);
          if (i < n) close(h->fd[0]), close(h->fd[1]);
        }
      sem_destroy(&hold_all);
      for (i = 0; i <= n; i++)
        if (side_bad(&hold_[i].s))
          {
            viol(i < n ? "held-call" : "call-beside-held-ones", "%s cw=%s (%s) with %u calls held midway: wrong result", opname(hold_[i].s.c.op), hex(hold_[i].s.c.cw, 8),
                 hold_[i].s.c.enc ? "encrypt" : "decrypt", n);
            break;
          }
      nontrivial_eval(1);
      stat_add("calls_held_midway", n);
      if (n > 40) stat_add("cases_with_over_40_calls_held", 1);
      if (late) stat_add("calls_that_waited_for_others", 1);
      if (late && ++lates > 4) break;
      distinct(idx + 1);
      sample("%u calls held midway, %s, released in random order", n, late ? "others waited" : "others made meanwhile");
    }
}
#else
static void m_held(void) { die("built without threads"); }
#endif

/* ---- C11: handlers interrupted by handlers -------------------------------- */
enum { DEEP = 40 };
struct level { struct side s; uint8_t in[8][64]; struct dvbcsa_key_s *k; struct dvbcsa_bs_key_s *bk; };
static struct level lev[DEEP];
static volatile int lev_next, lev_most;
static void level_run(int l)
{
  struct level *v = &lev[l];
  int n = 0;
  lev_next = 0;                 /* no deeper before this level's key is set */
  side_pre(&v->s);
  lev_next = l + 1;
  do
    {                           /* again, until it is interrupted */
      memcpy(v->s.pay, v->in, sizeof v->in);
      side_call(&v->s);
    }
  while (lev_next == l + 1 && lev_next < lev_most && ++n < 3000);
  side_post(&v->s);
}
static void on_deeper(int sig)
{
  int e = errno, l;
  (void)sig;
  l = lev_next;
  if (l && l < lev_most) level_run(l);
  errno = e;
}
static void m_sigdeep(void)
{
  timer_t tm;
  struct sigevent ev;
  struct sigaction sa;
  uint64_t sum = 0;
  int most = arg_u64("depth", 24), l;
  if (most > DEEP) die("too deep");
  signal(SIGALRM, on_hang);
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_deeper;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGUSR1, &sa, NULL);
  memset(&ev, 0, sizeof ev);
  ev.sigev_notify = SIGEV_SIGNAL;
  ev.sigev_signo = SIGUSR1;
  if (timer_create(CLOCK_MONOTONIC, &ev, &tm)) die("timer_create");
  for (l = 0; l < most; l++) { lev[l].k = xkey(); lev[l].bk = xbskey(); }
  LOOP
    {
      rng_t r = rng_for("sigdeep", idx);
      struct ref_key rk[DEEP];
      case_begin(idx);
      alarm(120);
      lev_most = 2 + rnd_n(&r, most - 1);
      for (l = 0; l < lev_most; l++)
        {
          struct level *v = &lev[l];
          int from = l && rnd_n(&r, 3) == 0 ? (int)rnd_n(&r, l) : -1;
          if (from >= 0 && lev[from].s.c.op < OP_SINGLE) from = -1;
          v->s.k = from >= 0 ? lev[from].s.k : v->k;
          v->s.bk = from >= 0 ? lev[from].s.bk : v->bk;
          /* shared: the same kind of processing, with a context in use below */
          side_gen(&r, &v->s, from >= 0 ? &rk[from] : NULL, from >= 0 ? lev[from].s.c.op : -1);
          if (from >= 0) rk[l] = rk[from];
          else ref_key_set(&rk[l], v->s.c.cw);
          memcpy(v->in, v->s.pay, sizeof v->in);
        }
      long gap = 15000 + rnd_n(&r, arg_u64("gap", 100000));
      struct itimerspec it = { { 0, gap }, { 0, gap } }, off = { { 0, 0 }, { 0, 0 } };
      lev_next = 0;
      timer_settime(tm, 0, &it, NULL);
      level_run(0);
      timer_settime(tm, 0, &off, NULL);
      alarm(0);
      int got = lev_next;
      lev_next = 0;             /* a tick that comes late finds nothing to do */
      for (l = 0; l < got; l++)
        if (side_bad(&lev[l].s))
          {
            viol(l < got - 1 ? "interrupted-call" : "nested-call", "%s cw=%s (%s) at level %d of %d handlers that interrupt each other: wrong result",
                 opname(lev[l].s.c.op), hex(lev[l].s.c.cw, 8), lev[l].s.c.enc ? "encrypt" : "decrypt", l, got);
            break;
          }
      sum += got - 1;
      if (got > 10) stat_add("cases_nested_over_10_deep", 1);
      nontrivial_eval(1);
      distinct(idx + 1);
      sample("%d handlers, each interrupting the call of the one before", got - 1);
    }
  stat_add("handlers_nested", sum);
}

/* ======================================================================== */
/* C14: the corners of the address space.  Payloads, control words, descriptors
   and (where the allocator is ours) contexts begin at, end at and lie across
   addresses whose lower half is zero or whose upper bits change there, and the
   packets of one batch are as far apart as the address space allows.           */
enum { PL_HALF = 65536, PL_MAX = 16 };
struct place { uint8_t *lo, *mid, *hi, *at; };
static struct place pl_[PL_MAX];
static unsigned pl_n;
static void pl_add(uint64_t mid, int below, int above)
{
  uintptr_t a = (uintptr_t)mid - (below ? PL_HALF : 0);
  size_t n = (below ? PL_HALF : 0) + (above ? PL_HALF : 0);
  void *p;
  if ((uint64_t)a + n < a || (uint64_t)(uintptr_t)mid != mid || pl_n == PL_MAX) return;
#ifdef MAP_FIXED_NOREPLACE
  p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
#else
  p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#endif
  if (p == MAP_FAILED) return;
  if (p != (void *)a) { munmap(p, n); return; }
  pl_[pl_n].lo = p;
  pl_[pl_n].mid = (uint8_t *)(uintptr_t)mid;
  pl_[pl_n++].hi = (uint8_t *)p + n;
}
/* n bytes somewhere, preferably at, before or across a border; not twice the same */
static uint8_t *pl_take(rng_t *r, size_t n, size_t al)
{
  for (int try = 0; try < 200; try++)
    {
      struct place *q = &pl_[rnd_n(r, pl_n)];
      uintptr_t a, mid = (uintptr_t)q->mid;
      if (!q->at)
        {                       /* the first one taken here */
          switch (rnd_n(r, 4))
            {
            case 0: a = mid; break;
            case 1: a = (mid - n) & ~(uintptr_t)(al - 1); break;
            default: a = (mid - rnd_n(r, n + 1)) & ~(uintptr_t)(al - 1); break;
            }
          if (a < (uintptr_t)q->lo) a = (uintptr_t)q->lo;
          if (a + n > (uintptr_t)q->hi) a = ((uintptr_t)q->hi - n) & ~(uintptr_t)(al - 1);
        }
      else a = ((uintptr_t)q->at + rnd_n(r, 40) + al - 1) & ~(uintptr_t)(al - 1);
      if (a + n > (uintptr_t)q->hi) continue;
      q->at = (uint8_t *)(a + n);
      return (uint8_t *)a;
    }
  die("no place left");
}
static void m_places(void)
{
  struct dvbcsa_key_s *k0 = xkey(), *k = k0;
  struct dvbcsa_bs_key_s *bk0 = xbskey(), *bk = bk0;
  static uint8_t in[MAXB][184], e[184];
  unsigned B = bsz(), i;
  struct ref_key rk;
  if (sizeof(void *) == 8)
    {
      static const int sh[] = { 32, 33, 34, 36, 40, 44, 46 };
      for (i = 0; i < sizeof sh / sizeof *sh; i++) pl_add(1ULL << sh[i], 1, 1);
      pl_add(0x180000000ULL, 1, 1);
      pl_add(0x7fff80000000ULL, 1, 1);
      pl_add(0x7ffffffff000ULL, 1, 0);
      pl_add(0xffff00000000ULL, 1, 1);
    }
  pl_add(0x80000000ULL, 1, 1);
  pl_add(0x40000000ULL, 1, 1);
  pl_add(0x1000000ULL, 1, 1);
  pl_add(0x20000ULL, 0, 1);
  pl_add(0xc0000000ULL, 1, 0);
  if (!pl_n) { pl_add((uintptr_t)mmap(NULL, PL_HALF, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) - PL_HALF, 0, 1); }
  if (!pl_n) die("nothing mapped");
  stat_add("places_mapped", pl_n);
  LOOP
    {
      rng_t r = rng_for("places", idx);
      int enc = rnd(&r) & 1, one = !arg_u64("batches", 0) && idx % 3;
      uint8_t *cw;
      case_begin(idx);
      for (i = 0; i < pl_n; i++) pl_[i].at = NULL;
#ifdef WRAP
      struct place *kp = NULL;
      if (pl_n > 3 && rnd_n(&r, 3) == 0)
        {
          kp = &pl_[rnd_n(&r, pl_n)];
          if (kp->lo == kp->mid || kp->hi == kp->mid) kp = NULL;
        }
      if (kp)
        {                       /* contexts across a border */
          a_mode = A_TRACK;
          a_across = kp->mid;
          if (one) k = dvbcsa_key_alloc();
          else bk = dvbcsa_bs_key_alloc();
          a_across = NULL;
          a_mode = 0;
          kp->at = kp->hi;      /* nothing else there */
          if (!k || !bk) die("allocation across a border");
          stat_add("contexts_across_a_border", 1);
        }
#endif
      if (rnd_n(&r, 3) == 0) cw = pl_take(&r, 8, 1);
      else { static uint8_t cwb[8]; cw = cwb; }
      gen_cw(&r, cw);
      ref_key_set(&rk, cw);
      nontrivial_eval(1);
      if (one)
        {
          unsigned len = gen_len(&r, 184);
          uint8_t *p = pl_take(&r, len, 1);
          gen_payload(&r, in[0], len);
          memcpy(p, in[0], len);
          memcpy(e, in[0], len);
          dvbcsa_key_set(cw, k);
          single_run(k, enc, p, len);
          ref_run(&rk, enc, e, len);
          long d = diffpos(p, e, len);
          if (d >= 0) viol("placement-single", "cw=%s at %p, %u bytes at %p: wrong at byte %ld", hex(cw, 8), (void *)cw, len, (void *)p, d);
          distinct(hash_bytes((uintptr_t)p, cw, 8) + len);
        }
      else
        {
          unsigned n = gen_count(&r, B), ml = gen_maxlen(&r);
          struct dvbcsa_bs_batch_s *d = (void *)pl_take(&r, (n + 1) * sizeof *d, __alignof__(struct dvbcsa_bs_batch_s));
          for (i = 0; i < n; i++)
            {
              unsigned len = rnd_n(&r, 3) ? ml : gen_len(&r, ml);
              d[i].data = pl_take(&r, len, 1);
              d[i].len = len;
              gen_payload(&r, in[i], len);
              memcpy(d[i].data, in[i], len);
            }
          d[n].data = NULL;
          d[n].len = rnd(&r);
          dvbcsa_bs_key_set(cw, bk);
          if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
          for (i = 0; i < n; i++)
            {
              memcpy(e, in[i], d[i].len);
              ref_run(&rk, enc, e, d[i].len);
              long q = diffpos(d[i].data, e, d[i].len);
              if (q >= 0)
                {
                  viol("placement-batch", "cw=%s at %p, %u packets described at %p: packet %u of %u bytes at %p wrong at byte %ld",
                       hex(cw, 8), (void *)cw, n, (void *)d, i, d[i].len, (void *)d[i].data, q);
                  break;
                }
            }
          if (n) distinct(hash_bytes((uintptr_t)d[0].data, cw, 8) + n);
          stat_add("packets_placed", n);
        }
      sample("%s with arguments in %u places from %p to %p", one ? "single packet" : "batch", pl_n, (void *)pl_[0].mid, (void *)pl_[pl_n - 1].mid);
#ifdef WRAP
      if (kp)
        {
          a_mode = A_TRACK;
          if (one) dvbcsa_key_free(k);
          else dvbcsa_bs_key_free(bk);
          a_mode = 0;
          k = k0;
          bk = bk0;
        }
#endif
    }
}

/* ======================================================================== */
/* C27: calls that are left and never finished                                */
#include <setjmp.h>
#include <sys/syscall.h>
#include <unistd.h>
static sigjmp_buf ab_jb;
static volatile int ab_armed;
static void ab_leave(void) { siglongjmp(ab_jb, 1); }
static void on_leave(int s) { (void)s; if (ab_armed) { ab_armed = 0; ab_leave(); } }
/* how=steps: left after a drawn instruction (x86-64); how=time: by a timer.
   Nothing is ever set back: what a call leaves behind accumulates. */
#define ABC 3
/* how=thread: the thread itself ends in the middle of its call.  The main
   thread then goes on with the context the other one used. */
#if defined(THREADS) && defined(SYS_exit)
static void on_end(int s) { (void)s; syscall(SYS_exit, 0); }
struct endcall { int op, enc; uint8_t cw[8]; void *ctx; struct dvbcsa_bs_batch_s *d; unsigned ml; volatile int in; };
static void *endcall_main(void *v)
{
  struct endcall *e = v;
  e->in = 1;
  for (;;)
    switch (e->op)
      {
      case OP_KEYSET: dvbcsa_key_set(e->cw, e->ctx); break;
      case OP_BSKEYSET: dvbcsa_bs_key_set(e->cw, e->ctx); break;
      case OP_SINGLE: single_run(e->ctx, e->enc, e->d[0].data, e->d[0].len); break;
      default: if (e->enc) dvbcsa_bs_encrypt(e->ctx, e->d, e->ml); else dvbcsa_bs_decrypt(e->ctx, e->d, e->ml);
      }
  return NULL;
}
static void abandon_threads(void)
{
  struct dvbcsa_key_s *k = xkey();
  struct dvbcsa_bs_key_s *bk = xbskey();
  static uint8_t pay[2][32][200], e[200];
  static struct dvbcsa_bs_batch_s d[2][33];
  struct sigaction sa;
  struct ref_key rk;
  unsigned B = bsz(), i;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_end;
  sigaction(SIGUSR2, &sa, NULL);
  LOOP
    {
      rng_t r = rng_for("endthread", idx);
      struct endcall ec;
      uint8_t cw[8];
      pthread_t t;
      case_begin(idx);
      nontrivial_eval(1);
      memset(&ec, 0, sizeof ec);
      gen_cw(&r, cw);
      ref_key_set(&rk, cw);
      dvbcsa_key_set(cw, k);
      dvbcsa_bs_key_set(cw, bk);
      ec.op = rnd_n(&r, 4);
      ec.enc = rnd(&r) & 1;
      ec.ctx = ec.op == OP_KEYSET || ec.op == OP_SINGLE ? (void *)k : (void *)bk;
      ec.ml = 8 * (1 + rnd_n(&r, 23));
      memcpy(ec.cw, cw, 8);
      unsigned n = ec.op == OP_SINGLE ? 1 : 1 + rnd_n(&r, B < 32 ? B : 32);
      for (i = 0; i < n; i++)
        {
          d[0][i].data = pay[0][i];
          d[0][i].len = ec.op == OP_SINGLE ? 8 + rnd_n(&r, 180) : rnd_n(&r, 190);
          d[1][i] = d[0][i];
          d[1][i].data = pay[1][i];
          rnd_bytes(&r, pay[0][i], 200);
          rnd_bytes(&r, pay[1][i], 200);
        }
      d[0][n].data = d[1][n].data = NULL;
      ec.d = d[0];
      if (pthread_create(&t, NULL, endcall_main, &ec)) die("thread");
      while (!ec.in) sched_yield();
      for (volatile unsigned w = rnd_n(&r, 20000); w; w--) ;
      pthread_kill(t, SIGUSR2);
      pthread_join(t, NULL);
      stat_add("threads_ended_within_a_call", 1);
      if (ec.op == OP_KEYSET) dvbcsa_key_set(cw, k);
      if (ec.op == OP_BSKEYSET) dvbcsa_bs_key_set(cw, bk);
      static uint8_t was[32][200];
      memcpy(was, pay[1], sizeof was);
      if (ec.op & 1)
        { if (ec.enc) dvbcsa_bs_encrypt(bk, d[1], ec.ml); else dvbcsa_bs_decrypt(bk, d[1], ec.ml); }
      else
        single_run(k, ec.enc, d[1][0].data, d[1][0].len), n = 1;
      for (i = 0; i < n; i++)
        {
          unsigned l = d[1][i].len;
          if ((ec.op & 1) && l > ec.ml) l = ec.ml;
          memcpy(e, was[i], 200);
          ref_run(&rk, ec.enc, e, l);
          if (memcmp(e, pay[1][i], 200))
            { viol("after-ended-thread", "%s %s cw=%s len %u limit %u after a thread ended in %s: wrong from byte %ld", ec.op & 1 ? "batch" : "single", ec.enc ? "encrypt" : "decrypt", hex(cw, 8), d[1][i].len, ec.ml, opname(ec.op), diffpos(e, pay[1][i], 200)); break; }
        }
      distinct(hash_bytes(ec.op * 2 + ec.enc, cw, 8));
    }
}
#else
static void abandon_threads(void) { }
#endif
static void m_abandon(void)
{
  if (!strcmp(arg_str("how", "time"), "thread")) { abandon_threads(); return; }
  int steps = !strcmp(arg_str("how", "time"), "steps"), i;
  struct dvbcsa_key_s *K[ABC];
  struct dvbcsa_bs_key_s *BK[ABC];
  uint8_t cws[2 * ABC][8];
  int ok[2 * ABC] = { 0 };              /* does the context have a key? */
  static uint8_t pay[64][200], exp_[64][200], orig[64][200];
  static struct dvbcsa_bs_batch_s d[65];
  uint64_t span[4] = { 0 }, inside = 0, verified = 0, last[4] = { 0 };
  timer_t tm;
  struct sigevent ev;
  struct sigaction sa;
  struct ref_key rk;
  unsigned B = bsz(), NB = B < 64 ? B : 64;
  for (i = 0; i < ABC; i++) K[i] = xkey(), BK[i] = xbskey();
  if (steps)
    {
#ifdef STEPPING
      step_setup();
#else
      die("no single stepping on this target");
#endif
    }
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_leave;
  sigaction(SIGUSR1, &sa, NULL);
  memset(&ev, 0, sizeof ev);
  ev.sigev_notify = SIGEV_SIGNAL;
  ev.sigev_signo = SIGUSR1;
  if (timer_create(CLOCK_MONOTONIC, &ev, &tm)) die("timer_create");
  LOOP
    {
      rng_t r = rng_for("abandon", idx);
      case_begin(idx);
      /* step 0 may be left, the others are the checks that follow */
      volatile int todo = 1 + 1 + (int)rnd_n(&r, 3), st = 0;
      volatile unsigned vop = 0;
      for (st = 0; st < todo; st++)
        {
          volatile int leave = st == 0 && (idx & 7), left = 0;
          volatile int op = rnd_n(&r, 4);
          volatile unsigned c = rnd_n(&r, ABC) + (op == OP_BSKEYSET || op == OP_BATCH ? ABC : 0);
          int enc = rnd(&r) & 1;
          unsigned n = op == OP_SINGLE ? 1 : 1 + rnd_n(&r, rnd_n(&r, 4) ? 3 : NB), ml = steps || rnd_n(&r, 3) ? 8 * (1 + rnd_n(&r, 4)) : 8 * rnd_n(&r, 24);
          uint8_t cw[8];
          gen_cw(&r, cw);
          if (st == 1) c = vop;         /* the context of the call that was left */
          if (st == 1 && ok[c]) op = c >= ABC ? OP_BATCH : OP_SINGLE;
          if (st == 1 && !ok[c]) op = c >= ABC ? OP_BSKEYSET : OP_KEYSET;
          if (op == OP_SINGLE) n = 1;
          if (op >= OP_SINGLE && !ok[c])
            {
              if (c >= ABC) dvbcsa_bs_key_set(cw, BK[c - ABC]); else dvbcsa_key_set(cw, K[c]);
              memcpy(cws[c], cw, 8);
              ok[c] = 1;
            }
          if (op >= OP_SINGLE) ref_key_set(&rk, cws[c]);
          for (unsigned q = 0; q < n; q++)
            {
              unsigned len = op == OP_SINGLE ? rnd_n(&r, rnd_n(&r, 3) ? 40 : 190) : rnd_n(&r, ml + 10), eff;
              rnd_bytes(&r, pay[q], 200);
              memcpy(orig[q], pay[q], 200);
              memcpy(exp_[q], pay[q], 200);
              eff = op == OP_BATCH && len > ml ? ml : len;
              if (op >= OP_SINGLE) ref_run(&rk, enc, exp_[q], eff);
              d[q].data = pay[q];
              d[q].len = len;
            }
          d[n].data = NULL;
          struct timespec t0, t1;
          struct itimerspec off = { { 0, 0 }, { 0, 0 } }, it = { { 0, 0 }, { 0, 0 } };
          uint64_t at = span[op] ? 1 + rnd_n(&r, span[op]) : 0;
          if (!at) leave = 0;
          it.it_value.tv_nsec = at < 999999999 ? at : 999999999;
          vop = c;
          /* not every call is stepped: enough of them to know their length */
          int walk = steps && (leave || st == 0 || !span[op]);
          if (!leave) clock_gettime(CLOCK_MONOTONIC, &t0);
          if (sigsetjmp(ab_jb, 1) == 0)
            {
#ifdef STEPPING
              if (walk) { st_hook = ab_leave; step_begin(leave ? at : 1ULL << 40); }
#endif
              if (leave && !steps) { ab_armed = 1; timer_settime(tm, 0, &it, NULL); }
              switch (op)
                {
                case OP_KEYSET: dvbcsa_key_set(cw, K[c]); break;
                case OP_BSKEYSET: dvbcsa_bs_key_set(cw, BK[c - ABC]); break;
                case OP_SINGLE: single_run(K[c], enc, pay[0], d[0].len); break;
                default: if (enc) dvbcsa_bs_encrypt(BK[c - ABC], d, ml); else dvbcsa_bs_decrypt(BK[c - ABC], d, ml);
                }
              ab_armed = 0;
#ifdef STEPPING
              if (walk) step_end();
#endif
            }
          else
            left = 1;
          if (leave && !steps) timer_settime(tm, 0, &off, NULL);
          if (!leave && walk == steps)
            {                           /* how long such calls take: the window to leave them in */
              clock_gettime(CLOCK_MONOTONIC, &t1);
              uint64_t w = (t1.tv_sec - t0.tv_sec) * 1000000000LL + t1.tv_nsec - t0.tv_nsec;
#ifdef STEPPING
              if (steps) w = st_count;
#endif
              if (!span[op] || w > span[op]) { if (!span[op] || w < span[op] * 20) span[op] = w; }
              else span[op] = (span[op] * 15 + w) / 16 + 1;
            }
          nontrivial_eval(1);
          if (left)
            {
              inside++;
              last[op]++;
              if (op < OP_SINGLE) ok[c] = 0;    /* half a key: to be set again */
              distinct(hash_bytes(op * 8 + enc, (void *)&at, 8));
              sample("%s left after %llu of some %llu %s", opname(op), (unsigned long long)at, (unsigned long long)span[op], steps ? "instructions" : "ns");
              for (unsigned q = 0; q < n; q++)
                {
                  unsigned eff = op == OP_BATCH && d[q].len > ml ? ml : d[q].len;
                  if (op < OP_SINGLE) eff = 0;
                  if (memcmp(pay[q] + eff, orig[q] + eff, 200 - eff)) viol("left-call-wrote-elsewhere", "%s left: packet %u of %u bytes, limit %u: byte %ld behind it changed", opname(op), q, d[q].len, ml, diffpos(pay[q] + eff, orig[q] + eff, 200 - eff));
                }
              continue;
            }
          if (op < OP_SINGLE) { memcpy(cws[c], cw, 8); ok[c] = 1; }
          verified++;
          for (unsigned q = 0; q < n; q++)
            if (memcmp(pay[q], exp_[q], 200))
              {
                viol("after-left-call", "%s %s cw=%s len %u limit %u, %llu calls having been left: wrong result from byte %ld", opname(op), enc ? "encrypt" : "decrypt", hex(cws[c], 8), d[q].len, ml, (unsigned long long)inside, diffpos(pay[q], exp_[q], 200));
                break;
              }
        }
    }
  stat_add("calls_left", inside);
  stat_add("left_key_set", last[OP_KEYSET]);
  stat_add("left_bs_key_set", last[OP_BSKEYSET]);
  stat_add("left_single", last[OP_SINGLE]);
  stat_add("left_batch", last[OP_BATCH]);
  stat_add("calls_checked_afterwards", verified);
}

/* ======================================================================== */
/* C12: allocation                                                            */
static void m_alloc(void)
{
#ifdef WRAP
  unsigned B = bsz(), word = B / 8;
  unsigned sysal = arg_u64("sysalign", 0);
  struct ref_key rk;
  LOOP
    {
      rng_t r = rng_for("alloc", idx);
      uint8_t cw[8], x[64], e[64];
      case_begin(idx);
      nontrivial_eval(1);
      uint64_t live0 = a_live;
      int kind = idx % 4;
      a_exact = !sysal && (rnd(&r) & 1);
      a_fill = rnd(&r) & 0xff;
      if (kind == 0)
        {                       /* nothing can be had */
          a_mode = A_TRACK;
          a_window();
          a_fail_mask = 0;
          a_fail_from = 0;
          struct dvbcsa_key_s *k = dvbcsa_key_alloc();
          uint64_t c1 = a_calls;
          struct dvbcsa_bs_key_s *bk = dvbcsa_bs_key_alloc();
          uint64_t c2 = a_calls;
          if (k && !c1) dvbcsa_key_free(k);
          if (bk && c2 == c1) dvbcsa_bs_key_free(bk);
          a_mode = A_PASS;
          a_fail_from = ~0ULL;
          if (k && c1) viol("failed-allocation-not-reported", "dvbcsa_key_alloc() returned %p although the heap is exhausted", (void *)k);
          if (bk && c2 > c1) viol("failed-allocation-not-reported", "dvbcsa_bs_key_alloc() returned %p although the heap is exhausted", (void *)bk);
          /* the clean-up of a program that got nothing, or never set a key */
          a_mode = A_TRACK;
          dvbcsa_key_free(NULL);
          dvbcsa_bs_key_free(NULL);
          dvbcsa_key_free(dvbcsa_key_alloc());
          dvbcsa_bs_key_free(dvbcsa_bs_key_alloc());
          a_mode = A_PASS;
          stat_add("contexts_freed_unused_or_absent", 4);
          stat_add("refused_allocations", c2);
          if (c1 == 0 || c2 == c1) stat_add("allocations_not_from_the_heap", 1);
          if (a_live != live0) viol("leak", "%lld blocks left after failed allocations", (long long)(a_live - live0));
          distinct(hash_bytes(0, &idx, 8));
          continue;
        }
      if (kind == 1)
        {                       /* one of the first requests is refused */
          a_mode = A_TRACK;
          a_window();
          a_fail_from = ~0ULL;
          a_fail_mask = 1ULL << rnd_n(&r, 4);
          struct dvbcsa_key_s *k = dvbcsa_key_alloc();
          uint64_t n1 = a_calls;
          a_window();
          struct dvbcsa_bs_key_s *bk = dvbcsa_bs_key_alloc();
          uint64_t n2 = a_calls;
          a_fail_mask = 0;
          gen_cw(&r, cw);
          ref_key_set(&rk, cw);
          rnd_bytes(&r, x, 64);
          memcpy(e, x, 64);
          ref_encrypt(&rk, e, 64);
          if (k)
            {
              uint8_t y[64];
              memcpy(y, x, 64);
              dvbcsa_key_set(cw, k);
              dvbcsa_encrypt(k, y, 64);
              if (memcmp(y, e, 64)) viol("context-unusable", "single context obtained after a refused request");
              dvbcsa_key_free(k);
            }
          if (bk)
            {
              uint8_t y[64];
              struct dvbcsa_bs_batch_s d[2] = { { y, 64 }, { NULL, 0 } };
              memcpy(y, x, 64);
              dvbcsa_bs_key_set(cw, bk);
              dvbcsa_bs_encrypt(bk, d, 64);
              if (memcmp(y, e, 64)) viol("context-unusable", "parallel context obtained after a refused request");
              dvbcsa_bs_key_free(bk);
            }
          a_mode = A_PASS;
          stat_add("allocations_with_one_refusal", 2);
          stat_add("heap_requests", n1 + n2);
          if (a_live != live0) viol("leak", "%lld blocks left", (long long)(a_live - live0));
          distinct(hash_bytes(1, &idx, 8));
          continue;
        }
      /* lifecycle: several contexts, released in random order */
      enum { N = 160 };
      static void *ctx[N];
      static int bs[N];
      static struct ref_key keys[N];
      static uint8_t big[MAXB * 192], bigx[MAXB * 192];
      a_fail_mask = 0;
      a_fail_from = ~0ULL;
      unsigned i, j, n = 1 + rnd_n(&r, rnd_n(&r, 16) ? 12 : N);
      for (i = 0; i < n; i++)
        {
          bs[i] = rnd(&r) & 1;
          a_mode = sysal ? A_PASS : A_TRACK;
          a_fill = rnd(&r) & 0xff;
          ctx[i] = bs[i] ? (void *)dvbcsa_bs_key_alloc() : (void *)dvbcsa_key_alloc();
          a_mode = A_PASS;
          if (!ctx[i]) { viol("spurious-failure", "allocation failed though memory is available"); n = i; break; }
          if (bs[i] && (uintptr_t)ctx[i] % word) viol("context-misaligned", "parallel context at %p, words are %u bytes", ctx[i], word);
          for (j = 0; j < i; j++) if (ctx[j] == ctx[i]) viol("context-shared", "the same context was handed out twice");
        }
      for (i = 0; i < n; i++)
        {                       /* key setup and processing ask for no memory: the heap is exhausted */
          gen_cw(&r, cw);
          ref_key_set(&keys[i], cw);
          a_mode = A_TRACK;
          a_window();
          a_fail_from = 0;
          if (bs[i]) dvbcsa_bs_key_set(cw, ctx[i]); else dvbcsa_key_set(cw, ctx[i]);
          a_mode = A_PASS;
          a_fail_from = ~0ULL;
          if (a_calls) viol("heap-used-in-key-setup", "%llu requests", (unsigned long long)a_calls);
          stat_add("key_setups_without_heap", 1);
        }
      for (i = 0; i < n; i++)
        {
          unsigned len = rnd_n(&r, 65);
          int enc = rnd(&r) & 1;
          rnd_bytes(&r, x, 64);
          memcpy(e, x, 64);
          ref_run(&keys[i], enc, e, len);
          uint64_t fr0 = a_frees;
          a_mode = A_TRACK;
          a_window();
          a_fail_from = 0;
          if (bs[i])
            {
              struct dvbcsa_bs_batch_s d[2] = { { x, len }, { NULL, 0 } };
              if (enc) dvbcsa_bs_encrypt(ctx[i], d, 64); else dvbcsa_bs_decrypt(ctx[i], d, 64);
            }
          else single_run(ctx[i], enc, x, len);
          a_mode = A_PASS;
          a_fail_from = ~0ULL;
          if (a_calls || a_frees != fr0) viol("heap-used-in-processing", "%llu requests", (unsigned long long)a_calls);
          if (memcmp(x, e, 64)) viol("context-unusable", "wrong result with the heap exhausted (or contexts overlap)");
          if (!rnd_n(&r, 24))
            {                   /* any size of batch, any limit, long payloads too */
              unsigned cnt = gen_count(&r, B), ml = gen_maxlen(&r);
              struct dvbcsa_bs_batch_s d[MAXB + 1];
              rnd_bytes(&r, big, cnt * 192);
              memcpy(bigx, big, cnt * 192);
              for (j = 0; j < cnt; j++) d[j].data = big + 192 * j, d[j].len = gen_len(&r, 192);
              d[cnt].data = NULL;
              d[cnt].len = 0;
              fr0 = a_frees;
              a_mode = A_TRACK;
              a_window();
              a_fail_from = 0;
              if (bs[i])
                { if (enc) dvbcsa_bs_encrypt(ctx[i], d, ml); else dvbcsa_bs_decrypt(ctx[i], d, ml); }
              else single_run(ctx[i], enc, big, cnt * 192);
              a_mode = A_PASS;
              a_fail_from = ~0ULL;
              if (a_calls || a_frees != fr0) viol("heap-used-in-processing", "%llu requests by a call of full size", (unsigned long long)a_calls);
              if (bs[i])
                for (j = 0; j < cnt; j++) ref_run(&keys[i], enc, bigx + 192 * j, d[j].len < ml ? d[j].len : ml);
              else ref_run(&keys[i], enc, bigx, cnt * 192);
              if (memcmp(big, bigx, cnt * 192)) viol("context-unusable", "wrong result with the heap exhausted (%s, %u packets, limit %u)", bs[i] ? "batch" : "single", cnt, ml);
              stat_add("large_calls_without_heap", 1);
            }
          stat_add("calls_without_heap", 1);
        }
      for (i = n; i > 0; i--)
        {
          j = rnd_n(&r, i);
          a_mode = sysal ? A_PASS : A_TRACK;
          if (bs[j]) dvbcsa_bs_key_free(ctx[j]); else dvbcsa_key_free(ctx[j]);
          a_mode = A_PASS;
          ctx[j] = ctx[i - 1], bs[j] = bs[i - 1];
        }
      if (a_live != live0) viol("leak", "%lld blocks left after releasing all contexts", (long long)(a_live - live0));
      stat_add("contexts", n);
      distinct(hash_bytes(2, &idx, 8));
      sample("%u contexts, minimal alignment %d, then processing with an exhausted heap", n, a_exact);
    }
#else
  die("alloc needs the allocator wrappers");
#endif
}

/* ======================================================================== */
/* C15: CPU state                                                             */
#if defined(__x86_64__) || defined(__i386__)
struct fpenv { uint16_t cw, r0, sw, r1, tw, r2; uint32_t ip, x, dp, y; };
static void cpu_get(struct fpenv *f, uint32_t *mx, uint64_t *fl)
{
  __asm__ volatile("fnstenv %0\n\tfldenv %0" : "=m"(*f) : : "memory");
  __asm__ volatile("stmxcsr %0" : "=m"(*mx));
#if defined(__i386__)
  uint32_t fl32;
  __asm__ volatile("pushfl\n\tpopl %0" : "=r"(fl32) : : "memory");
  *fl = fl32;
#else
  __asm__ volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\tpopq %0\n\tlea 128(%%rsp),%%rsp" : "=r"(*fl) : : "memory");
#endif
}
#endif
static void m_fpu(void)
{
  struct dvbcsa_key_s *k = NULL;
  struct dvbcsa_bs_key_s *bk = NULL;
  struct batch *b = batch_new();
  unsigned B = bsz();
  k = xkey();
  bk = xbskey();
  LOOP
    {
      rng_t r = rng_for("fpu", idx);
      int op = idx % 9, ex = 0;
      uint8_t x[256];
      const char *name = "";
      unsigned len = gen_len(&r, 184);
      batch_gen2(&r, b, LEN_ANY, gen_count(&r, B), ~0u);
      rnd_bytes(&r, x, sizeof x);
      case_begin(idx);
#if defined(__x86_64__) || defined(__i386__)
      static const uint16_t cws[] = { 0x37f, 0x27f, 0x77f, 0xb7f, 0xf7f, 0x07f, 0x67f };
      uint16_t cw = cws[rnd_n(&r, 7)];
      uint32_t mx = 0x1f80 | (rnd_n(&r, 4) << 13) | (rnd(&r) & 0x8040) | (rnd(&r) & 0x3f);
      struct fpenv f;
      uint32_t mx2;
      uint64_t fl;
      if (rnd(&r) & 1) cw = 0x37f, mx = 0x1f80;
      __asm__ volatile("fninit\n\tfldcw %0\n\tldmxcsr %1" : : "m"(cw), "m"(mx) : "memory");
#elif defined(__aarch64__)
      uint64_t fp0 = (rnd_n(&r, 4) << 22) | ((rnd(&r) & 1) << 24), fp1;
      uint64_t d0[8], d1[8];
      __asm__ volatile("msr fpcr, %0" : : "r"(fp0));
#elif defined(__powerpc__)
      double fs0, fs1;
      unsigned rm = rnd_n(&r, 4);
      switch (rm) { case 0: __asm__ volatile("mtfsfi 7,0"); break; case 1: __asm__ volatile("mtfsfi 7,1"); break;
                    case 2: __asm__ volatile("mtfsfi 7,2"); break; default: __asm__ volatile("mtfsfi 7,3"); }
      __asm__ volatile("mffs %0" : "=f"(fs0));
#endif
      struct dvbcsa_key_s *tk = NULL;
      struct dvbcsa_bs_key_s *tbk = NULL;
      switch (op)
        {
        case 0: name = "dvbcsa_key_set"; dvbcsa_key_set(b->cw, k); break;
        case 1: name = "dvbcsa_bs_key_set"; dvbcsa_bs_key_set(b->cw, bk); break;
        case 2: name = "dvbcsa_encrypt"; dvbcsa_encrypt(k, x, len); break;
        case 3: name = "dvbcsa_decrypt"; dvbcsa_decrypt(k, x, len); break;
        case 4: case 5: name = "dvbcsa_bs_encrypt"; dvbcsa_bs_encrypt(bk, b->d, b->maxlen); break;
        case 6: case 7: name = "dvbcsa_bs_decrypt"; dvbcsa_bs_decrypt(bk, b->d, b->maxlen); break;
        default: name = "allocation and batch size"; tk = dvbcsa_key_alloc(); tbk = dvbcsa_bs_key_alloc(); ex = dvbcsa_bs_batch_size() != B; break;
        }
#if defined(__x86_64__) || defined(__i386__)
      cpu_get(&f, &mx2, &fl);
      uint32_t mx_ok = 0x1f80;
      __asm__ volatile("fninit\n\tldmxcsr %0" : : "m"(mx_ok) : "memory");
      if (f.tw != 0xffff) viol("x87-stack-not-empty", "after %s (batch of %u, limit %u): tag word %04x", name, b->n, b->maxlen, f.tw);
      if (f.cw != cw) viol("x87-control-changed", "after %s: %04x, was %04x", name, f.cw, cw);
      if ((mx2 ^ mx) & 0xffc0) viol("mxcsr-changed", "after %s: %04x, was %04x", name, mx2, mx);
      if (fl & 0x400) viol("direction-flag-set", "after %s", name);
#elif defined(__aarch64__)
      __asm__ volatile("mrs %0, fpcr" : "=r"(fp1));
      __asm__ volatile("msr fpcr, %0" : : "r"(0UL));
      (void)d0; (void)d1;
      if (fp1 != fp0) viol("fpcr-changed", "after %s: %llx, was %llx", name, (unsigned long long)fp1, (unsigned long long)fp0);
#elif defined(__powerpc__)
      __asm__ volatile("mffs %0" : "=f"(fs1));
      uint64_t u0, u1;
      memcpy(&u0, &fs0, 8);
      memcpy(&u1, &fs1, 8);
      __asm__ volatile("mtfsfi 7,0");
      if ((u0 ^ u1) & 3) viol("fpscr-changed", "after %s: rounding mode %u, was %u", name, (unsigned)(u1 & 3), (unsigned)(u0 & 3));
#endif
      if (ex) viol("batch-size", "changed");
      /* and floating point still works */
      volatile long double s = 1.0L, t = 3.0L;
      volatile double ds = 1.0;
      for (int i = 0; i < 8; i++) { s = s / t + 2.0L; ds = ds / 3.0 + 2.0; }
      if (!(s > 2.99L && s < 3.01L) || !(ds > 2.99 && ds < 3.01)) viol("floating-point-broken", "after %s: %g %g", name, (double)s, ds);
      if (tk) dvbcsa_key_free(tk);
      if (tbk) dvbcsa_bs_key_free(tbk);
      nontrivial_eval(1);
      distinct(hash_bytes(op, &idx, 8));
      stat_add(name, 1);
      sample("%s: control state preserved, batch n=%u limit=%u", name, b->n, b->maxlen);
    }
}

/* ======================================================================== */
/* C17: purity                                                                */
static void m_pure(void)
{
  struct dvbcsa_key_s *k = xkey();
  struct dvbcsa_bs_key_s *bk = xbskey();
  unsigned B;
  uint64_t steps = 0;
  char tmpl[] = "/tmp/vpure.XXXXXX";
  int tmp = mkstemp(tmpl);
  if (tmp < 0) die("mkstemp");
  unlink(tmpl);
  int stepping = arg_u64("step", 1), so = dup(1), se = dup(2), empty = open("/dev/null", O_RDONLY);
  fflush(stdout);
  if (dup2(tmp, 1) < 0 || dup2(tmp, 2) < 0 || dup2(empty, 0) < 0) die("dup2");
#ifdef STEPPING
  step_setup();
  st_look = 1;
#else
  stepping = 0;
#endif
  char msgs[20][300];
  int nm = 0;
  uint64_t evals = 0, single = 0, batch = 0, ks = 0;
  /* looking at the environment faults */
  char **env = environ, **trap = mmap(NULL, pgsz(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (trap == MAP_FAILED) die("mmap");
#ifdef STEPPING
  if (stepping)
    {                           /* the very first calls of the process, when tables may be built */
      static uint8_t z[8], b8[2][16];
      struct dvbcsa_bs_batch_s d[2] = { { b8[1], 16 }, { NULL, 0 } };
      int order = arg_u64("from", 0) / 7 % 4;
      environ = trap;
      errno = 4321;
      step_begin(0);
      if (order == 0) dvbcsa_bs_batch_size();
      if (order < 2) { dvbcsa_key_set(z, k); dvbcsa_encrypt(k, b8[0], 16); dvbcsa_bs_key_set(z, bk); dvbcsa_bs_encrypt(bk, d, 8); }
      else if (order == 2) { dvbcsa_bs_key_set(z, bk); dvbcsa_bs_decrypt(bk, d, 8); dvbcsa_key_set(z, k); dvbcsa_decrypt(k, b8[0], 16); }
      else { dvbcsa_bs_key_set(z, bk); dvbcsa_bs_encrypt(bk, d, 8); dvbcsa_bs_decrypt(bk, d, 8); }
      step_end();
      environ = env;
      if (errno != 4321) snprintf(msgs[nm++], 300, "errno-changed errno became %d in the first calls of the process", errno);
      if (st_syscalls) snprintf(msgs[nm++], 300, "system-call the first calls of the process executed %llu system call instructions", (unsigned long long)st_syscalls);
      if (st_hidden) snprintf(msgs[nm++], 300, "hidden-input the first calls of the process executed a clock or random number instruction (%02x %02x %02x)", st_op[0], st_op[1], st_op[2]);
      steps += st_count;
    }
#endif
  B = bsz();
  LOOP
    {
      rng_t r = rng_for("pure", idx);
      uint8_t cw[8], in[4][192], x[4][192], y[4][192];
      struct dvbcsa_bs_batch_s d[5];
      int op = rnd_n(&r, 8), enc = rnd(&r) & 1, e = 1000 + rnd_n(&r, 1000), e1;
      unsigned n = rnd_n(&r, 5), ml = op == 7 && !rnd_n(&r, 6) ? 184 : 8 * rnd_n(&r, 5), i, len = rnd_n(&r, 3) ? gen_len(&r, 64) : gen_len(&r, 184);
      if (n > B) n = B;
      gen_cw(&r, cw);
      rnd_bytes(&r, in, sizeof in);
      case_begin(idx);
      for (int rep = 0; rep < 2; rep++)
        {                       /* the same call twice, with something else in between */
          memcpy(x, in, sizeof x);
          for (i = 0; i < n; i++) d[i].data = x[i], d[i].len = gen_len(&(rng_t){ { idx + i + 1, i + 7 } }, 184);
          memset(&d[n], 0, sizeof d[n]);
          if (op >= 2) { dvbcsa_key_set(cw, k); dvbcsa_bs_key_set(cw, bk); }
          errno = e;
          environ = trap;
#ifdef STEPPING
          st_syscalls = st_hidden = 0;
          if (stepping && !rep) step_begin(0);
#endif
          switch (op)
            {
            case 0: dvbcsa_key_set(cw, k); break;
            case 1: dvbcsa_bs_key_set(cw, bk); break;
            case 2: case 3: case 4: if (enc) dvbcsa_encrypt(k, x[0], len); else dvbcsa_decrypt(k, x[0], len); break;
            case 5: (void)dvbcsa_bs_batch_size();   /* fall through */
            default: if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
            }
#ifdef STEPPING
          if (stepping && !rep) step_end();
#endif
          environ = env;
          e1 = errno;
          if (e1 != e && nm < 20) snprintf(msgs[nm++], 300, "errno-changed errno %d became %d in operation %d", e, e1, op);
#ifdef STEPPING
          if (stepping && !rep)
            {
              steps += st_count;
              if (st_syscalls && nm < 20) snprintf(msgs[nm++], 300, "system-call operation %d executed %llu system call instructions", op, (unsigned long long)st_syscalls);
              if (st_hidden && nm < 20) snprintf(msgs[nm++], 300, "hidden-input operation %d executed a clock or random number instruction (%02x %02x %02x)", op, st_op[0], st_op[1], st_op[2]);
            }
#endif
          /* key setups are observed through processing */
          if (op == 0) dvbcsa_encrypt(k, x[0], 64);
          if (op == 1) { struct dvbcsa_bs_batch_s q[2] = { { x[0], 64 }, { NULL, 0 } }; dvbcsa_bs_encrypt(bk, q, 64); }
          if (!rep)
            {
              memcpy(y, x, sizeof y);
              uint8_t cw2[8];
              struct dvbcsa_bs_batch_s q[2] = { { x[0], 16 }, { NULL, 0 } };
              gen_cw(&r, cw2);
              dvbcsa_key_set(cw2, k);
              dvbcsa_bs_key_set(cw2, bk);
              dvbcsa_decrypt(k, x[0], 40);
              dvbcsa_bs_decrypt(bk, q, 24);
            }
          else if (memcmp(x, y, sizeof x) && nm < 20)
            snprintf(msgs[nm++], 300, "not-deterministic operation %d cw=%s gave different bytes the second time", op, hex(cw, 8));
          evals++;
          if (op >= 5) batch++; else if (op >= 2) single++; else ks++;
        }
      fflush(NULL);
      off_t o = lseek(tmp, 0, SEEK_END);
      if (o > 0)
        {
          char buf[100] = "";
          if (pread(tmp, buf, 80, 0) < 0) {}
          for (char *q = buf; *q; q++) if (*q < 32) *q = ' ';
          if (nm < 20) snprintf(msgs[nm++], 300, "output operation %d wrote %ld bytes: %s", op, (long)o, buf);
          if (ftruncate(tmp, 0)) {}
          lseek(tmp, 0, SEEK_SET);
        }
      if (nm >= 20) break;
      distinct(hash_bytes(op, &idx, 8));
    }
  if (dup2(so, 1) < 0 || dup2(se, 2) < 0) die("dup2");
  for (int i = 0; i < nm; i++)
    {
      char *sp = strchr(msgs[i], ' ');
      *sp = 0;
      viol(msgs[i], "%s", sp + 1);
    }
  nontrivial_eval(evals);
  stat_add("instructions_stepped", steps);
  stat_add("single_calls", single);
  stat_add("batch_calls", batch);
  stat_add("key_setups", ks);
  sample("%llu calls, %llu instructions inspected", (unsigned long long)evals, (unsigned long long)steps);
}

/* ======================================================================== */
/* C18: invalid limits                                                        */
static void m_abort(void)
{
  unsigned B = bsz();
  struct dvbcsa_bs_key_s *bk = xbskey();
  size_t N = MAXB * 184;
  uint8_t *sh = mmap(NULL, N, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0), *img = malloc(N);
  if (sh == MAP_FAILED) die("mmap");
  unsigned sweep = arg_u64("sweep", 0);
  struct dvbcsa_bs_batch_s *d = calloc(MAXB + 1, sizeof *d);
  static const unsigned sp[] = { 185, 186, 191, 192, 188, 200, 256, 264, 184 + 256, 65536, 65536 + 184, 0x80000000u, 0x80000008u, 0xfffffff8u, 0xffffffffu,
    0xfffffff0u, 0x100u, 0x7ffffff8u, 0x7fffffffu, 0xffffff00u, 0xffffff08u, 0x10000b8u, 0x100b8u, 0x1b8u, 0xc0, 0xc8, 0xd0, 0xe0, 0xf8 };
  LOOP
    {
      rng_t r = rng_for("abort", idx);
      unsigned ml, n = 1 + rnd_n(&r, B), i;
      uint8_t cw[8];
      int enc = rnd(&r) & 1, st;
      if (idx < sweep) ml = idx / 2, enc = idx & 1;
      else switch (rnd_n(&r, 5))
        {
        case 0: ml = rnd(&r); break;
        case 1: ml = sp[rnd_n(&r, sizeof sp / sizeof *sp)]; break;
        case 2: ml = 8 * rnd_n(&r, 24) + 1 + rnd_n(&r, 7); break;
        case 3: ml = 184 + 8 * rnd_n(&r, 1000); break;
        default: ml = (unsigned)rnd(&r) & ~7u; break;
        }
      int valid = ml % 8 == 0 && ml <= DVBCSA_BS_MAX_PACKET_LEN;
      if (rnd(&r) & 1) n = 1 + rnd_n(&r, 3);
      if (n > B) n = B;
      gen_cw(&r, cw);
      dvbcsa_bs_key_set(cw, bk);
      rnd_bytes(&r, sh, n * 184);
      memcpy(img, sh, n * 184);
      for (i = 0; i < n; i++) d[i].data = sh + 184 * i, d[i].len = rnd(&r) & 1 ? 184 : gen_len(&r, 184);
      d[n].data = NULL;
      case_begin(idx);
      fflush(stdout);
      pid_t p = fork();
      if (p < 0) die("fork");
      if (!p)
        {
          struct rlimit rl = { 0, 0 };
          int nul = open("/dev/null", O_WRONLY);
          setrlimit(RLIMIT_CORE, &rl);
          dup2(nul, 1);
          dup2(nul, 2);
          signal(SIGABRT, SIG_DFL);
          signal(SIGSEGV, SIG_DFL);
          signal(SIGBUS, SIG_DFL);
          signal(SIGILL, SIG_DFL);
          signal(SIGFPE, SIG_DFL);
          alarm(60);
          if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
          _exit(0);
        }
      if (waitpid(p, &st, 0) != p) die("waitpid");
      int same = !memcmp(sh, img, n * 184);
      const char *what = enc ? "dvbcsa_bs_encrypt" : "dvbcsa_bs_decrypt";
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) die("a child was killed from outside");
      if (valid)
        {
          if (!WIFEXITED(st) || WEXITSTATUS(st)) viol("valid-limit-refused", "%s with limit %u, %u packets: status %x", what, ml, n, st);
          stat_add("valid_limits", 1);
        }
      else
        {
          if (WIFEXITED(st)) viol("invalid-limit-accepted", "%s with limit %u returned%s", what, ml, same ? "" : ", payloads changed");
          else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) viol("invalid-limit-crash", "%s with limit %u: signal %d instead of an abort", what, ml, WTERMSIG(st));
          else if (!same) viol("data-touched-before-abort", "%s with limit %u aborted after changing payload byte %ld", what, ml, diffpos(sh, img, n * 184));
          stat_add("invalid_limits", 1);
        }
      nontrivial_eval(1);
      distinct(hash_bytes(enc, &ml, 4));
      sample("%s limit=%u n=%u -> %s", what, ml, n, WIFSIGNALED(st) ? "abort" : "return");
    }
}

/* ======================================================================== */
/* C19: instruction counts                                                    */
#ifdef STEPPING
static uint64_t cost_batch(struct dvbcsa_bs_key_s *bk, struct dvbcsa_bs_batch_s *d, int enc, unsigned ml)
{
  st_ceil = 3 * (2e5 + 4e4 * (ml + 8.0));
  step_begin(0);
  if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
  step_end();
  stat_add("instructions_counted", st_count);
  nontrivial_eval(1);
  return st_count;
}
static uint64_t cost_single(struct dvbcsa_key_s *k, uint8_t *p, int enc, unsigned len)
{
  st_ceil = 3 * (5e4 + 2e4 * (double)len);
  step_begin(0);
  single_run(k, enc, p, len);
  step_end();
  stat_add("instructions_counted", st_count);
  nontrivial_eval(1);
  return st_count;
}
#endif
/* arguments: what=limits|kinds|lens|content|keys, enc=0|1.  The bounds are wide:
   they separate proportional from not proportional, not fast from slow. */
static void m_cost(void)
{
#ifdef STEPPING
  struct dvbcsa_key_s *k = xkey();
  struct dvbcsa_bs_key_s *bk = xbskey();
  unsigned B = bsz(), i, full = arg_u64("full", 0);
  int enc = arg_u64("enc", 0);
  const char *what = arg_str("what", "limits"), *dn = enc ? "encrypt" : "decrypt";
  size_t big = 40000;
  uint8_t *mem = malloc(MAXB * 200 + big), *one = malloc(1 << 17);
  struct dvbcsa_bs_batch_s *d = calloc(MAXB + 1, sizeof *d);
  rng_t r = rng_for(what, enc);
  uint8_t cw[8];
  st_look = 0;
  step_setup();
  rnd_bytes(&r, cw, 8);
  dvbcsa_key_set(cw, k);
  dvbcsa_bs_key_set(cw, bk);
  for (i = 0; i < B; i++) d[i].data = mem + 200 * i;
  memset(&d[B], 0, sizeof *d);
  double slack = 4000 + 60.0 * B;
  if (!strcmp(what, "limits"))
    {
      unsigned mls[24], n = 0;
      uint64_t c184 = 0;
      mls[n++] = 184;
      mls[n++] = 8;
      mls[n++] = 0;
      if (full) for (i = 2; i < 23; i++) mls[n++] = 8 * i;
      else { mls[n++] = 16 + 8 * rnd_n(&r, 6); mls[n++] = 64 + 8 * rnd_n(&r, 8); }
      for (unsigned q = 0; q < n; q++)
        {
          unsigned ml = mls[q];
          rnd_bytes(&r, mem, B * 200);
          /* lengths up to 184, all of them longer than a short limit now and then */
          for (i = 0; i < B; i++) d[i].len = q & 1 ? 184 : ml;
          case_begin(ml * 2 + enc);
          uint64_t v = cost_batch(bk, d, enc, ml);
          if (!q) c184 = v;
          distinct(1 + ml * 2 + enc);
          if (v > 1.3 * c184 * (ml + 24) / (184 + 24) + slack)
            viol("limit-does-not-bound-work", "%s of a full batch: %llu instructions with limit %u, %llu with limit 184", dn, (unsigned long long)v, ml, (unsigned long long)c184);
          if (v > 2e5 + 4e4 * (ml + 8.0))
            viol("unbounded-work", "%s of a full batch with limit %u: %llu instructions", dn, ml, (unsigned long long)v);
          printf("COST %s batch full limit=%u %llu\n", dn, ml, (unsigned long long)v);
        }
    }
  else if (!strcmp(what, "pays"))
    {
      /* a full batch against as many calls of the single packet API */
      for (unsigned q = 0; q < (full ? 60 : 4); q++)
        {
          unsigned ml = q < 2 ? 184 : 64 + 8 * rnd_n(&r, 16), mix = q & 3;
          uint8_t cw2[8];
          gen_cw(&r, cw2);
          if (!q) rnd_bytes(&r, cw2, 8);
          dvbcsa_key_set(cw2, k);
          dvbcsa_bs_key_set(cw2, bk);
          rnd_bytes(&r, mem, B * 200);
          rnd_bytes(&r, one, 184);
          /* full length, all with a residue, a few short ones, some beyond the limit */
          for (i = 0; i < B; i++)
            d[i].len = mix == 1 ? ml - 1 - rnd_n(&r, 7) : mix == 2 && rnd_n(&r, 8) == 0 ? rnd_n(&r, ml) : mix == 3 && rnd_n(&r, 2) ? ml + rnd_n(&r, 16) : ml;
          case_begin(500000 + (ml * 4 + mix) * 2 + enc);
          uint64_t v = cost_batch(bk, d, enc, ml), w = cost_single(k, one, enc, ml);
          distinct(500000 + (ml * 4 + mix) * 2 + enc);
          printf("COST %s full batch limit=%u mix=%u %llu, %u single calls %llu\n", dn, ml, mix, (unsigned long long)v, B, (unsigned long long)w * B);
          if (v > w * B / 2)
            viol("batching-does-not-pay", "%s of a full batch of %u packets, limit %u, kind %u, cw=%s: %llu instructions, one packet of that length alone %llu",
                 dn, B, ml, mix, hex(cw2, 8), (unsigned long long)v, (unsigned long long)w);
        }
    }
  else if (!strcmp(what, "kinds"))
    {
      unsigned ML = 8 * (1 + rnd_n(&r, 4));
      uint64_t base = 0;
      for (int kind = -1; kind < 10; kind++)
        {
          unsigned n = B;
          uint8_t cw2[8];
          rnd_bytes(&r, mem, B * 200 + big);
          rnd_bytes(&r, cw2, 8);
          if (kind > 1 && kind & 1) gen_cw(&r, cw2);
          for (i = 0; i < B; i++) d[i].data = mem + 200 * i, d[i].len = ML;
          switch (kind)
            {
            case -1: break;
            case 0: memset(mem, 0, B * 200); memset(cw2, 0, 8); break;
            case 1: memset(mem, 0xff, B * 200); memset(cw2, 0xff, 8); break;
            case 2: n = 1; break;
            case 3: n = B / 2 + 1 > B ? B : B / 2 + 1; for (i = 0; i < n; i++) d[i].len = i % (ML + 1); break;
            case 4: d[0].data = mem + 200 * B; d[0].len = big; break;          /* far beyond the limit */
            case 5: n = 0; break;
            case 6: for (i = 0; i < B; i++) d[i].len = 184; break;
            case 7: for (i = 0; i < B; i++) d[i].len = i % 9; break;
            case 8: d[B - 1].data = mem + 200 * B; d[B - 1].len = big - 3; break;
            default: n = 1 + rnd_n(&r, B); for (i = 0; i < n; i++) d[i].len = rnd_n(&r, 185); break;
            }
          d[n].data = NULL;
          case_begin(100000 + kind * 2 + enc);
          dvbcsa_bs_key_set(cw2, bk);
          uint64_t v = cost_batch(bk, d, enc, ML);
          if (kind < 0) base = v;
          distinct(100000 + kind * 2 + enc);
          printf("COST %s batch kind=%d limit=%u n=%u %llu\n", dn, kind, ML, n, (unsigned long long)v);
          if (v > base * 1.3 + slack)
            viol(kind == 4 || kind == 6 || kind >= 8 ? "packet-length-beyond-limit-costs" : kind < 2 ? "content-dependent-work" : "count-dependent-work",
                 "%s, limit %u, kind %d, %u packets: %llu instructions, %llu for a full random batch", dn, ML, kind, n, (unsigned long long)v, (unsigned long long)base);
        }
    }
  else if (!strcmp(what, "lens"))
    {
      static const unsigned fixed[] = { 0, 8, 64, 184, 1024, 4096, 8192, 16384 };
      unsigned ls[32], n = 0;
      uint64_t c1k = 0;
      ls[n++] = 512;
      for (i = 0; i < (full ? 8 : 5); i++) ls[n++] = fixed[i];
      for (i = 0; i < 8; i++) ls[n++] = rnd_n(&r, 600);
      for (unsigned q = 0; q < n; q++)
        {
          rnd_bytes(&r, one, ls[q]);
          case_begin(200000 + ls[q] * 2 + enc);
          uint64_t v = cost_single(k, one, enc, ls[q]);
          if (!q) c1k = v;
          distinct(200000 + ls[q] * 2 + enc);
          printf("COST %s single len=%u %llu\n", dn, ls[q], (unsigned long long)v);
          if (v > 1.3 * c1k * (ls[q] + 16) / 528 + 3000)
            viol("not-linear-in-length", "%s of %u bytes: %llu instructions, %llu for 512", dn, ls[q], (unsigned long long)v, (unsigned long long)c1k);
          if (v > 5e4 + 2e4 * (double)ls[q])
            viol("unbounded-work", "%s of %u bytes: %llu instructions", dn, ls[q], (unsigned long long)v);
        }
    }
  else if (!strcmp(what, "content"))
    {
      unsigned len = 24 + rnd_n(&r, 60);
      uint64_t base = 0;
      for (int kind = -1; kind < (full ? 80 : 20); kind++)
        {
          uint8_t cw2[8];
          gen_cw(&r, cw2);
          gen_payload(&r, one, len);
          if (kind == -1) rnd_bytes(&r, one, len), rnd_bytes(&r, cw2, 8);
          if (kind == 0) memset(one, 0, len), memset(cw2, 0, 8);
          if (kind == 1) memset(one, 0xff, len), memset(cw2, 0xff, 8);
          if (kind == 2) memset(one, 0, len);
          if (kind == 3) memset(cw2, 0, 8);
          if (kind == 4) for (i = 0; i < len; i++) one[i] = cw2[i & 7];
          case_begin(300000 + (kind + 1) * 2 + enc);
          dvbcsa_key_set(cw2, k);
          uint64_t v = cost_single(k, one, enc, len);
          if (kind < 0) base = v;
          distinct(300000 + (kind + 1) * 2 + enc);
          if (v > 1.3 * base + 2000 || v * 1.3 + 2000 < base)
            viol("content-dependent-work", "%s of %u bytes, content %d, cw=%s: %llu instructions, %llu for random content", dn, len, kind, hex(cw2, 8), (unsigned long long)v, (unsigned long long)base);
        }
    }
  else
    {
      uint64_t k0 = 0, b0 = 0;
      for (int kind = 0; kind < (full ? 400 : 60); kind++)
        {
          uint8_t cw2[8];
          gen_cw(&r, cw2);
          if (kind == 0) rnd_bytes(&r, cw2, 8);
          if (kind == 1) memset(cw2, 0, 8);
          if (kind == 2) memset(cw2, 0xff, 8);
          case_begin(400000 + kind);
          st_ceil = 1000000;
          step_begin(0); dvbcsa_key_set(cw2, k); step_end();
          uint64_t v = st_count;
          step_begin(0); dvbcsa_bs_key_set(cw2, bk); step_end();
          uint64_t w = st_count;
          nontrivial_eval(2);
          distinct(400000 + kind);
          stat_add("instructions_counted", v + w);
          if (!kind) k0 = v, b0 = w;
          if (v > 1.5 * k0 + 2000 || w > 1.5 * b0 + 4000 || k0 > 1.5 * v + 2000 || b0 > 1.5 * w + 4000)
            viol("content-dependent-work", "key setup with cw=%s: %llu and %llu instructions, %llu and %llu for another one", hex(cw2, 8), (unsigned long long)v, (unsigned long long)w, (unsigned long long)k0, (unsigned long long)b0);
        }
    }
  sample("instruction counts of single stepped calls, %s %s", what, dn);
#else
  die("no single stepping on this target");
#endif
}

/* ======================================================================== */
/* C21: stale and uninitialised memory                                        */
#if defined(__GNUC__) && !defined(__clang__)
__attribute__((noinline, optimize("O0")))
#else
__attribute__((noinline))
#endif
static void scribble(rng_t *r, int how)
{
  volatile uint64_t big[60000];
  uint64_t v = how == 0 ? 0 : how == 1 ? ~0ULL : rnd(r);
  /* what lengths, counts, flags and addresses left behind look like */
  if (how == 2)
    switch (v & 3)
      {
      case 0: v = 0x0000000800000008ULL * (1 + (v >> 8) % 23); break;
      case 1: v = 0x0000000100000001ULL * ((v >> 8) % 257); break;
      case 2: v = (uint64_t)(uintptr_t)&v - (v >> 8) % 4096; break;
      default: break;
      }
  for (unsigned i = 0; i < 60000; i++) big[i] = how < 3 ? v : (v = v * 6364136223846793005ULL + 1442695040888963407ULL);
#if defined(__x86_64__)
  /* registers a function may find anything in */
  __asm__ volatile("movq %0, %%xmm0\n\tpunpcklqdq %%xmm0, %%xmm0\n\tmovdqa %%xmm0, %%xmm1\n\tmovdqa %%xmm0, %%xmm2\n\tmovdqa %%xmm0, %%xmm3\n\t"
                   "movdqa %%xmm0, %%xmm4\n\tmovdqa %%xmm0, %%xmm5\n\tmovdqa %%xmm0, %%xmm6\n\tmovdqa %%xmm0, %%xmm7\n\tmovdqa %%xmm0, %%xmm8\n\tmovdqa %%xmm0, %%xmm9\n\t"
                   "mov %0, %%rax\n\tmov %0, %%r8\n\tmov %0, %%r9\n\tmov %0, %%r10\n\tmov %0, %%r11"
                   : : "r"(v) : "memory", "rax", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9");
#endif
  if (big[v % 60000] == 42) stat_add("x", 0);
}
/* the same call with different rubbish in the stack, the registers, the fresh
   or reused context and after different earlier calls: nothing may change */
static void m_stale(void)
{
#ifdef WRAP
  unsigned B = bsz();
  struct batch *b = batch_new(), *o = batch_new();
  uint8_t *first = malloc(b->memlen), one[700], one0[700], in[700];
  LOOP
    {
      rng_t r = rng_for("stale", idx);
      unsigned i, len = gen_len(&r, rnd_n(&r, 4) ? 184 : 600);
      int single = idx % 3 == 0, enc = rnd(&r) & 1;
      uint8_t cw[8];
      case_begin(idx);
      gen_cw(&r, cw);
      gen_payload(&r, in, len);
      batch_gen2(&r, b, rnd_n(&r, 3) ? LEN_WITHIN : LEN_ANY, gen_count(&r, B), ~0u);
      size_t used = batch_used(b);
      for (int v = 0; v < 5; v++)
        {
          /* 0, 1: all zeros, all ones; 2: random; 3, 4: context and library used before */
          a_fill = v == 0 ? 0 : v == 1 ? 0xff : (int)(rnd(&r) & 0xff);
          a_mode = A_TRACK;
          struct dvbcsa_key_s *k = dvbcsa_key_alloc();
          struct dvbcsa_bs_key_s *bk = dvbcsa_bs_key_alloc();
          a_mode = A_PASS;
          if (!k || !bk) die("context allocation");
          if (v >= 3)
            {
              batch_gen(&r, o, LEN_ANY);
              dvbcsa_key_set(o->cw, k);
              dvbcsa_bs_key_set(o->cw, bk);
              batch_run(bk, o);
              if (o->n) single_run(k, o->enc, o->d[0].data, o->len[0]);
            }
          b->d[b->n].len = v == 0 ? 0 : v == 1 ? ~0u : (unsigned)rnd(&r);
          for (i = b->n + 1; i < b->n + 9 && i <= MAXB; i++) { b->d[i].data = v ? b->mem : NULL; b->d[i].len = rnd(&r) & 0xff; }
          if (single)
            {
              memcpy(one, in, len);
              scribble(&r, v > 3 ? 3 : v);
              dvbcsa_key_set(cw, k);
              scribble(&r, v > 3 ? 3 : v);
              single_run(k, enc, one, len);
              if (!v) memcpy(one0, one, len);
              else if (memcmp(one, one0, len))
                viol("stale-memory-single", "%s cw=%s len=%u: the result depends on what memory held before (variant %d, byte %ld)", enc ? "encrypt" : "decrypt", hex(cw, 8), len, v, diffpos(one, one0, len));
            }
          else
            {
              batch_reset(b);
              scribble(&r, v > 3 ? 3 : v);
              dvbcsa_bs_key_set(b->cw, bk);
              scribble(&r, v > 3 ? 3 : v);
              batch_run(bk, b);
              if (!v) memcpy(first, b->mem, used);
              else if (memcmp(first, b->mem, used))
                viol("stale-memory-batch", "%s: the result depends on what memory held before (variant %d, byte %ld of the arena)", batch_desc(b), v, diffpos(first, b->mem, used));
            }
          a_mode = A_TRACK;
          dvbcsa_key_free(k);
          dvbcsa_bs_key_free(bk);
          a_mode = A_PASS;
          nontrivial_eval(1);
        }
      a_fill = 0xAA;
      stat_add(single ? "single_cases" : "batch_cases", 1);
      distinct(single ? hash_bytes(hash_bytes(len * 2 + enc, cw, 8), in, len) : batch_hash(b));
      if (!single) sample("%s in 5 variants of surrounding memory", batch_desc(b));
    }
#else
  die("stale needs the allocator wrappers");
#endif
}

static void m_shadow(void)
{
#ifdef MSAN
  unsigned B = bsz();
  struct batch *b = batch_new();
  LOOP
    {
      rng_t r = rng_for("shadow", idx);
      unsigned i;
      case_begin(idx);
      nontrivial_eval(1);
      if (idx % 2)
        {
          struct dvbcsa_key_s *k = xkey();
          uint8_t cw[8], *p;
          unsigned len = gen_len(&r, rnd_n(&r, 4) ? 184 : 1000);
          int enc = rnd(&r) & 1;
          gen_cw(&r, cw);
          p = malloc(len + 32);                 /* bytes around the payload are uninitialised */
          rnd_bytes(&r, p + 16, len);
          dvbcsa_key_set(cw, k);
          single_run(k, enc, p + 16, len);
          intptr_t q = __msan_test_shadow(p + 16, len);
          if (len && q >= 0) viol("uninitialised-output-single", "%s cw=%s len=%u: output byte %ld depends on uninitialised memory", enc ? "encrypt" : "decrypt", hex(cw, 8), len, (long)q);
          stat_add("output_bytes_checked", len);
          stat_add("single_calls", 1);
          distinct(hash_bytes(hash_bytes(len, cw, 8), p + 16, len));
          free(p);
          dvbcsa_key_free(k);
        }
      else
        {
          struct dvbcsa_bs_key_s *bk = xbskey();
          /* full batches of packets with the same number of blocks: in others the
             exchanges of bits between lanes (x ^ u ^ u) look tainted to MSan
             though they are not; mode stale covers those */
          unsigned q = rnd_n(&r, 24), kind = arg_u64("kind", rnd_n(&r, 3));
          batch_gen2(&r, b, LEN_WITHIN, B, 8 * q);
          for (i = 0; i < b->n; i++) b->len[i] = kind == 0 ? 8 * q : kind == 1 ? 8 * q + rnd_n(&r, 60) : 8 * q + rnd_n(&r, 8);
          if (kind == 2 && q < 23) b->maxlen = 8 * q + 8;
          batch_layout(&r, b);
          /* everything but the payloads is uninitialised */
          uint8_t *m = malloc(b->memlen);
          struct dvbcsa_bs_batch_s *d = malloc((MAXB + 1) * sizeof *d);
          for (i = 0; i < b->n; i++)
            {
              d[i].data = m + (b->d[i].data - b->mem);
              d[i].len = b->len[i];
              memcpy(d[i].data, b->d[i].data, b->len[i]);
            }
          d[b->n].data = NULL;                  /* its length stays uninitialised */
          dvbcsa_bs_key_set(b->cw, bk);
          if (b->enc) dvbcsa_bs_encrypt(bk, d, b->maxlen); else dvbcsa_bs_decrypt(bk, d, b->maxlen);
          for (i = 0; i < b->n; i++)
            {
              if (!b->len[i]) continue;
              intptr_t q = __msan_test_shadow(d[i].data, b->len[i]);
              if (q >= 0)
                {
                  viol("uninitialised-output-batch", "%s: byte %ld of packet %u depends on uninitialised memory", batch_desc(b), (long)q, i);
                  break;
                }
              stat_add("output_bytes_checked", b->len[i]);
            }
          stat_add("batch_calls", 1);
          distinct(batch_hash(b));
          sample("%s with uninitialised surroundings", batch_desc(b));
          free(m);
          free(d);
          dvbcsa_bs_key_free(bk);
        }
    }
#else
  die("shadow needs MemorySanitizer");
#endif
}

const struct mode modes_sys[] = {
  { "contain", m_contain }, { "poison", m_poison }, { "tight", m_tight }, { "threads", m_threads }, { "churn", m_churn },
  { "sigstep", m_sigstep }, { "sigevery", m_sigevery }, { "sigtimer", m_sigtimer }, { "sigdeep", m_sigdeep }, { "held", m_held }, { "places", m_places }, { "abandon", m_abandon }, { "alloc", m_alloc }, { "fpu", m_fpu }, { "pure", m_pure },
  { "abort", m_abort }, { "cost", m_cost }, { "shadow", m_shadow }, { "stale", m_stale },
  { NULL, NULL }
};
