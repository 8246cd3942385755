/* Stack use, contexts moved between threads, processes and stacks, and what
   batching buys. */
#include "common.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#ifdef THREADS
#include <pthread.h>
#endif
#ifdef NO_CRASH_HANDLER
#define SANITIZED 1
#endif

#define LOOP for (uint64_t idx = arg_u64("from", 0), end_ = idx + arg_u64("n", 1); idx < end_ && !too_many() && (case_begin(idx), 1); idx++)

/* ---- calls made on a stack of our own ------------------------------------ */
struct call {
  enum { C_NONE, C_KEY, C_BSKEY, C_SINGLE, C_BATCH, C_SIZE, C_LIFE, C_KINDS } kind;
  int enc;
  uint8_t *cw, *p;
  unsigned len, maxlen;
  struct dvbcsa_key_s *k;
  struct dvbcsa_bs_key_s *bk;
  struct dvbcsa_bs_batch_s *d;
};
static const char *const c_name[] = { "nothing", "dvbcsa_key_set", "dvbcsa_bs_key_set", "single", "batch", "dvbcsa_bs_batch_size", "allocation and release" };
static struct call cur;
static ucontext_t uc_main, uc_call;
static uint8_t *stk;                    /* lowest address */
static size_t stk_n;
static volatile uintptr_t stk_sp;

static void __attribute__((noinline)) do_call(struct call *c)
{
  switch (c->kind)
    {
    case C_KEY: dvbcsa_key_set(c->cw, c->k); break;
    case C_BSKEY: dvbcsa_bs_key_set(c->cw, c->bk); break;
    case C_SINGLE: single_run(c->k, c->enc, c->p, c->len); break;
    case C_BATCH: if (c->enc) dvbcsa_bs_encrypt(c->bk, c->d, c->maxlen); else dvbcsa_bs_decrypt(c->bk, c->d, c->maxlen); break;
    case C_SIZE: (void)dvbcsa_bs_batch_size(); break;
    case C_LIFE: dvbcsa_key_free(dvbcsa_key_alloc()); dvbcsa_bs_key_free(dvbcsa_bs_key_alloc()); break;
    default: break;
    }
}
static void on_stack(void)
{
  volatile uint8_t here;
  stk_sp = (uintptr_t)&here;
  do_call(&cur);
}
#define PAINT 0xA5C3965A3C69F00DULL
static size_t dirty;                    /* bytes from the top that are not painted */
/* runs `cur` with `n` bytes of stack; returns the bytes used */
static size_t stack_call(void)
{
  uint64_t *w = (uint64_t *)stk, *top = (uint64_t *)(stk + stk_n);
  for (uint64_t *q = top - dirty / 8; q < top; q++) *q = PAINT;
  if (getcontext(&uc_call)) die("getcontext");
  uc_call.uc_stack.ss_sp = stk;
  uc_call.uc_stack.ss_size = stk_n;
  uc_call.uc_link = &uc_main;
  makecontext(&uc_call, on_stack, 0);
  if (swapcontext(&uc_main, &uc_call)) die("swapcontext");
  while (w < top && *w == PAINT) w++;
  dirty = (uint8_t *)top - (uint8_t *)w;
  return dirty;
}

static void m_stack(void)
{
  unsigned B = bsz(), i;
  size_t P = pgsz(), big = 3 << 20;
  size_t max[C_KINDS] = { 0 }, lim[C_KINDS];
  uint8_t cw[8], *mem, *ex = malloc(big), *data = malloc(big);
  struct ref_key rk;
  uint64_t full = arg_u64("slack", 1);
  struct dvbcsa_bs_batch_s *d = calloc(MAXB + 1, sizeof *d);
  cur.k = xkey();
  cur.bk = xbskey();
  cur.cw = cw;
  cur.d = d;
  mem = guarded(big);
  /* the bounds of the property; the pages below are not there */
  lim[C_KEY] = lim[C_BSKEY] = lim[C_SINGLE] = lim[C_SIZE] = 8192 * full;
  lim[C_LIFE] = 32768 * full;           /* the C library's allocator included */
  lim[C_BATCH] = (16384 + 512 * (size_t)B) * full;
  stk_n = (lim[C_BATCH] + 65536 + P - 1) / P * P;
  stk = guarded(stk_n);
  dirty = stk_n;
  cur.kind = C_NONE;
  stack_call();
  size_t base = stack_call();
  LOOP
    {
      rng_t r = rng_for("stack", idx);
      cur.kind = idx % 8 == 0 ? C_KEY : idx % 8 == 1 ? C_BSKEY : idx % 8 == 2 ? (idx % 16 == 2 ? C_SIZE : C_LIFE) : idx % 8 < 5 ? C_SINGLE : C_BATCH;
      cur.enc = rnd(&r) & 1;
      gen_cw(&r, cw);
      if (cur.kind != C_KEY) dvbcsa_key_set(cw, cur.k);
      if (cur.kind != C_BSKEY) dvbcsa_bs_key_set(cw, cur.bk);
      ref_key_set(&rk, cw);
      unsigned n = 0, total = 0;
      if (cur.kind == C_SINGLE)
        {
          unsigned how = rnd_n(&r, 40);
          unsigned m = how ? how < 8 ? 20000 : 600 : arg_u64("maxlen", 1 << 20);
          total = cur.len = how < 20 ? rnd_n(&r, m) : gen_len(&r, m);
          cur.p = mem + rnd_n(&r, 64);
          rnd_bytes(&r, cur.p, total);
          memcpy(ex, cur.p, total);
          ref_run(&rk, cur.enc, ex, total);
        }
      else if (cur.kind == C_BATCH)
        {
          n = gen_count(&r, B);
          cur.maxlen = gen_maxlen(&r);
          for (i = 0; i < n; i++)
            {
              d[i].len = gen_len(&r, 184);
              if (rnd_n(&r, 6) == 0) d[i].len = 185 + rnd_n(&r, 40);
              d[i].data = mem + 256 * i + rnd_n(&r, 16);
              rnd_bytes(&r, d[i].data, d[i].len);
              unsigned l = d[i].len < cur.maxlen ? d[i].len : cur.maxlen;
              memcpy(ex + 256 * i, d[i].data, d[i].len);
              ref_run(&rk, cur.enc, ex + 256 * i, l);
            }
          d[n].data = NULL;
          d[n].len = 0;
        }
      else rnd_bytes(&r, data, 40);
      size_t used = stack_call() - base;
      if ((ssize_t)used < 0) used = 0;
      if (used > max[cur.kind]) max[cur.kind] = used;
      nontrivial_eval(1);
      distinct(hash_bytes(hash_bytes(idx, cw, 8), &total, 4));
      if (used > lim[cur.kind])
        viol("stack-use", "%s %s: %zu bytes of stack, bound %zu (len=%u packets=%u limit=%u cw=%s)", c_name[cur.kind], cur.enc ? "encrypt" : "decrypt",
             used, lim[cur.kind], total, n, cur.maxlen, hex(cw, 8));
      /* and the call did its work there */
      if (cur.kind == C_SINGLE && memcmp(ex, cur.p, total)) viol("wrong-on-own-stack", "single call of %u bytes on another stack, cw=%s", total, hex(cw, 8));
      if (cur.kind == C_BATCH)
        for (i = 0; i < n; i++)
          if (memcmp(ex + 256 * i, d[i].data, d[i].len)) { viol("wrong-on-own-stack", "batch on another stack, packet %u of %u, cw=%s", i, n, hex(cw, 8)); break; }
      stat_add("calls_on_a_painted_stack", 1);
    }
  for (i = C_KEY; i < C_KINDS; i++) if (max[i])
    {
      sample("most stack used by %s: %zu bytes, bound %zu", c_name[i], max[i], lim[i]);
      printf("STACK %s %zu of %zu\n", c_name[i], max[i], lim[i]);
    }
}

/* ---- contexts on the move ------------------------------------------------- */
#ifdef THREADS
/* Every step of a history over a few contexts is carried out somewhere else:
   by the main thread, a thread that stays, a thread of its own that ends right
   away (on a small stack now and then), on a coroutine's stack, or by a child
   process whose changes must stay with it. */
enum { NW = 3, NC = 3 };
struct step {
  int op, slot, enc;                    /* 0 set, 1 set bs, 2 single, 3 batch, 4 renew, 5 renew bs */
  uint8_t cw[8];
  unsigned n, len, maxlen;
  uint8_t *buf;                         /* n payloads, 256 bytes apart */
};
static struct dvbcsa_key_s *ro_k[NC];
static struct dvbcsa_bs_key_s *ro_b[NC];
static struct step ro_s;
static void ro_do(struct step *s)
{
  struct dvbcsa_bs_batch_s d[MAXB + 1];
  unsigned i;
  switch (s->op)
    {
    case 0: dvbcsa_key_set(s->cw, ro_k[s->slot]); break;
    case 1: dvbcsa_bs_key_set(s->cw, ro_b[s->slot]); break;
    case 2: for (i = 0; i < s->n; i++) single_run(ro_k[s->slot], s->enc, s->buf + 256 * i, s->len); break;
    case 3:
      for (i = 0; i < s->n; i++) d[i].data = s->buf + 256 * i, d[i].len = s->len;
      d[i].data = NULL;
      d[i].len = 0;
      if (s->enc) dvbcsa_bs_encrypt(ro_b[s->slot], d, s->maxlen); else dvbcsa_bs_decrypt(ro_b[s->slot], d, s->maxlen);
      break;
    case 4: dvbcsa_key_free(ro_k[s->slot]); ro_k[s->slot] = dvbcsa_key_alloc(); if (ro_k[s->slot]) dvbcsa_key_set(s->cw, ro_k[s->slot]); break;
    case 5: dvbcsa_bs_key_free(ro_b[s->slot]); ro_b[s->slot] = dvbcsa_bs_key_alloc(); if (ro_b[s->slot]) dvbcsa_bs_key_set(s->cw, ro_b[s->slot]); break;
    }
}
static pthread_mutex_t ro_m = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t ro_c = PTHREAD_COND_INITIALIZER;
static int ro_turn = -1;
static void *ro_worker(void *a)
{
  int me = (int)(intptr_t)a;
  pthread_mutex_lock(&ro_m);
  for (;;)
    {
      while (ro_turn != me) pthread_cond_wait(&ro_c, &ro_m);
      ro_do(&ro_s);
      ro_turn = -1;
      pthread_cond_broadcast(&ro_c);
    }
  return NULL;
}
static void *ro_once(void *a) { (void)a; ro_do(&ro_s); return NULL; }
static void ro_on_stack(void) { ro_do(&ro_s); }

static void m_roam(void)
{
  unsigned B = bsz(), i;
  uint8_t mk[NC][8], mb[NC][8], *in = malloc(256 * MAXB), *sh, *co;
  struct ref_key rk;
  pthread_t w;
  uint64_t steps = arg_u64("steps", 40);
  size_t con = 1 << 20;
  sh = mmap(NULL, 256 * MAXB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  co = guarded(con);
  for (i = 0; i < NW; i++) if (pthread_create(&w, NULL, ro_worker, (void *)(intptr_t)i)) die("pthread_create");
  for (i = 0; i < NC; i++)
    {
      ro_k[i] = xkey();
      ro_b[i] = xbskey();
    }
  LOOP
    {
      rng_t r = rng_for("roam", idx);
      uint64_t h = 0;
      for (i = 0; i < NC; i++)
        {
          gen_cw(&r, mk[i]);
          gen_cw(&r, mb[i]);
          dvbcsa_key_set(mk[i], ro_k[i]);
          dvbcsa_bs_key_set(mb[i], ro_b[i]);
        }
      for (uint64_t st = 0; st < steps; st++)
        {
          int op = rnd_n(&r, 16), slot = rnd_n(&r, NC), where = rnd_n(&r, 8);
          op = op < 2 ? 0 : op < 4 ? 1 : op < 9 ? 2 : op < 14 ? 3 : op == 14 ? 4 : 5;
          if (where == 7 && rnd_n(&r, 3)) where = 0;            /* fewer processes */
          ro_s.op = op;
          ro_s.slot = slot;
          ro_s.enc = rnd(&r) & 1;
          gen_cw(&r, ro_s.cw);
          ro_s.n = op == 2 ? 1 + rnd_n(&r, 3) : 1 + rnd_n(&r, rnd_n(&r, 4) ? 5 < B ? 5 : B : B);
          ro_s.len = rnd_n(&r, 185);
          ro_s.maxlen = gen_maxlen(&r);
          ro_s.buf = sh;
          if (op == 2 || op == 3) { rnd_bytes(&r, in, 256 * ro_s.n); memcpy(sh, in, 256 * ro_s.n); }
          int child = 0;
          if (where < NW)
            {
              pthread_mutex_lock(&ro_m);
              ro_turn = where;
              pthread_cond_broadcast(&ro_c);
              while (ro_turn >= 0) pthread_cond_wait(&ro_c, &ro_m);
              pthread_mutex_unlock(&ro_m);
              stat_add("steps_on_other_threads", 1);
            }
          else if (where == 3 || where == 4)
            {
              pthread_attr_t a;
              pthread_attr_init(&a);
              pthread_attr_setstacksize(&a, 262144);
              if (pthread_create(&w, &a, ro_once, NULL)) die("pthread_create");
              pthread_join(w, NULL);
              pthread_attr_destroy(&a);
              stat_add("steps_on_threads_that_ended", 1);
            }
          else if (where == 5)
            {
              if (getcontext(&uc_call)) die("getcontext");
              uc_call.uc_stack.ss_sp = co;
              uc_call.uc_stack.ss_size = con;
              uc_call.uc_link = &uc_main;
              makecontext(&uc_call, ro_on_stack, 0);
              if (swapcontext(&uc_main, &uc_call)) die("swapcontext");
              stat_add("steps_on_a_coroutine", 1);
            }
          else if (where == 7)
            {
              int ws;
              fflush(stdout);
              pid_t p = fork();
              if (p < 0) { where = 6; ro_do(&ro_s); }
              else
                {
                  child = 1;
                  if (!p)
                    {           /* its own key changes, then the same contexts again */
                      ro_do(&ro_s);
                      struct step s = ro_s;
                      s.op = 0, s.slot = 0, dvbcsa_key_set(s.cw, ro_k[0]), dvbcsa_bs_key_set(s.cw, ro_b[NC - 1]);
                      _exit(0);
                    }
                  while (waitpid(p, &ws, 0) < 0 && errno == EINTR) ;
                  if (!WIFEXITED(ws) || WEXITSTATUS(ws))
                    viol("dies-in-child", "step %llu: operation %d in a child process ended with status %x", (unsigned long long)st, op, ws);
                  stat_add("steps_in_a_child_process", 1);
                }
            }
          else ro_do(&ro_s);
          if (!child)
            {
              if (op == 0 || op == 4) memcpy(mk[slot], ro_s.cw, 8);
              if (op == 1 || op == 5) memcpy(mb[slot], ro_s.cw, 8);
              if (op == 4 && !ro_k[slot]) { viol("context-refused", "dvbcsa_key_alloc() on a thread"); return; }
              if (op == 5 && !ro_b[slot]) { viol("context-refused", "dvbcsa_bs_key_alloc() on a thread"); return; }
            }
          nontrivial_eval(1);
          h = hash_bytes(h * 31 + op + 16 * where, ro_s.cw, 8);
          if (op == 2 || op == 3)
            {
              ref_key_set(&rk, op == 2 ? mk[slot] : mb[slot]);
              unsigned l = op == 3 && ro_s.len > ro_s.maxlen ? ro_s.maxlen : ro_s.len;
              for (i = 0; i < ro_s.n; i++)
                {
                  ref_run(&rk, ro_s.enc, in + 256 * i, l);
                  if (memcmp(in + 256 * i, sh + 256 * i, 256))
                    {
                      viol("context-does-not-travel", "step %llu: %s %s with context %d (key %s) in place %d gives a wrong packet %u of %u, length %u",
                           (unsigned long long)st, op == 2 ? "single" : "batch", ro_s.enc ? "encryption" : "decryption", slot, hex(op == 2 ? mk[slot] : mb[slot], 8),
                           where, i, ro_s.n, ro_s.len);
                      break;
                    }
                }
            }
        }
      distinct(h);
      sample("history %llu of %llu steps over %d contexts of each kind, carried out in 8 places", (unsigned long long)idx, (unsigned long long)steps, NC);
    }
}
#else
static void m_roam(void) { die("built without threads"); }
#endif

const struct mode modes_more[] = {
  { "roam", m_roam },
  { "stack", m_stack },
  { NULL, NULL }
};
