/* Functional monitors: each mode runs generated calls against an oracle
   (reference cipher, the other API, or a metamorphic relation). */
#include "common.h"
#include <sys/mman.h>
#include <pthread.h>
#include <signal.h>

#define LOOP uint64_t from = arg_u64("from", 0), cnt = arg_u64("n", 100); \
  for (uint64_t idx = from; idx < from + cnt && !too_many(); idx++)

static const char *dirname_(int enc) { return enc ? "encrypt" : "decrypt"; }

/* ---- C01: single packet API against the reference ------------------------ */
static void m_single(void)
{
  struct dvbcsa_key_s *k = xkey();
  unsigned lim = arg_u64("maxlen", 6000);
  uint8_t *buf = malloc(lim + 64), *exp = malloc(lim + 64), *in = malloc(lim + 64);
  LOOP
    {
      rng_t r = rng_for("single", idx);
      uint8_t cw[8];
      struct ref_key rk;
      unsigned len, off = rnd_n(&r, 16);
      int enc = rnd(&r) & 1;
      switch (rnd_n(&r, 16))
        {
        case 0: len = gen_len(&r, lim); break;
        case 1: case 2: len = gen_len(&r, lim < 600 ? lim : 600); break;
        case 3: len = rnd_n(&r, 185); break;
        default: len = gen_len(&r, lim < 184 ? lim : 184); break;
        }
      if (lim > 100000)
        {                       /* long ones, all magnitudes alike */
          len = rnd(&r) % (2u << (12 + rnd_n(&r, 12)));
          if (!rnd_n(&r, 4)) len = (1u << (12 + rnd_n(&r, 9))) - 9 + rnd_n(&r, 19);
          if (len > lim) len = lim - rnd_n(&r, 16);
        }
      gen_cw(&r, cw);
      gen_payload(&r, in, len);
      case_begin(idx);
      memcpy(buf + off, in, len);
      memcpy(exp, in, len);
      dvbcsa_key_set(cw, k);
      single_run(k, enc, buf + off, len);
      ref_key_set(&rk, cw);
      ref_run(&rk, enc, exp, len);
      long d = diffpos(buf + off, exp, len);
      if (d >= 0)
        viol(enc ? "single-encrypt-differs" : "single-decrypt-differs",
             "cw=%s len=%u in=%s first difference at byte %ld: got %02x expected %02x",
             hex(cw, 8), len, hex(in, len < 200 ? len : 200), d, buf[off + d], exp[d]);
      nontrivial_eval(1);
      if (len >= 8) distinct(hash_bytes(hash_bytes(enc, cw, 8), in, len));
      stat_add("bytes_compared", len);
      stat_add(enc ? "encrypt_calls" : "decrypt_calls", 1);
      if (len < 8) stat_add("short_payloads", 1);
      if (len % 8) stat_add("payloads_with_residue", 1);
      sample("%s cw=%s len=%u -> %s", dirname_(enc), hex(cw, 8), len, hex(exp, len < 24 ? len : 24));
    }
}

/* every length from 0 to n-1 */
static void m_lens(void)
{
  struct dvbcsa_key_s *k = xkey();
  uint64_t from = arg_u64("from", 0), cnt = arg_u64("n", 600), step = arg_u64("step", 1);
  uint8_t *buf = malloc((from + cnt) * step + 64), *exp = malloc((from + cnt) * step + 64);
  for (uint64_t idx = from; idx < from + cnt && !too_many(); idx++)
    for (int enc = 0; enc < 2; enc++)
      {
        rng_t r = rng_for("lens", idx);
        uint8_t cw[8];
        struct ref_key rk;
        unsigned len = idx * step;
        gen_cw(&r, cw);
        rnd_bytes(&r, buf, len);
        memcpy(exp, buf, len);
        case_begin(idx);
        dvbcsa_key_set(cw, k);
        single_run(k, enc, buf, len);
        ref_key_set(&rk, cw);
        ref_run(&rk, enc, exp, len);
        long d = diffpos(buf, exp, len);
        if (d >= 0)
          viol(enc ? "single-encrypt-differs" : "single-decrypt-differs",
               "cw=%s len=%u first difference at byte %ld", hex(cw, 8), len, d);
        nontrivial_eval(1);
        distinct(idx * 2 + enc + 1);
        stat_add("lengths_swept", 1);
      }
}

/* many control words, tiny payloads */
static void m_keys(void)
{
  struct dvbcsa_key_s *k = xkey();
  struct ref_key rk;
  LOOP
    {
      rng_t r = rng_for("keys", idx);
      uint8_t cw[8], buf[32], exp[32], in[32];
      unsigned len = 8 + (idx & 1) * rnd_n(&r, 16);
      int enc = rnd(&r) & 1;
      gen_cw(&r, cw);
      rnd_bytes(&r, in, len);
      memcpy(buf, in, len);
      memcpy(exp, in, len);
      case_begin(idx);
      dvbcsa_key_set(cw, k);
      single_run(k, enc, buf, len);
      ref_key_set(&rk, cw);
      ref_run(&rk, enc, exp, len);
      if (memcmp(buf, exp, len))
        viol(enc ? "single-encrypt-differs" : "single-decrypt-differs", "cw=%s len=%u in=%s got=%s expected=%s",
             hex(cw, 8), len, hex(in, len), hex(buf, len), hex(exp, len));
      nontrivial_eval(1);
      distinct(hash_bytes(1, cw, 8));
      stat_add("control_words", 1);
    }
}

/* one long payload: argument len */
static void m_large(void)
{
  struct dvbcsa_key_s *k = xkey();
  struct ref_key rk;
  size_t len = arg_u64("len", 1 << 20);
  int enc = arg_u64("enc", 1);
  rng_t r = rng_for("large", len * 2 + enc);
  uint8_t cw[8];
  uint8_t *buf = malloc(len + 16), *exp = malloc(len + 16);
  if (!buf || !exp) die("out of memory");
  gen_cw(&r, cw);
  rnd_bytes(&r, buf, len);
  memset(buf + len, 0xa5, 16);
  memcpy(exp, buf, len + 16);
  dvbcsa_key_set(cw, k);
  single_run(k, enc, buf, len);
  ref_key_set(&rk, cw);
  ref_run(&rk, enc, exp, len);
  long d = diffpos(buf, exp, len + 16);
  if (d >= 0)
    viol(enc ? "single-encrypt-differs" : "single-decrypt-differs", "cw=%s len=%zu first difference at byte %ld",
         hex(cw, 8), len, d);
  nontrivial_eval(1);
  distinct(len * 2 + enc + 1);
  stat_add("bytes_compared", len);
  sample("%s of %zu bytes under cw=%s", dirname_(enc), len, hex(cw, 8));
}

/* a payload of 2 GiB or more.  Oracle at sampled places: the block chain is
   local, so with I(i) the block before the stream cipher, decryption of the
   library's own ciphertext prefix and the reference agree on the first bytes;
   the last blocks depend on nothing before them but the keystream, which the
   reference generates over the whole length. */
static void huge_budget(int sig)
{                               /* undecided, not wrong: said so in the evidence */
  static const char m[] = "STAT huge_payload_undecided_in_budget 1\nSTAT evaluations 1\nSTAT distinct 0\nDONE\n";
  (void)sig;
  if (write(1, m, sizeof m - 1) < 0) {}
  _exit(0);
}
/* The quick form: the block chain of an encryption is recomputed in a second
   thread meanwhile (its head depends on every block), the head compared byte for
   byte, and no later block may be what it was before one of the two ciphers. */
#define HUGE_WORD(i) ((uint64_t)(i) * 0x9e3779b97f4a7c15ULL)
struct huge_chain { uint8_t *c; size_t al; const struct ref_key *rk; };
static void *huge_chain(void *arg)
{
  struct huge_chain *h = arg;
  uint8_t b[8];
  memset(b, 0, 8);
  for (size_t i = h->al; i; )
    {
      uint64_t v = HUGE_WORD(i -= 8), w;
      memcpy(&w, b, 8);
      v ^= w;
      memcpy(b, &v, 8);
      ref_block_enc(h->rk->kk, b);
      memcpy(h->c + i, b, 8);
    }
  return NULL;
}
static void huge_light(struct dvbcsa_key_s *k, const struct ref_key *rk, int enc, uint8_t *buf, size_t len, const uint8_t *cw)
{
  enum { HEAD = 65536 };
  static uint8_t head[HEAD];
  size_t al = len & ~(size_t)7, i, bad = 0, first = 0;
  struct huge_chain h = { NULL, al, rk };
  const char *what = "not processed";
  pthread_t t;
  if (enc)
    {
      h.c = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (h.c == MAP_FAILED || pthread_create(&t, NULL, huge_chain, &h)) die("second copy of the payload");
    }
  single_run(k, enc, buf, len);
  if (enc)
    {
      pthread_join(t, NULL);
      memcpy(head, h.c, HEAD);
      ref_stream_xor(rk->cw, h.c, head + 8, HEAD - 8);
    }
  else
    {                           /* one block more, for the chain */
      static uint8_t s[HEAD + 8];
      for (i = 0; i < HEAD + 8; i += 8) { uint64_t v = HUGE_WORD(i); memcpy(s + i, &v, 8); }
      uint8_t iv[8];
      memcpy(iv, s, 8);
      ref_stream_xor(rk->cw, iv, s + 8, HEAD);
      for (i = 0; i < HEAD; i += 8)
        {
          memcpy(head + i, s + i, 8);
          ref_block_dec(rk->kk, head + i);
          for (int j = 0; j < 8; j++) head[i + j] ^= s[i + 8 + j];
        }
    }
  for (i = 0; i < HEAD; i++)
    if (head[i] != buf[i] && !bad++) first = i, what = "head differs";
  for (i = HEAD; i < al; i += 8)
    {
      uint64_t v = HUGE_WORD(i), o, c;
      memcpy(&o, buf + i, 8);
      if (o == v && !bad++) first = i;
      if (enc)
        {
          memcpy(&c, h.c + i, 8);
          if (o == c && !bad++) first = i, what = "left out by the stream cipher";
        }
      else if (i < HEAD + 65536 || i + 65536 > al || (i >> 3) % 4096 == 0)
        {
          memcpy(&c, &v, 8);
          ref_block_dec(rk->kk, (uint8_t *)&c);
          if (i + 8 < al) c ^= HUGE_WORD(i + 8);
          if (o == c && !bad++) first = i, what = "left out by the stream cipher";
        }
    }
  if (bad)
    viol(enc ? "single-encrypt-differs" : "single-decrypt-differs", "cw=%s len=%zu: %s at byte %zu (%zu in all)",
         hex(cw, 8), len, what, first, bad);
  stat_add("huge_payload_blocks_looked_at", al / 8);
  nontrivial_eval(1);
  distinct(len * 2 + enc + 1);
  sample("%s of %zu bytes under cw=%s", dirname_(enc), len, hex(cw, 8));
}
static void m_huge(void)
{
  size_t len = arg_u64("len", (1ULL << 31) + 13);
  struct dvbcsa_key_s *k = xkey();
  struct ref_key rk;
  int enc = arg_u64("enc", 1);
  uint8_t cw[8], *buf;
  rng_t r = rng_for("huge", len);
  size_t al = len & ~(size_t)7, i;
  buf = mmap(NULL, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (buf == MAP_FAILED) die("mmap of %zu bytes", len);
  gen_cw(&r, cw);
  ref_key_set(&rk, cw);
  dvbcsa_key_set(cw, k);
  /* sparse content: block index in every block */
  for (i = 0; i < al; i += 8) { uint64_t v = i * 0x9e3779b97f4a7c15ULL; memcpy(buf + i, &v, 8); }
  rnd_bytes(&r, buf + al, len - al);
  uint8_t *copy_tail = malloc(4096 + 64);
  memcpy(copy_tail, buf + len - 4096, 4096);
  uint8_t tail_res[8];
  memcpy(tail_res, buf + al, len - al);
  if (arg_u64("budget", 0))
    {
      signal(SIGALRM, huge_budget);
      alarm(arg_u64("budget", 0));
    }
  if (arg_u64("light", 0))
    {
      huge_light(k, &rk, enc, buf, len, cw);
      return;
    }
  single_run(k, enc, buf, len);
  /* monitor: recompute everything from the output with the inverse direction, streaming */
  uint8_t iv[8];
  uint64_t bad = 0, first = 0;
  if (enc)
    {
      /* undo: block i plain = D(I_i) ^ I_{i+1}; I = output ^ keystream */
      memcpy(iv, buf, 8);
      ref_stream_xor(rk.cw, iv, buf + 8, len - 8);
      for (i = 0; i < al; i += 8)
        {
          /* full check of a sample of the blocks: the borders, and one in 64 */
          if (i < 65536 || i + 65536 > al || (i >> 3) % 64 == 0 || (i > 0x7ffff000 && i < 0x80001000)
              || (i > 0xfffff000u))
            {
              uint8_t b[8];
              uint64_t v, e = i * 0x9e3779b97f4a7c15ULL;
              memcpy(b, buf + i, 8);
              ref_block_dec(rk.kk, b);
              if (i + 8 < al)
                for (int j = 0; j < 8; j++) b[j] ^= buf[i + 8 + j];
              memcpy(&v, b, 8);
              if (v != e && !bad++) first = i;
              stat_add("blocks_checked", 1);
            }
        }
      if (memcmp(buf + al, tail_res, len - al) && !bad++) first = al;
    }
  else
    {
      /* decryption: out_i = D(S_i) ^ S_{i+1} with S = input ^ keystream */
      uint8_t s0[8], s1[8], *in = malloc(16);
      (void)in;
      uint8_t first8[8];
      uint64_t v0 = 0;
      memcpy(first8, &v0, 8);
      uint8_t *ks = mmap(NULL, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (ks == MAP_FAILED) die("mmap");
      ref_stream_xor(rk.cw, first8, ks + 8, len - 8);
      for (i = 0; i < al; i += 8)
        if (i < 65536 || i + 65536 > al || (i >> 3) % 64 == 0 || (i > 0x7ffff000 && i < 0x80001000) || (i > 0xfffff000u))
          {
            uint64_t v = i * 0x9e3779b97f4a7c15ULL, w = (i + 8) * 0x9e3779b97f4a7c15ULL;
            memcpy(s0, &v, 8);
            memcpy(s1, &w, 8);
            for (int j = 0; j < 8; j++) { s0[j] ^= ks[i + j]; s1[j] ^= i + 8 < al ? ks[i + 8 + j] : 0; }
            ref_block_dec(rk.kk, s0);
            if (i + 8 < al) for (int j = 0; j < 8; j++) s0[j] ^= s1[j];
            if (memcmp(s0, buf + i, 8) && !bad++) first = i;
            stat_add("blocks_checked", 1);
          }
      for (i = al; i < len; i++)
        if ((tail_res[i - al] ^ ks[i]) != buf[i] && !bad++) first = i;
    }
  if (bad)
    viol(enc ? "single-encrypt-differs" : "single-decrypt-differs", "cw=%s len=%zu: %llu bad blocks, first at byte %llu",
         hex(cw, 8), len, (unsigned long long)bad, (unsigned long long)first);
  nontrivial_eval(1);
  distinct(len * 2 + enc + 1);
  sample("%s of %zu bytes under cw=%s", dirname_(enc), len, hex(cw, 8));
}

/* ---- C03: parallel against single ---------------------------------------- */
static void batch_check(struct batch *b, const struct dvbcsa_bs_key_s *bk, const struct dvbcsa_key_s *k, const char *key)
{
  static uint8_t exp[70000];
  batch_run(bk, b);
  for (unsigned i = 0; i < b->n; i++)
    {
      unsigned len = b->len[i], m = len < b->maxlen ? len : b->maxlen;
      memcpy(exp, batch_orig(b, i), len);
      single_run(k, b->enc, exp, m);
      long d = diffpos(exp, b->d[i].data, len);
      if (d >= 0)
        {
          viol(key, "%s: packet %u of length %u differs from the single packet API at byte %ld (in=%s)",
               batch_desc(b), i, len, d, hex(batch_orig(b, i), len));
          break;
        }
    }
  stat_add("packets_compared", b->n);
}

static void m_batch(void)
{
  struct batch *b = batch_new();
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  unsigned B = bsz();
  int over = arg_u64("over", LEN_WITHIN);
  LOOP
    {
      rng_t r = rng_for("batch", idx + ((uint64_t)over << 40));
      batch_gen(&r, b, over);
      case_begin(idx);
      dvbcsa_bs_key_set(b->cw, bk);
      dvbcsa_key_set(b->cw, k);
      batch_check(b, bk, k, over ? "limit-prefix" : "batch-differs-from-single");
      nontrivial_eval(1);
      if (b->n && b->maxlen) distinct(batch_hash(b));
      stat_add(b->enc ? "encrypt_batches" : "decrypt_batches", 1);
      if (b->n == B) stat_add("full_batches", 1);
      else if (b->n) stat_add("partial_batches", 1);
      sample("%s", batch_desc(b));
    }
}

/* every count and limit, one call each */
static void m_grid(void)
{
  struct batch *b = batch_new();
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  unsigned B = bsz(), step = arg_u64("step", 1);
  uint64_t from = arg_u64("from", 0), cnt = arg_u64("n", 1000000), idx = 0;
  for (unsigned ml = 0; ml <= 184; ml += 8)
    for (unsigned n = 0; n <= B; n += (n > 2 && n + step < B) ? step : 1)
      {
        uint64_t id = idx++;
        if (id < from || id >= from + cnt || too_many()) continue;
        rng_t r = rng_for("grid", id);
        batch_gen2(&r, b, LEN_WITHIN, n, ml);
        if (b->lenmode < 2)
          b->enc = (id + SEED) & 1;
        case_begin(id);
        dvbcsa_bs_key_set(b->cw, bk);
        dvbcsa_key_set(b->cw, k);
        batch_check(b, bk, k, "batch-differs-from-single");
        nontrivial_eval(1);
        distinct(id + 1);
        stat_add("count_x_limit_points", 1);
      }
}

/* many control words through the parallel key setup */
static void m_bskeys(void)
{
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  LOOP
    {
      rng_t r = rng_for("bskeys", idx);
      uint8_t cw[8], in[2][16], out[2][16], exp[16];
      struct dvbcsa_bs_batch_s d[3];
      int enc = rnd(&r) & 1;
      gen_cw(&r, cw);
      rnd_bytes(&r, in, sizeof in);
      memcpy(out, in, sizeof in);
      memset(d, 0, sizeof d);
      d[0].data = out[0], d[0].len = 16;
      d[1].data = out[1], d[1].len = 8 + rnd_n(&r, 8);
      case_begin(idx);
      dvbcsa_bs_key_set(cw, bk);
      dvbcsa_key_set(cw, k);
      if (enc) dvbcsa_bs_encrypt(bk, d, 16); else dvbcsa_bs_decrypt(bk, d, 16);
      for (int i = 0; i < 2; i++)
        {
          memcpy(exp, in[i], 16);
          single_run(k, enc, exp, d[i].len);
          if (memcmp(exp, out[i], 16))
            viol("batch-differs-from-single", "cw=%s %s of %u bytes %s: got %s expected %s", hex(cw, 8), dirname_(enc),
                 d[i].len, hex(in[i], 16), hex(out[i], 16), hex(exp, 16));
        }
      nontrivial_eval(1);
      distinct(hash_bytes(1, cw, 8));
      stat_add("control_words", 1);
    }
}

/* ---- C04: independence of packets ---------------------------------------- */
static void m_indep(void)
{
  struct batch *a = batch_new(), *b = batch_new();
  struct dvbcsa_bs_key_s *bk = xbskey();
  unsigned B = bsz();
  LOOP
    {
      rng_t r = rng_for("indep", idx);
      unsigned src[MAXB], i;
      batch_gen(&r, a, rnd_n(&r, 3) ? LEN_WITHIN : LEN_ANY);
      if (!a->n) batch_gen2(&r, a, LEN_WITHIN, 1 + rnd_n(&r, B), ~0u);
      case_begin(idx);
      dvbcsa_bs_key_set(a->cw, bk);
      batch_run(bk, a);
      int kind = rnd_n(&r, 5);
      memcpy(b->cw, a->cw, 8);
      b->enc = a->enc;
      b->maxlen = a->maxlen;
      b->layout = rnd_n(&r, 6);
      b->lenmode = a->lenmode;
      for (i = 0; i < MAXB; i++) src[i] = ~0u;
      switch (kind)
        {
        case 0:                 /* permutation */
          b->n = a->n;
          for (i = 0; i < b->n; i++) src[i] = i;
          for (i = b->n; i > 1; i--)
            {
              unsigned j = rnd_n(&r, i), t = src[j];
              src[j] = src[i - 1], src[i - 1] = t;
            }
          break;
        case 1:                 /* alone, anywhere */
          b->n = 1;
          src[0] = rnd_n(&r, a->n);
          break;
        case 2:                 /* a prefix, in place: only the count changes */
          b->n = 1 + rnd_n(&r, a->n);
          for (i = 0; i < b->n; i++) src[i] = i;
          break;
        case 3:                 /* in place, others replaced */
          b->n = a->n;
          for (i = 0; i < b->n; i++) if (rnd(&r) & 1) src[i] = i;
          src[rnd_n(&r, b->n)] = 0; 
          break;
        default:                /* scattered among others */
          b->n = 1 + rnd_n(&r, B);
          for (i = 0; i < b->n; i++) if (rnd(&r) & 1) src[i] = rnd_n(&r, a->n);
          break;
        }
      for (i = 0; i < b->n; i++)
        b->len[i] = src[i] != ~0u ? a->len[src[i]] : gen_len(&r, rnd_n(&r, 4) ? 184 : a->maxlen);
      batch_layout(&r, b);
      for (i = 0; i < b->n; i++)
        if (src[i] != ~0u)
          memcpy(batch_orig(b, i), batch_orig(a, src[i]), b->len[i]);
      batch_reset(b);
      batch_run(bk, b);
      for (i = 0; i < b->n; i++)
        if (src[i] != ~0u)
          {
            long d = diffpos(a->d[src[i]].data, b->d[i].data, b->len[i]);
            if (d >= 0)
              {
                viol("packet-depends-on-batch", "the same packet (length %u) as number %u of {%s} and as number %u of {%s} differs at byte %ld",
                     b->len[i], src[i], batch_desc(a), i, batch_desc(b), d);
                break;
              }
            stat_add("packets_compared", 1);
          }
      nontrivial_eval(1);
      distinct(batch_hash(a) ^ (batch_hash(b) << 1));
      stat_add(kind == 0 ? "permutations" : kind == 1 ? "alone" : kind == 2 ? "prefixes" : kind == 3 ? "neighbours_replaced" : "scattered", 1);
      sample("kind=%d %s", kind, batch_desc(a));
    }
}

/* ---- C05: length limit --------------------------------------------------- */
static void m_limit_huge(void)
{
#if UINTPTR_MAX > 0xffffffffu
  static const unsigned lens[] = { 65536, 65543, 1 << 20, 0x7fffffff, 0x80000000u, 0x80000003u, 0xfffffff8u, 0xffffffffu, 0xffffff80u, 0xffffff07u,
    256, 257, 512, 65535, 65537, 131072 };
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  unsigned B = bsz();
  size_t span = 0x100001000ULL;
  uint8_t *big = mmap(NULL, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (big == MAP_FAILED) { stat_add("huge_lengths_skipped", 1); return; }
  struct dvbcsa_bs_batch_s *d = calloc(B + 1, sizeof *d);
  uint8_t *small = malloc(B * 184), *orig = malloc(B * 184);
  LOOP
    {
      rng_t r = rng_for("limithuge", idx);
      uint8_t cw[8], in[1024], e[1024];
      unsigned n = 1 + rnd_n(&r, B < 4 ? B : 4), at = rnd_n(&r, n), L = lens[rnd_n(&r, sizeof lens / sizeof *lens)];
      unsigned ml = gen_maxlen(&r);
      int enc = rnd(&r) & 1;
      gen_cw(&r, cw);
      case_begin(idx);
      dvbcsa_bs_key_set(cw, bk);
      dvbcsa_key_set(cw, k);
      rnd_bytes(&r, orig, n * 184);
      memcpy(small, orig, n * 184);
      for (unsigned i = 0; i < n; i++) d[i].data = small + 184 * i, d[i].len = gen_len(&r, 184);
      memset(d + n, 0, sizeof *d);
      rnd_bytes(&r, in, sizeof in);
      size_t m = L < sizeof in ? L : sizeof in;
      memcpy(big, in, m);
      d[at].data = big, d[at].len = L;
      if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
      memcpy(e, in, m);
      single_run(k, enc, e, ml < L ? ml : L);
      long p = diffpos(e, big, m);
      if (p >= 0) viol("limit-prefix", "cw=%s packet of length %u, limit %u, %s, packet %u of %u: differs at byte %ld", hex(cw, 8), L, ml, dirname_(enc), at, n, p);
      for (unsigned i = 0; i < n; i++)
        if (i != at)
          {
            memcpy(e, orig + 184 * i, 184);
            single_run(k, enc, e, d[i].len < ml ? d[i].len : ml);
            if (memcmp(e, small + 184 * i, 184))
              viol("limit-neighbour", "cw=%s packet %u of length %u next to one of length %u, limit %u: wrong", hex(cw, 8), i, d[i].len, L, ml);
          }
      nontrivial_eval(1);
      distinct(hash_bytes(hash_bytes(L, cw, 8), &ml, 4));
      stat_add("huge_lengths", 1);
      sample("%s length=%u limit=%u n=%u", dirname_(enc), L, ml, n);
    }
#else
  stat_add("huge_lengths_skipped", 1);
#endif
}

/* ---- C06: residues -------------------------------------------------------- */
static void process(int api, int enc, const uint8_t cw[8], struct dvbcsa_key_s *k, struct dvbcsa_bs_key_s *bk,
                    uint8_t *p, unsigned len, rng_t *r)
{
  if (!api)
    {
      dvbcsa_key_set(cw, k);
      single_run(k, enc, p, len);
    }
  else
    {
      static uint8_t other[MAXB * 184];
      static struct dvbcsa_bs_batch_s d[MAXB + 1];
      unsigned B = bsz(), n, at;
      n = gen_count(r, B);
      if (!n) n = 1;
      at = rnd_n(r, n);
      for (unsigned i = 0; i < n; i++)
        d[i].data = other + 184 * i, d[i].len = gen_len(r, 184);
      d[at].data = p, d[at].len = len;
      d[n].data = NULL;
      dvbcsa_bs_key_set(cw, bk);
      unsigned ml = (len + 7) / 8 * 8;
      if (rnd(r) & 1) ml += 8 * rnd_n(r, (184 - ml) / 8 + 1);
      if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
    }
}

static void m_residue(void)
{
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  struct ref_key rk;
  int apis = arg_u64("apis", 3);
  LOOP
    {
      rng_t r = rng_for("residue", idx);
      uint8_t cw[8], in[400], x[400], y[400], fl[8], e[400];
      int api = apis == 3 ? (int)(idx % 4 == 0) : apis - 1, enc = rnd(&r) & 1;
      unsigned lim = api ? 184 : rnd_n(&r, 4) ? 184 : 390, len, al, i;
      len = gen_len(&r, lim);
      if (len % 8 == 0 && rnd_n(&r, 8)) len += len < lim - 7 ? 1 + rnd_n(&r, 7) : 0;
      if (!rnd_n(&r, 5)) len = rnd_n(&r, 8);
      al = len & ~7u;
      gen_cw(&r, cw);
      gen_payload(&r, in, sizeof in);
      case_begin(idx);
      const char *A = api ? "batch" : "single";
      memcpy(x, in, sizeof in);
      process(api, enc, cw, k, bk, x, len, &r);
      nontrivial_eval(1);
      if (len < 8)
        {
          if (memcmp(x, in, len))
            viol("short-payload-changed", "%s %s cw=%s len=%u %s -> %s", A, dirname_(enc), hex(cw, 8), len, hex(in, len), hex(x, len));
          stat_add("short_payloads", 1);
          distinct(hash_bytes(hash_bytes(len, cw, 8), in, len));
          continue;
        }
      /* the reference, residue included */
      memcpy(e, in, sizeof e);
      ref_key_set(&rk, cw);
      ref_run(&rk, enc, e, len);
      if (memcmp(e, x, len))
        viol("residue-wrong", "%s %s cw=%s len=%u in=%s: differs from CSA at byte %ld", A, dirname_(enc), hex(cw, 8), len, hex(in, len), diffpos(e, x, len));
      /* flips of the residue show at the same place only */
      if (len > al)
        {
          memset(fl, 0, 8);
          if (rnd(&r) & 1) fl[rnd_n(&r, len - al)] = 1 << rnd_n(&r, 8);
          else rnd_bytes(&r, fl, len - al);
          memcpy(y, in, sizeof y);
          for (i = al; i < len; i++) y[i] ^= fl[i - al];
          process(api, enc, cw, k, bk, y, len, &r);
          for (i = 0; i < len; i++)
            if (y[i] != (x[i] ^ (i >= al ? fl[i - al] : 0)))
              {
                viol("residue-malleability", "%s %s cw=%s len=%u in=%s flip=%s: byte %u is %02x, expected %02x", A, dirname_(enc), hex(cw, 8), len,
                     hex(in, len), hex(fl, len - al), i, y[i], x[i] ^ (i >= al ? fl[i - al] : 0));
                break;
              }
          stat_add("flips", 1);
        }
      /* other residues of the same number of blocks */
      unsigned l2 = al + rnd_n(&r, 8), m = l2 < len ? l2 : len;
      if (api && l2 > 184) l2 = 184, m = len < 184 ? len : 184;
      memcpy(y, in, sizeof y);
      process(api, enc, cw, k, bk, y, l2, &r);
      if (memcmp(y, x, m))
        viol("residue-length", "%s %s cw=%s in=%s: lengths %u and %u disagree on byte %ld", A, dirname_(enc), hex(cw, 8), hex(in, len), len, l2, diffpos(y, x, m));
      stat_add("residue_pairs", 1);
      stat_add(api ? "batch_calls" : "single_calls", 1);
      distinct(hash_bytes(hash_bytes(len * 4 + api * 2 + enc, cw, 8), in, len));
      sample("%s %s cw=%s len=%u/%u", A, dirname_(enc), hex(cw, 8), len, l2);
    }
}

/* ---- C02: inverse --------------------------------------------------------- */
static void m_inverse(void)
{
  struct batch *b = batch_new(), *c = batch_new();
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  unsigned B = bsz();
  LOOP
    {
      rng_t r = rng_for("inverse", idx);
      int a1 = rnd(&r) & 1, a2 = rnd(&r) & 1;
      unsigned i;
      case_begin(idx);
      nontrivial_eval(1);
      if (idx % 4)              /* single -> single: cheap, any length */
        {
          static uint8_t in[20000], x[20000];
          uint8_t cw[8];
          unsigned len = rnd_n(&r, 8) ? gen_len(&r, 184) : gen_len(&r, rnd_n(&r, 20) ? 1500 : 20000);
          int enc = rnd(&r) & 1;
          gen_cw(&r, cw);
          gen_payload(&r, in, len);
          memcpy(x, in, len);
          dvbcsa_key_set(cw, k);
          single_run(k, enc, x, len);
          single_run(k, !enc, x, len);
          long d = diffpos(in, x, len);
          if (d >= 0) viol("not-inverse-single-single", "cw=%s len=%u %s first, in=%s: byte %ld", hex(cw, 8), len, dirname_(enc), hex(in, len), d);
          distinct(hash_bytes(hash_bytes(enc, cw, 8), in, len));
          stat_add("single_single", 1);
          continue;
        }
      batch_gen(&r, b, LEN_WITHIN);
      dvbcsa_bs_key_set(b->cw, bk);
      dvbcsa_key_set(b->cw, k);
      if (a1) batch_run(bk, b);
      else for (i = 0; i < b->n; i++) single_run(k, b->enc, b->d[i].data, b->len[i]);
      if (!a2)
        {
          for (i = 0; i < b->n; i++) single_run(k, !b->enc, b->d[i].data, b->len[i]);
          for (i = 0; i < b->n; i++)
            {
              long d = diffpos(batch_orig(b, i), b->d[i].data, b->len[i]);
              if (d >= 0)
                {
                  viol(a1 ? "not-inverse-batch-single" : "not-inverse-single-single", "%s then single: packet %u (length %u) byte %ld", batch_desc(b), i, b->len[i], d);
                  break;
                }
            }
        }
      else
        {
          /* rebatch in random order and number */
          unsigned done = 0, perm[MAXB];
          for (i = 0; i < b->n; i++) perm[i] = i;
          for (i = b->n; i > 1; i--) { unsigned j = rnd_n(&r, i), t = perm[j]; perm[j] = perm[i - 1]; perm[i - 1] = t; }
          while (done < b->n)
            {
              unsigned m = rnd(&r) & 1 ? b->n - done : 1 + rnd_n(&r, b->n - done), ml = 0;
              if (m > B) m = B;
              for (i = 0; i < m; i++)
                {
                  c->d[i] = b->d[perm[done + i]];
                  if (c->d[i].len > ml) ml = c->d[i].len;
                }
              c->d[m].data = NULL;
              ml = (ml + 7) / 8 * 8;
              if (rnd(&r) & 1) ml += 8 * rnd_n(&r, (184 - ml) / 8 + 1);
              if (b->enc) dvbcsa_bs_decrypt(bk, c->d, ml); else dvbcsa_bs_encrypt(bk, c->d, ml);
              done += m;
            }
          for (i = 0; i < b->n; i++)
            {
              long d = diffpos(batch_orig(b, i), b->d[i].data, b->len[i]);
              if (d >= 0)
                {
                  viol(a1 ? "not-inverse-batch-batch" : "not-inverse-single-batch", "%s then rebatched: packet %u (length %u) byte %ld", batch_desc(b), i, b->len[i], d);
                  break;
                }
            }
        }
      stat_add(a1 ? a2 ? "batch_batch" : "batch_single" : a2 ? "single_batch" : "single_single", 1);
      stat_add("packets_restored", b->n);
      distinct(batch_hash(b));
      sample("a1=%d a2=%d %s", a1, a2, batch_desc(b));
    }
}

/* ---- C22: all control word bits ------------------------------------------- */
static void m_keybits(void)
{
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  struct ref_key rk;
  LOOP
    {
      rng_t r = rng_for("keybits", idx);
      uint8_t cw[8], cw2[8], in[32], base[32], x[32], y[32], e[32];
      unsigned len = rnd_n(&r, 3) ? 24 + rnd_n(&r, 8) : 8 + 8 * rnd_n(&r, 3), bit;
      int enc = rnd(&r) & 1, bytes = rnd_n(&r, 3) == 0;
      gen_cw(&r, cw);
      rnd_bytes(&r, in, sizeof in);
      case_begin(idx);
      for (int b = -1; b < 64; b++)
        {
          memcpy(cw2, cw, 8);
          bit = b;
          if (b >= 0)
            {
              if (bytes) cw2[b & 7] ^= 1 + rnd_n(&r, 255);
              else cw2[bit / 8] ^= 1 << (bit & 7);
            }
          memcpy(x, in, len);
          memcpy(y, in, len);
          memcpy(e, in, len);
          dvbcsa_key_set(cw2, k);
          single_run(k, enc, x, len);
          struct dvbcsa_bs_batch_s d[2] = { { y, len }, { NULL, 0 } };
          dvbcsa_bs_key_set(cw2, bk);
          if (enc) dvbcsa_bs_encrypt(bk, d, 32); else dvbcsa_bs_decrypt(bk, d, 32);
          ref_key_set(&rk, cw2);
          ref_run(&rk, enc, e, len);
          if (b < 0) memcpy(base, x, len);
          else if (!memcmp(base, x, len))
            viol("key-bit-ignored-single", "control words %s and %s give the same %s of %s", hex(cw, 8), hex(cw2, 8), dirname_(enc), hex(in, len));
          if (b >= 0 && !memcmp(base, y, len))
            viol("key-bit-ignored-batch", "control words %s and %s give the same %s of %s", hex(cw, 8), hex(cw2, 8), dirname_(enc), hex(in, len));
          if (memcmp(x, y, len))
            viol("key-apis-disagree", "cw=%s: single %s, batch %s, for %s of %s", hex(cw2, 8), hex(x, len), hex(y, len), dirname_(enc), hex(in, len));
          if (memcmp(x, e, len))
            viol("key-not-verbatim", "cw=%s: got %s, CSA gives %s, for %s of %s", hex(cw2, 8), hex(x, len), hex(e, len), dirname_(enc), hex(in, len));
          nontrivial_eval(1);
          distinct(hash_bytes(3, cw2, 8));
        }
      stat_add("base_control_words", 1);
      sample("cw=%s and its 64 %s neighbours", hex(cw, 8), bytes ? "byte" : "bit");
    }
}

/* ---- C14: placement --------------------------------------------------------- */
static void m_align(void)
{
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  struct ref_key rk;
  unsigned B = bsz();
  size_t P = pgsz(), R = 64 * P;
  uint8_t *reg = guarded(R), *dreg = guarded(4 * P), *creg = guarded(P);
  uint8_t *in = malloc(R), e[600];
  size_t dtot = (4 * P);
  LOOP
    {
      rng_t r = rng_for("align", idx);
      uint8_t cw[8], *cwp;
      int enc = rnd(&r) & 1;
      gen_cw(&r, cw);
      ref_key_set(&rk, cw);
      /* control word at any address, also first and last bytes of a page */
      switch (rnd_n(&r, 4))
        {
        case 0: cwp = creg + P - 8; break;
        case 1: cwp = creg; break;
        default: cwp = creg + rnd_n(&r, P - 8); break;
        }
      memcpy(cwp, cw, 8);
      case_begin(idx);
      nontrivial_eval(1);
      if (idx % 3)
        {
          unsigned len = gen_len(&r, rnd_n(&r, 4) ? 184 : 520);
          uint8_t *p;
          switch (rnd_n(&r, 5))
            {
            case 0: p = reg + R - len; stat_add("page_end", 1); break;
            case 1: p = reg; stat_add("page_start", 1); break;
            case 2: p = reg + P * (1 + rnd_n(&r, 60)) - rnd_n(&r, len + 1); stat_add("page_straddling", 1); break;
            default: p = reg + (idx & 63) + 64 * rnd_n(&r, 8); stat_add("residues", 1); break;
            }
          gen_payload(&r, in, len);
          memcpy(p, in, len);
          memcpy(e, in, len);
          dvbcsa_key_set(cwp, k);
          single_run(k, enc, p, len);
          ref_run(&rk, enc, e, len);
          long d = diffpos(p, e, len);
          if (d >= 0) viol("placement-single", "cw=%s (address mod 64 = %u) len=%u payload address mod 64 = %u, mod page = %u: wrong at byte %ld", hex(cw, 8),
                           (unsigned)((uintptr_t)cwp & 63), len, (unsigned)((uintptr_t)p & 63), (unsigned)((uintptr_t)p & (P - 1)), d);
          distinct(hash_bytes((uintptr_t)p & (P - 1), cw, 8) + len);
          stat_add("single_calls", 1);
          continue;
        }
      /* batch: descriptors at any suitably aligned place, also ending at the guard page */
      unsigned n = gen_count(&r, B), ml = gen_maxlen(&r), i;
      size_t al = __alignof__(struct dvbcsa_bs_batch_s), need = (n + 1) * sizeof(struct dvbcsa_bs_batch_s);
      struct dvbcsa_bs_batch_s *d;
      if (need > dtot) die("descriptor region too small");
      if (rnd_n(&r, 3) == 0) d = (void *)(dreg + dtot - need);
      else d = (void *)(dreg + al * rnd_n(&r, (dtot - need) / al + 1));
      uint8_t *top = reg + R;
      int from_end = rnd(&r) & 1;
      size_t off = from_end ? 0 : rnd_n(&r, 64);
      unsigned used = 0;
      for (i = 0; i < n; i++)
        {
          unsigned len = gen_len(&r, ml);
          if (off + len + 80 > R) { n = i; break; }
          if (from_end) { off += len; d[i].data = top - off; }
          else { d[i].data = reg + off; off += len; }
          off += rnd_n(&r, 4) ? rnd_n(&r, 70) : 0;
          d[i].len = len;
          used = i;
        }
      (void)used;
      if (n * sizeof *d + sizeof *d > need) die("align");
      d[n].data = NULL;
      d[n].len = rnd(&r);
      for (i = 0; i < n; i++)
        {
          gen_payload(&r, in + (d[i].data - reg), d[i].len);
          memcpy(d[i].data, in + (d[i].data - reg), d[i].len);
        }
      dvbcsa_bs_key_set(cwp, bk);
      if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
      for (i = 0; i < n; i++)
        {
          unsigned len = d[i].len;
          memcpy(e, in + (d[i].data - reg), len);
          dvbcsa_key_set(cw, k);
          single_run(k, enc, e, len);
          long q = diffpos(d[i].data, e, len);
          if (q >= 0)
            {
              viol("placement-batch", "cw=%s %s limit %u packet %u of %u, length %u, address mod 64 = %u, descriptors mod 64 = %u: wrong at byte %ld", hex(cw, 8), dirname_(enc),
                   ml, i, n, len, (unsigned)((uintptr_t)d[i].data & 63), (unsigned)((uintptr_t)d & 63), q);
              break;
            }
        }
      distinct(hash_bytes((uintptr_t)d & (P - 1), cw, 8) + n * 256 + ml);
      stat_add("batch_calls", 1);
      stat_add("batch_packets", n);
      sample("%s batch n=%u maxlen=%u from_end=%d descriptors at %u mod page", dirname_(enc), n, ml, from_end, (unsigned)((uintptr_t)d & (P - 1)));
    }
}

/* ---- C16: termination ------------------------------------------------------- */
static void m_term(void)
{
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  unsigned B = bsz(), width = arg_u64("width", 0), all = arg_u64("all", 0);
  if (width && width != B)
    viol("batch-size", "dvbcsa_bs_batch_size() is %u in a build with words of %u bits", B, width);
  size_t P = pgsz(), dn = (MAXB + 16) * sizeof(struct dvbcsa_bs_batch_s), dtot = (dn + P - 1) / P * P;
  uint8_t *dreg = guarded(dn);
  struct batch *b = batch_new();
  uint8_t *decoy = malloc(64 * 200), *decoy0 = malloc(64 * 200), e[400];
  LOOP
    {
      rng_t r = rng_for("term", idx);
      unsigned n = all ? idx % (B + 1) : gen_count(&r, B), i, after;
      batch_gen2(&r, b, LEN_ANY, n, all && rnd_n(&r, 4) ? 8 * rnd_n(&r, 4) : ~0u);
      case_begin(idx);
      /* exactly up to the terminator, or followed by valid looking entries */
      after = rnd(&r) & 1 ? 0 : 1 + rnd_n(&r, 16);
      struct dvbcsa_bs_batch_s *d = (void *)(dreg + dtot - (n + 1 + after) * sizeof *d);
      memcpy(d, b->d, n * sizeof *d);
      d[n].data = NULL;
      switch (rnd_n(&r, 5))
        {
        case 0: d[n].len = 0; break;
        case 1: d[n].len = 184; break;
        case 2: d[n].len = ~0u; break;
        case 3: d[n].len = 1 + rnd_n(&r, 300); break;
        default: d[n].len = rnd(&r); break;
        }
      rnd_bytes(&r, decoy0, 64 * 200);
      memcpy(decoy, decoy0, 64 * 200);
      for (i = 0; i < after; i++)
        {
          d[n + 1 + i].data = decoy + 200 * i;
          d[n + 1 + i].len = gen_len(&r, 184);
          if (!rnd_n(&r, 6)) d[n + 1 + i].data = (void *)(uintptr_t)(16 + rnd_n(&r, 4000));   /* wild */
          if (!rnd_n(&r, 8)) d[n + 1 + i].data = NULL;
        }
      struct dvbcsa_bs_batch_s term = d[n];
      dvbcsa_bs_key_set(b->cw, bk);
      dvbcsa_key_set(b->cw, k);
      if (b->enc) dvbcsa_bs_encrypt(bk, d, b->maxlen); else dvbcsa_bs_decrypt(bk, d, b->maxlen);
      if (memcmp(&term.len, &d[n].len, sizeof term.len) || d[n].data)
        viol("terminator-written", "%s", batch_desc(b));
      if (memcmp(decoy, decoy0, 64 * 200))
        viol("entry-behind-terminator-processed", "%s, %u entries behind the terminator", batch_desc(b), after);
      for (i = 0; i < n; i++)
        {
          unsigned len = b->len[i], m = len < b->maxlen ? len : b->maxlen;
          if (len > sizeof e) { len = sizeof e; if (m > len) m = len; }
          memcpy(e, batch_orig(b, i), len);
          single_run(k, b->enc, e, m);
          if (memcmp(e, b->d[i].data, len))
            {
              viol("entry-not-processed", "%s: packet %u of length %u is wrong (terminator length %u, %u entries behind it)", batch_desc(b), i, len, d[n].len, after);
              break;
            }
        }
      if (n == 0 && memcmp(b->mem, b->copy, batch_used(b)))
        viol("empty-batch-processed", "%s", batch_desc(b));
      if (dvbcsa_bs_batch_size() != B)
        viol("batch-size", "changed from %u to %u", B, dvbcsa_bs_batch_size());
      nontrivial_eval(1);
      distinct(batch_hash(b) + after + d[n].len);
      stat_add(after ? "entries_behind_terminator" : "terminator_at_page_end", 1);
      stat_add("packets_checked", n);
      sample("n=%u behind=%u terminator.len=%u %s", n, after, d[n].len, batch_desc(b));
    }
  stat_add("batch_size", B);
}

/* ---- C13, C17, C21: digests ------------------------------------------------ */
#if defined(__GNUC__) && !defined(__clang__)
__attribute__((noinline, optimize("O0")))
#else
__attribute__((noinline))
#endif
static void scribble(uint8_t v)
{
  volatile uint8_t big[400000];
  memset((void *)big, v, sizeof big);
#if defined(__x86_64__) && defined(__GNUC__)
  __asm__ volatile("" : : "r"(big) : "memory");
#endif
}
static void m_digest(void)
{
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  uint64_t chunk = arg_u64("chunk", 50), fill = arg_u64("fill", 256);
  unsigned B = bsz();
  static uint8_t pool[300 * 184], out[300 * 184], one[3000];
  struct dvbcsa_bs_batch_s *d = calloc(MAXB + 1, sizeof *d);
  uint64_t h = 0;
  uint64_t from = arg_u64("from", 0), cnt = arg_u64("n", 100);
  for (uint64_t idx = from; idx < from + cnt; idx++)
    {
      rng_t r = rng_for("digest", idx);
      uint8_t cw[8];
      int enc = rnd(&r) & 1;
      gen_cw(&r, cw);
      case_begin(idx);
      h = hash_bytes(h, "c", 1);
      if (fill < 256) scribble(fill);
      if (idx % 3)
        {
          unsigned len = rnd_n(&r, 12) ? gen_len(&r, 184) : gen_len(&r, 3000);
          gen_payload(&r, one, len);
          dvbcsa_key_set(cw, k);
          if (fill < 256) scribble(fill);
          single_run(k, enc, one, len);
          h = hash_bytes(h, one, len);
          stat_add("single_calls", 1);
        }
      else
        {
          /* the same packets whatever the batch size */
          unsigned n = 1 + rnd_n(&r, 300), ml = gen_maxlen(&r), lens[300], i, j, part;
          if (rnd_n(&r, 3)) n = 1 + rnd_n(&r, 40);
          for (i = 0; i < n; i++) lens[i] = gen_len(&r, rnd_n(&r, 5) ? ml : 184);
          rnd_bytes(&r, pool, n * 184);
          memcpy(out, pool, n * 184);
          part = 1 + rnd_n(&r, 300);
          dvbcsa_bs_key_set(cw, bk);
          for (i = 0; i < n; i += j)
            {
              for (j = 0; j < B && j < part && i + j < n; j++)
                d[j].data = out + 184 * (i + j), d[j].len = lens[i + j];
              d[j].data = NULL;
              d[j].len = 0;
              if (fill < 256) scribble(fill);
              if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
              stat_add("batch_calls", 1);
            }
          h = hash_bytes(h, out, n * 184);
          stat_add("batch_packets", n);
        }
      nontrivial_eval(1);
      distinct(idx + 1);
      if ((idx - from + 1) % chunk == 0 || idx + 1 == from + cnt)
        {
          printf("DIGEST %llu %016llx\n", (unsigned long long)(idx - (idx - from) % chunk), (unsigned long long)h);
          h = 0;
        }
    }
}

/* ---- C09: histories ---------------------------------------------------------- */
#define MAXCTX 400
static void m_hist(void)
{
  static struct dvbcsa_key_s *k[MAXCTX];
  static struct dvbcsa_bs_key_s *bk[MAXCTX];
  static struct ref_key rk[MAXCTX], rbk[MAXCTX];
  static int set[MAXCTX], bset[MAXCTX];
  unsigned NCTX = arg_u64("ctx", 6), live = 0;
  static uint8_t in[MAXB * 40 + 4096], x[MAXB * 40 + 4096], e[4200];
  struct dvbcsa_bs_batch_s d[MAXB + 1];
  unsigned B = bsz(), steps = arg_u64("steps", 60);
  LOOP
    {
      rng_t r = rng_for("hist", idx);
      uint64_t hh = 0;
      case_begin(idx);
      uint8_t pool[4][8];       /* few keys: collisions and switches back */
      for (int i = 0; i < 4; i++) gen_cw(&r, pool[i]);
      if (rnd(&r) & 1) { memcpy(pool[1], pool[0], 8); pool[1][rnd_n(&r, 8)] ^= 1 << rnd_n(&r, 8); }
      if (rnd(&r) & 1) { memcpy(pool[2], pool[0] + 4, 4); memcpy(pool[2] + 4, pool[0], 4); }
      if (rnd(&r) & 1)
        {                       /* same sum, same XOR, other order */
          unsigned i = rnd_n(&r, 8), j = rnd_n(&r, 8);
          memcpy(pool[3], pool[0], 8);
          pool[3][i] = pool[0][j], pool[3][j] = pool[0][i];
        }
      for (unsigned s = 0; s < steps; s++)
        {
          unsigned c = rnd_n(&r, NCTX), op = rnd_n(&r, 20);
          uint8_t cwbuf[8], *cw = pool[rnd_n(&r, 4)];
          if (!rnd_n(&r, 6)) gen_cw(&r, cw);
          memcpy(cwbuf, cw, 8);
          hh = hash_bytes(hh, &op, 4) + c;
          if (op < 3)
            {                   /* set or create and set, single */
              if (!k[c]) { k[c] = xkey(); live++; stat_add("alloc", 1); }
              dvbcsa_key_set(cwbuf, k[c]);
              ref_key_set(&rk[c], cw);
              rnd_bytes(&r, cwbuf, 8);          /* the caller reuses the buffer */
              set[c] = 1;
              stat_add("key_set", 1);
            }
          else if (op < 6)
            {
              if (!bk[c]) { bk[c] = xbskey(); live++; stat_add("alloc", 1); }
              dvbcsa_bs_key_set(cwbuf, bk[c]);
              ref_key_set(&rbk[c], cw);
              rnd_bytes(&r, cwbuf, 8);
              bset[c] = 1;
              stat_add("bs_key_set", 1);
            }
          else if (op == 6)
            {
              if (k[c]) { dvbcsa_key_free(k[c]); k[c] = NULL; set[c] = 0; live--; stat_add("free", 1); }
            }
          else if (op == 7)
            {
              if (bk[c]) { dvbcsa_bs_key_free(bk[c]); bk[c] = NULL; bset[c] = 0; live--; stat_add("free", 1); }
            }
          else if (op < 15)
            {
              unsigned len = rnd_n(&r, 3) ? 8 + rnd_n(&r, 20) : gen_len(&r, rnd_n(&r, 8) ? 184 : 4096);
              int enc = rnd(&r) & 1;
              if (!set[c]) continue;
              rnd_bytes(&r, in, len);
              memcpy(x, in, len);
              memcpy(e, in, len);
              single_run(k[c], enc, x, len);
              ref_run(&rk[c], enc, e, len);
              if (memcmp(x, e, len))
                viol("history-single", "history %llu step %u: %s of %u bytes with a context last set to %s is wrong at byte %ld", (unsigned long long)idx, s,
                     dirname_(enc), len, hex(rk[c].cw, 8), diffpos(x, e, len));
              stat_add("single_calls", 1);
            }
          else
            {
              unsigned n = rnd_n(&r, 4) ? 1 + rnd_n(&r, 4) : gen_count(&r, B), ml = 8 * rnd_n(&r, 6), i;
              int enc = rnd(&r) & 1;
              if (!bset[c]) continue;
              if (n > B) n = B;
              rnd_bytes(&r, in, n * 40);
              memcpy(x, in, n * 40);
              for (i = 0; i < n; i++) d[i].data = x + 40 * i, d[i].len = rnd_n(&r, 41);
              d[n].data = NULL;
              if (enc) dvbcsa_bs_encrypt(bk[c], d, ml); else dvbcsa_bs_decrypt(bk[c], d, ml);
              for (i = 0; i < n; i++)
                {
                  memcpy(e, in + 40 * i, 40);
                  ref_run(&rbk[c], enc, e, d[i].len < ml ? d[i].len : ml);
                  if (memcmp(e, x + 40 * i, 40))
                    {
                      viol("history-batch", "history %llu step %u: batch %s (limit %u) with a context last set to %s: packet %u of %u is wrong", (unsigned long long)idx, s,
                           dirname_(enc), ml, hex(rbk[c].cw, 8), i, n);
                      break;
                    }
                }
              stat_add("batch_calls", 1);
            }
          nontrivial_eval(1);
        }
      distinct(hh);
      if (NCTX > 50) stat_add("crowded_histories", live > NCTX / 2);
      sample("history %llu: %u operations over %u+%u contexts, %u alive at the end", (unsigned long long)idx, steps, NCTX, NCTX, live);
    }
}

/* millions of the cheapest calls: counters of 16, 20 and 24 bits wrap on the way */
static void m_spin(void)
{
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  uint64_t n = arg_u64("n", 1 << 20), i, looked = 0;
  int what = arg_u64("what", 0);
  enum { NK = 5, L = 20 };
  uint8_t cw[NK][8], pl[L], ex[NK][L], x[L];
  struct ref_key rk;
  rng_t r = rng_for("spin", what);
  rnd_bytes(&r, pl, L);
  for (i = 0; i < NK; i++)
    {
      gen_cw(&r, cw[i]);
      ref_key_set(&rk, cw[i]);
      memcpy(ex[i], pl, L);
      ref_encrypt(&rk, ex[i], what == 2 ? 8 : L);
    }
  dvbcsa_key_set(cw[0], k);
  dvbcsa_bs_key_set(cw[0], bk);
  for (i = 1; i <= n && !too_many(); i++)
    {
      unsigned c = i % NK;
      int look = ((i + 3) & 4095) < 8 || i % 1021 == 0;   /* every call around multiples of 4096 */
      case_begin(i);
      if (what == 0) dvbcsa_key_set(cw[c], k);
      else if (what == 1) dvbcsa_bs_key_set(cw[c], bk);
      else
        {
          memcpy(x, pl, 8);
          dvbcsa_encrypt(k, x, 8);
          if (memcmp(x, ex[0], 8)) viol("spin-encrypt", "call %llu is wrong", (unsigned long long)i);
          looked++;
          continue;
        }
      if (!look) continue;
      looked++;
      memcpy(x, pl, L);
      if (what == 0) dvbcsa_encrypt(k, x, L);
      else
        {
          struct dvbcsa_bs_batch_s d[2] = { { x, L }, { NULL, 0 } };
          dvbcsa_bs_encrypt(bk, d, 24);
        }
      if (memcmp(x, ex[c], L)) viol(what ? "spin-bs-key" : "spin-key", "wrong after %llu key setups", (unsigned long long)i);
    }
  stat_add(what == 0 ? "key_set" : what == 1 ? "bs_key_set" : "single_calls", i - 1);
  stat_add("spin_results_compared", looked);
  nontrivial_eval(looked);
  distinct(what + 1);
  distinct(what + 100);
}

/* one call, whose instructions are counted from outside */
static void m_onecall(void)
{
  struct dvbcsa_key_s *k = xkey();
  uint64_t len = arg_u64("len", 0), seed = arg_u64("content", 0);
  uint8_t *p = malloc(4 << 20), cw[8];
  rng_t r = rng_for("onecall", seed);
  uint32_t x = 1;
  if (!p || len > 4 << 20) die("length");
  for (unsigned i = 0; i < 4 << 20; i++) p[i] = (x = x * 1103515245 + 12345) >> 16;
  rnd_bytes(&r, cw, 8);
  dvbcsa_key_set(cw, k);
  case_begin(len);
  single_run(k, arg_u64("enc", 0), p, len);
  nontrivial_eval(1);
  distinct(len * 2 + arg_u64("enc", 0));
}

/* one context for very many calls of every kind */
static void m_marathon(void)
{
  struct dvbcsa_bs_key_s *bk = xbskey();
  struct dvbcsa_key_s *k = xkey();
  uint64_t n = arg_u64("n", 70000), nb = arg_u64("nb", 70000), i;
  enum { NK = 7 };
  uint8_t cw[NK][8], pl[NK][24], ex[NK][2][24];
  struct ref_key rk;
  rng_t r = rng_for("marathon", 0);
  for (i = 0; i < NK; i++)
    {
      gen_cw(&r, cw[i]);
      rnd_bytes(&r, pl[i], 24);
      ref_key_set(&rk, cw[i]);
      for (int enc = 0; enc < 2; enc++)
        {
          memcpy(ex[i][enc], pl[i], 24);
          ref_run(&rk, enc, ex[i][enc], 20);
        }
    }
  unsigned cur = 0, bcur = 0;
  dvbcsa_key_set(cw[0], k);
  dvbcsa_bs_key_set(cw[0], bk);
  for (i = 0; i < n && !too_many(); i++)
    {
      uint8_t x[24];
      int enc = (i >> 3) & 1;
      case_begin(i);
      if (i > n / 2 || i % 16 == 0)
        {                       /* first half: rare changes; second half: one per call */
          cur = (cur + 1) % NK;
          dvbcsa_key_set(cw[cur], k);
          stat_add("key_set", 1);
        }
      memcpy(x, pl[cur], 24);
      single_run(k, enc, x, 20);
      if (memcmp(x, ex[cur][enc], 24)) viol("marathon-single", "call %llu is wrong", (unsigned long long)i);
    }
  stat_add("single_calls", i);
  nontrivial_eval(i);
  for (i = 0; i < nb && !too_many(); i++)
    {
      uint8_t x[2][24];
      int enc = (i >> 3) & 1;
      struct dvbcsa_bs_batch_s d[3] = { { x[0], 20 }, { x[1], 20 }, { NULL, 0 } };
      case_begin(n + i);
      if (i > nb / 2 || i % 16 == 0)
        {
          bcur = (bcur + 1) % NK;
          dvbcsa_bs_key_set(cw[bcur], bk);
          stat_add("bs_key_set", 1);
        }
      memcpy(x[0], pl[bcur], 24);
      memcpy(x[1], pl[bcur], 24);
      if (enc) dvbcsa_bs_encrypt(bk, d, 24); else dvbcsa_bs_decrypt(bk, d, 24);
      if (memcmp(x[0], ex[bcur][enc], 24) || memcmp(x[1], ex[bcur][enc], 24)) viol("marathon-batch", "call %llu is wrong", (unsigned long long)i);
    }
  stat_add("batch_calls", i);
  nontrivial_eval(i);
  /* allocation churn, contexts of every age alive together */
  enum { NA = 300 };
  static struct dvbcsa_key_s *ks[NA];
  static struct dvbcsa_bs_key_s *bs[NA];
  for (i = 0; i < NA; i++)
    {
      ks[i] = xkey();
      bs[i] = xbskey();
      dvbcsa_key_set(cw[i % NK], ks[i]);
      dvbcsa_bs_key_set(cw[i % NK], bs[i]);
    }
  for (i = 0; i < NA; i++)
    {
      uint8_t x[24], y[24];
      unsigned j = (i * 7 + 5) % NA;
      struct dvbcsa_bs_batch_s d[2] = { { y, 20 }, { NULL, 0 } };
      memcpy(x, pl[j % NK], 24);
      memcpy(y, pl[j % NK], 24);
      dvbcsa_encrypt(ks[j], x, 20);
      dvbcsa_bs_encrypt(bs[j], d, 24);
      case_begin(n + nb + i);
      if (memcmp(x, ex[j % NK][1], 24) || memcmp(y, ex[j % NK][1], 24)) viol("many-contexts", "context %u of %d is wrong", j, NA);
    }
  for (i = 0; i < NA; i++)
    {
      dvbcsa_key_free(ks[i]);
      dvbcsa_bs_key_free(bs[i]);
    }
  nontrivial_eval(NA);
  distinct(1);
  distinct(2);
  stat_add("contexts_alive_together", 2 * NA);
}

const struct mode modes_func[] = {
  { "single", m_single }, { "lens", m_lens }, { "keys", m_keys }, { "large", m_large }, { "huge", m_huge },
  { "batch", m_batch }, { "grid", m_grid }, { "bskeys", m_bskeys }, { "indep", m_indep },
  { "limithuge", m_limit_huge }, { "residue", m_residue }, { "inverse", m_inverse }, { "keybits", m_keybits },
  { "align", m_align }, { "term", m_term }, { "digest", m_digest }, { "hist", m_hist }, { "marathon", m_marathon }, { "spin", m_spin }, { "onecall", m_onecall },
  { NULL, NULL }
};
