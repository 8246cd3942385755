/* Shared parts of the monitors: deterministic case generator, guarded memory,
   crash attribution and the line protocol spoken to check.py.  Only the public
   API of the library is used anywhere in this directory. */
#ifndef COMMON_H
#define COMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <dvbcsa/dvbcsa.h>
#include "ref.h"

#define MAXB 1024               /* biggest batch size supported */

/* ---- line protocol ------------------------------------------------------ */
extern uint64_t SEED;
extern volatile uint64_t cur_case;
void case_begin(uint64_t idx);                 /* publishes the case number   */
void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void stat_add(const char *name, uint64_t v);
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void distinct(uint64_t h);                     /* a non-trivial case, hashed  */
void nontrivial_eval(uint64_t n);              /* evaluations                 */
uint64_t arg_u64(const char *name, uint64_t dflt);
const char *arg_str(const char *name, const char *dflt);
int too_many(void);                            /* enough violations reported  */
const char *hex(const void *p, size_t n);      /* static ring of buffers      */

/* ---- generator ---------------------------------------------------------- */
typedef struct { uint64_t s[2]; } rng_t;
rng_t rng_for(const char *tag, uint64_t idx);
uint64_t rnd(rng_t *r);
static inline uint64_t rnd_n(rng_t *r, uint64_t n) { return n ? rnd(r) % n : 0; }
void rnd_bytes(rng_t *r, void *p, size_t n);
uint64_t hash_bytes(uint64_t h, const void *p, size_t n);
void gen_cw(rng_t *r, uint8_t cw[8]);
void gen_payload(rng_t *r, uint8_t *p, size_t n);
unsigned gen_len(rng_t *r, unsigned max);
unsigned gen_maxlen(rng_t *r);
unsigned gen_count(rng_t *r, unsigned bsz);
unsigned bsz(void);                            /* dvbcsa_bs_batch_size()      */

/* ---- a batch case ------------------------------------------------------- */
struct batch {
  uint8_t cw[8];
  int enc;
  unsigned maxlen, n;
  unsigned len[MAXB];
  struct dvbcsa_bs_batch_s d[MAXB + 1];
  uint8_t *mem;                 /* memory the payloads live in               */
  uint8_t *copy;                /* its contents before the call              */
  size_t memlen;
  int layout, lenmode;
};
enum { LEN_WITHIN = 0, LEN_OVER = 1, LEN_ANY = 2 };
struct batch *batch_new(void);
void batch_gen(rng_t *r, struct batch *b, int over);
/* generate with fixed count / limit (~0u: choose) */
void batch_gen2(rng_t *r, struct batch *b, int over, unsigned n, unsigned maxlen);
void batch_layout(rng_t *r, struct batch *b);
size_t batch_used(struct batch *b);
void batch_reset(struct batch *b);             /* payload memory := copy      */
static inline uint8_t *batch_orig(struct batch *b, unsigned i)
{ return b->copy + (b->d[i].data - b->mem); }
uint64_t batch_hash(struct batch *b);
const char *batch_desc(struct batch *b);
static inline void batch_run(const struct dvbcsa_bs_key_s *k, struct batch *b)
{ if (b->enc) dvbcsa_bs_encrypt(k, b->d, b->maxlen); else dvbcsa_bs_decrypt(k, b->d, b->maxlen); }
static inline void single_run(const struct dvbcsa_key_s *k, int enc, uint8_t *p, unsigned len)
{ if (enc) dvbcsa_encrypt(k, p, len); else dvbcsa_decrypt(k, p, len); }
static inline void ref_run(const struct ref_key *k, int enc, uint8_t *p, size_t len)
{ if (enc) ref_encrypt(k, p, len); else ref_decrypt(k, p, len); }

struct dvbcsa_key_s *xkey(void);               /* allocate or die             */
struct dvbcsa_bs_key_s *xbskey(void);

/* first differing byte or -1 */
long diffpos(const void *a, const void *b, size_t n);

/* ---- memory with unmapped pages on both sides ---------------------------- */
uint8_t *guarded(size_t n);                    /* n rounded up to pages       */
void guarded_free(uint8_t *p, size_t n);
size_t pgsz(void);

struct mode { const char *name; void (*fn)(void); };
extern const struct mode modes_func[], modes_sys[], modes_more[];
void die(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#endif
