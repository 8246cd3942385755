/* libFuzzer target: one input is one call of either API, checked against the
   reference cipher.  Coverage and comparison feedback (value profile) steer
   the inputs towards branches on lengths, counts, limits, key and data bytes. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dvbcsa/dvbcsa.h>
#include "ref.h"

static struct dvbcsa_key_s *k;
static struct dvbcsa_bs_key_s *bk;
static unsigned B;
static int only = -1;              /* FUZZ_API: 0 single, 1 batch */

static void fail(const char *what, int enc, const uint8_t *cw, unsigned len, unsigned n, unsigned ml)
{
  printf("VIOL %s case=0 %s cw=%02x%02x%02x%02x%02x%02x%02x%02x len=%u packets=%u limit=%u\n", what, enc ? "encrypt" : "decrypt",
         cw[0], cw[1], cw[2], cw[3], cw[4], cw[5], cw[6], cw[7], len, n, ml);
  fflush(stdout);
  abort();
}

int LLVMFuzzerInitialize(int *c, char ***v)
{
  (void)c, (void)v;
  ref_init();
  if (getenv("FUZZ_API")) only = !strcmp(getenv("FUZZ_API"), "batch");
  k = dvbcsa_key_alloc();
  bk = dvbcsa_bs_key_alloc();
  B = dvbcsa_bs_batch_size();
  if (!k || !bk || B < 1 || B > 1024) { printf("HARNESS-ERROR allocation\n"); exit(70); }
  return 0;
}

int LLVMFuzzerTestOneInput(const uint8_t *in, size_t size)
{
  uint8_t cw[8];
  struct ref_key rk;
  if (size < 12) return -1;
  unsigned flags = in[0], n = 1 + in[1] % B, ml = 8 * (in[2] % 24), i;
  int enc = flags & 1;
  memcpy(cw, in + 4, 8);
  const uint8_t *p = in + 12;
  size_t left = size - 12;
  ref_key_set(&rk, cw);
  if (only < 0 ? !(flags & 2) : !only)
    {                           /* single, the payload is the rest, cut exactly */
      size_t len = left;
      uint8_t *x = malloc(len ? len : 1), *e = malloc(len ? len : 1);
      memcpy(x, p, len);
      memcpy(e, p, len);
      dvbcsa_key_set(cw, k);
      if (enc) { dvbcsa_encrypt(k, x, len); ref_encrypt(&rk, e, len); }
      else { dvbcsa_decrypt(k, x, len); ref_decrypt(&rk, e, len); }
      if (memcmp(x, e, len)) fail(enc ? "single-encrypt-differs" : "single-decrypt-differs", enc, cw, len, 0, 0);
      free(x);
      free(e);
      return 0;
    }
  /* batch: the first packets are spelled out (length byte, contents), the
     others repeat them */
  static uint8_t buf[1024][256], exp[1024][256];
  struct dvbcsa_bs_batch_s *d = malloc((n + 1) * sizeof *d);
  unsigned m = 0;
  while (m < n && left)
    {
      unsigned len = *p++, c;
      left--;
      c = len < left ? len : left;
      memset(buf[m], 0, 256);
      memcpy(buf[m], p, c);
      p += c, left -= c;
      d[m].len = len;
      m++;
    }
  if (!m) { d[0].len = 0; m = 1; }
  for (i = m; i < n; i++)
    {
      memcpy(buf[i], buf[i % m], 256);
      buf[i][0] ^= i;
      d[i].len = d[i % m].len;
    }
  for (i = 0; i < n; i++)
    {
      d[i].data = buf[i];
      memcpy(exp[i], buf[i], 256);
      unsigned len = d[i].len < ml ? d[i].len : ml;
      if (enc) ref_encrypt(&rk, exp[i], len); else ref_decrypt(&rk, exp[i], len);
    }
  d[n].data = NULL;
  d[n].len = in[3];
  dvbcsa_bs_key_set(cw, bk);
  if (enc) dvbcsa_bs_encrypt(bk, d, ml); else dvbcsa_bs_decrypt(bk, d, ml);
  for (i = 0; i < n; i++)
    if (memcmp(buf[i], exp[i], 256)) fail(d[i].len <= ml ? "batch-differs-from-reference" : "limit-prefix", enc, cw, d[i].len, n, ml);
  free(d);
  return 0;
}
