/* A user's program, in the common subset of C89 and C++: only the installed
   header.  Exit 0 when the library behaves. */
#include <dvbcsa/dvbcsa.h>
#include <dvbcsa/dvbcsa.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int other_unit(void);

/* "testtest", 0..183 encrypted; computed by the reference cipher */
static int fail(const char *what)
{
  printf("CLIENT-FAILED %s\n", what);
  return 1;
}

static int client_main(void)
{
  unsigned char cw[8], one[184], plain[184], *buf;
  dvbcsa_cw_t cwt;
  dvbcsa_key_t *k;
  dvbcsa_bs_key_t *bk;
  struct dvbcsa_bs_batch_s *b;
  unsigned int n, i, j, len;

  memcpy(cw, "testtest", 8);
  memcpy(cwt, cw, 8);
  if (sizeof (dvbcsa_cw_t) != 8) return fail("dvbcsa_cw_t is not 8 bytes");
  if (DVBCSA_BS_MAX_PACKET_LEN != 184) return fail("DVBCSA_BS_MAX_PACKET_LEN");
  for (i = 0; i < 184; i++) plain[i] = (unsigned char)(i * 7 + 3);
  n = dvbcsa_bs_batch_size();
  if (n < 32 || n % 32) return fail("dvbcsa_bs_batch_size");
  k = dvbcsa_key_alloc();
  bk = dvbcsa_bs_key_alloc();
  if (!k || !bk) return fail("allocation");
  dvbcsa_key_set(cwt, k);
  dvbcsa_bs_key_set(cw, bk);
  b = (struct dvbcsa_bs_batch_s *)malloc((n + 1) * sizeof *b);
  buf = (unsigned char *)malloc(n * 184);
  for (i = 0; i < n; i++)
    {
      b[i].data = buf + 184 * i;
      b[i].len = i % 3 ? 184 : i % 185;
      memcpy(b[i].data, plain, 184);
    }
  b[n].data = NULL;
  dvbcsa_bs_encrypt(bk, b, DVBCSA_BS_MAX_PACKET_LEN);
  for (i = 0; i < n; i++)
    {
      len = b[i].len;
      memcpy(one, plain, 184);
      dvbcsa_encrypt(k, one, len);
      if (memcmp(one, b[i].data, 184)) return fail("parallel encryption");
      if (len == 184 && i == 1)
        for (j = 0; j < 184; j++) printf("%02x%s", one[j], j == 183 ? "\n" : "");
      dvbcsa_decrypt(k, one, len);
      if (memcmp(one, plain, 184)) return fail("decryption");
    }
  dvbcsa_bs_decrypt(bk, b, 184);
  for (i = 0; i < n; i++)
    if (memcmp(plain, b[i].data, 184)) return fail("parallel decryption");
  dvbcsa_key_free(k);
  dvbcsa_bs_key_free(bk);
  free(b);
  free(buf);
  if (other_unit()) return fail("second translation unit");
  printf("CLIENT-OK %u\n", n);
  return 0;
}
