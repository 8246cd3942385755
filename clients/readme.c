/* The example of the README with the dots filled in. */
#include <stdio.h>
#include <dvbcsa/dvbcsa.h>
static unsigned char pkt[4096][184];
int main(void)
{
    int i, s = dvbcsa_bs_batch_size();
    struct dvbcsa_bs_batch_s b[s + 1];

    struct dvbcsa_bs_key_s *key = dvbcsa_bs_key_alloc();
    unsigned char cw[8] = "testtest";

    dvbcsa_bs_key_set(cw, key);

    for (i = 0; i < s; i++)
      {
        b[i].data = pkt[i];
        b[i].len = 184;
      }

    b[i].data = NULL;

    dvbcsa_bs_encrypt(key, b, 184);
    for (i = 0; i < 184; i++) printf("%02x", pkt[s - 1][i]);
    printf("\n");
    return 0;
}
