/* header first and alone: it must not need anything included before it */
#include <dvbcsa/dvbcsa.h>

int other_unit(void);
int other_unit(void)
{
  /* every declared function has an address of the documented type */
  struct dvbcsa_key_s *(*f1)(void) = dvbcsa_key_alloc;
  void (*f2)(struct dvbcsa_key_s *) = dvbcsa_key_free;
  void (*f3)(const dvbcsa_cw_t, struct dvbcsa_key_s *) = dvbcsa_key_set;
  void (*f4)(const struct dvbcsa_key_s *, unsigned char *, unsigned int) = dvbcsa_decrypt;
  void (*f5)(const struct dvbcsa_key_s *, unsigned char *, unsigned int) = dvbcsa_encrypt;
  struct dvbcsa_bs_key_s *(*f6)(void) = dvbcsa_bs_key_alloc;
  void (*f7)(struct dvbcsa_bs_key_s *) = dvbcsa_bs_key_free;
  void (*f8)(const dvbcsa_cw_t, struct dvbcsa_bs_key_s *) = dvbcsa_bs_key_set;
  unsigned int (*f9)(void) = dvbcsa_bs_batch_size;
  void (*f10)(const struct dvbcsa_bs_key_s *, const struct dvbcsa_bs_batch_s *, unsigned int) = dvbcsa_bs_decrypt;
  void (*f11)(const struct dvbcsa_bs_key_s *, const struct dvbcsa_bs_batch_s *, unsigned int) = dvbcsa_bs_encrypt;
  return !(f1 && f2 && f3 && f4 && f5 && f6 && f7 && f8 && f9 && f10 && f11);
}
