/* Reference model of the DVB Common Scrambling Algorithm, written from the
   published description of the two ciphers (nibble registers, 64 entries key
   bit permutation, 32 entries 2 bits S-boxes, 8 bits block S-box and bit
   permutation).  It shares no code, no table layout and no header with the
   library. */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stddef.h>

struct ref_key { uint8_t cw[8]; uint8_t kk[56]; };
void ref_init(void);
void ref_key_set(struct ref_key *k, const uint8_t cw[8]);
void ref_encrypt(const struct ref_key *k, uint8_t *p, size_t len);
void ref_decrypt(const struct ref_key *k, uint8_t *p, size_t len);
/* ops of the two halves, for the huge payload check */
void ref_block_enc(const uint8_t kk[56], uint8_t b[8]);
void ref_block_dec(const uint8_t kk[56], uint8_t b[8]);
void ref_stream_xor(const uint8_t cw[8], const uint8_t iv[8], uint8_t *p, size_t n);
#endif
