#include <string.h>
#include "ref.h"

/* bit i (1 based, msb of byte 0 first as in the description) goes to key_perm[i-1] */
static const uint8_t key_perm[64] = {
  0x12,0x24,0x09,0x07,0x2A,0x31,0x1D,0x15,0x1C,0x36,0x3E,0x32,0x13,0x21,0x3B,0x40,
  0x18,0x14,0x25,0x27,0x02,0x35,0x1B,0x01,0x22,0x04,0x0D,0x0E,0x39,0x28,0x1A,0x29,
  0x33,0x23,0x34,0x0C,0x16,0x30,0x1E,0x3A,0x2D,0x1F,0x08,0x19,0x17,0x2F,0x3D,0x11,
  0x3C,0x05,0x38,0x2B,0x0B,0x06,0x0A,0x2C,0x20,0x3F,0x2E,0x0F,0x03,0x26,0x10,0x37 };

static const uint8_t bsbox[256] = {
  0x3A,0xEA,0x68,0xFE,0x33,0xE9,0x88,0x1A,0x83,0xCF,0xE1,0x7F,0xBA,0xE2,0x38,0x12,
  0xE8,0x27,0x61,0x95,0x0C,0x36,0xE5,0x70,0xA2,0x06,0x82,0x7C,0x17,0xA3,0x26,0x49,
  0xBE,0x7A,0x6D,0x47,0xC1,0x51,0x8F,0xF3,0xCC,0x5B,0x67,0xBD,0xCD,0x18,0x08,0xC9,
  0xFF,0x69,0xEF,0x03,0x4E,0x48,0x4A,0x84,0x3F,0xB4,0x10,0x04,0xDC,0xF5,0x5C,0xC6,
  0x16,0xAB,0xAC,0x4C,0xF1,0x6A,0x2F,0x3C,0x3B,0xD4,0xD5,0x94,0xD0,0xC4,0x63,0x62,
  0x71,0xA1,0xF9,0x4F,0x2E,0xAA,0xC5,0x56,0xE3,0x39,0x93,0xCE,0x65,0x64,0xE4,0x58,
  0x6C,0x19,0x42,0x79,0xDD,0xEE,0x96,0xF6,0x8A,0xEC,0x1E,0x85,0x53,0x45,0xDE,0xBB,
  0x7E,0x0A,0x9A,0x13,0x2A,0x9D,0xC2,0x5E,0x5A,0x1F,0x32,0x35,0x9C,0xA8,0x73,0x30,
  0x29,0x3D,0xE7,0x92,0x87,0x1B,0x2B,0x4B,0xA5,0x57,0x97,0x40,0x15,0xE6,0xBC,0x0E,
  0xEB,0xC3,0x34,0x2D,0xB8,0x44,0x25,0xA4,0x1C,0xC7,0x23,0xED,0x90,0x6E,0x50,0x00,
  0x99,0x9E,0x4D,0xD9,0xDA,0x8D,0x6F,0x5F,0x3E,0xD7,0x21,0x74,0x86,0xDF,0x6B,0x05,
  0x8E,0x5D,0x37,0x11,0xD2,0x28,0x75,0xD6,0xA7,0x77,0x24,0xBF,0xF0,0xB0,0x02,0xB7,
  0xF8,0xFC,0x81,0x09,0xB1,0x01,0x76,0x91,0x7D,0x0F,0xC8,0xA0,0xF2,0xCB,0x78,0x60,
  0xD1,0xF7,0xE0,0xB5,0x98,0x22,0xB3,0x20,0x1D,0xA6,0xDB,0x7B,0x59,0x9F,0xAE,0x31,
  0xFB,0xD3,0xB6,0xCA,0x43,0x72,0x07,0xF4,0xD8,0x41,0x14,0x55,0x0D,0x54,0x8B,0xB9,
  0xAD,0x46,0x0B,0xAF,0x80,0x52,0x2C,0xFA,0x8C,0x89,0x66,0xFD,0xB2,0xA9,0x9B,0xC0 };

/* block cipher bit permutation: input bit i moves to bit bperm_bit[i] */
static const uint8_t bperm_bit[8] = { 1, 7, 5, 4, 2, 6, 0, 3 };
static uint8_t bperm[256];

static const uint8_t S1[32] = { 2,0,1,1,2,3,3,0, 3,2,2,0,1,1,0,3, 0,3,3,0,2,2,1,1, 2,2,0,3,1,1,3,0 };
static const uint8_t S2[32] = { 3,1,0,2,2,3,3,0, 1,3,2,1,0,0,1,2, 3,1,0,3,3,2,0,2, 0,0,1,2,2,1,3,1 };
static const uint8_t S3[32] = { 2,0,1,2,2,3,3,1, 1,1,0,3,3,0,2,0, 1,3,0,1,3,0,2,2, 2,0,1,2,0,3,3,1 };
static const uint8_t S4[32] = { 3,1,2,3,0,2,1,2, 1,2,0,1,3,0,0,3, 1,0,3,1,2,3,0,3, 0,3,2,0,1,2,2,1 };
static const uint8_t S5[32] = { 2,0,0,1,3,2,3,2, 0,1,3,3,1,0,2,1, 2,3,2,0,0,3,1,1, 1,0,3,2,3,1,0,2 };
static const uint8_t S6[32] = { 0,1,2,3,1,2,2,0, 0,1,3,0,2,3,1,3, 2,3,0,2,3,0,1,1, 2,1,1,2,0,3,3,0 };
static const uint8_t S7[32] = { 0,3,2,2,3,0,0,1, 3,0,1,3,1,2,2,1, 1,0,3,3,0,1,1,2, 2,3,1,0,2,3,0,2 };

void ref_init(void)
{
  int v, b;
  for (v = 0; v < 256; v++)
    {
      uint8_t o = 0;
      for (b = 0; b < 8; b++)
        if ((v >> b) & 1)
          o |= (uint8_t)(1u << bperm_bit[b]);
      bperm[v] = o;
    }
}

void ref_key_set(struct ref_key *k, const uint8_t cw[8])
{
  uint8_t kb[7][8];
  int r, i, j;

  memcpy(k->cw, cw, 8);
  memcpy(kb[6], cw, 8);
  for (r = 6; r > 0; r--)
    {
      uint8_t bit[64], nbit[64];
      for (i = 0; i < 8; i++)
        for (j = 0; j < 8; j++)
          bit[i * 8 + j] = (kb[r][i] >> (7 - j)) & 1;
      for (i = 0; i < 64; i++)
        nbit[key_perm[i] - 1] = bit[i];
      for (i = 0; i < 8; i++)
        {
          kb[r - 1][i] = 0;
          for (j = 0; j < 8; j++)
            kb[r - 1][i] |= (uint8_t)(nbit[i * 8 + j] << (7 - j));
        }
    }
  for (r = 0; r < 7; r++)
    for (i = 0; i < 8; i++)
      k->kk[r * 8 + i] = kb[r][i] ^ (uint8_t)r;
}

void ref_block_dec(const uint8_t kk[56], uint8_t b[8])
{
  uint8_t R[9]; int i;
  memcpy(R + 1, b, 8);
  for (i = 55; i >= 0; i--)
    {
      uint8_t so = bsbox[kk[i] ^ R[7]];
      uint8_t po = bperm[so];
      uint8_t n8 = R[7], n7 = R[6] ^ po, n6 = R[5];
      uint8_t n5 = R[4] ^ R[8] ^ so, n4 = R[3] ^ R[8] ^ so, n3 = R[2] ^ R[8] ^ so;
      uint8_t n2 = R[1], n1 = R[8] ^ so;
      R[1] = n1; R[2] = n2; R[3] = n3; R[4] = n4; R[5] = n5; R[6] = n6; R[7] = n7; R[8] = n8;
    }
  memcpy(b, R + 1, 8);
}

void ref_block_enc(const uint8_t kk[56], uint8_t b[8])
{
  uint8_t R[9]; int i;
  memcpy(R + 1, b, 8);
  for (i = 0; i < 56; i++)
    {
      uint8_t so = bsbox[kk[i] ^ R[8]];
      uint8_t po = bperm[so];
      uint8_t n1 = R[2], n2 = R[3] ^ R[1], n3 = R[4] ^ R[1], n4 = R[5] ^ R[1];
      uint8_t n5 = R[6], n6 = R[7] ^ po, n7 = R[8], n8 = R[1] ^ so;
      R[1] = n1; R[2] = n2; R[3] = n3; R[4] = n4; R[5] = n5; R[6] = n6; R[7] = n7; R[8] = n8;
    }
  memcpy(b, R + 1, 8);
}

struct st { uint8_t A[11], B[11], X, Y, Z, D, E, F, p, q, r; };
#define b_(v, n) (((v) >> (n)) & 1)

static uint8_t ref_stream_byte(struct st *s, int init, uint8_t in)
{
  uint8_t in1 = in >> 4, in2 = in & 15, op = 0;
  int j, i;

  for (j = 0; j < 4; j++)
    {
      const uint8_t *A = s->A, *B = s->B;
      int s1 = S1[b_(A[4],0)<<4 | b_(A[1],2)<<3 | b_(A[6],1)<<2 | b_(A[7],3)<<1 | b_(A[9],0)];
      int s2 = S2[b_(A[2],1)<<4 | b_(A[3],2)<<3 | b_(A[6],3)<<2 | b_(A[7],0)<<1 | b_(A[9],1)];
      int s3 = S3[b_(A[1],3)<<4 | b_(A[2],0)<<3 | b_(A[5],1)<<2 | b_(A[5],3)<<1 | b_(A[6],2)];
      int s4 = S4[b_(A[3],3)<<4 | b_(A[1],1)<<3 | b_(A[2],3)<<2 | b_(A[4],2)<<1 | b_(A[8],0)];
      int s5 = S5[b_(A[5],2)<<4 | b_(A[4],3)<<3 | b_(A[6],0)<<2 | b_(A[8],1)<<1 | b_(A[9],2)];
      int s6 = S6[b_(A[3],1)<<4 | b_(A[4],1)<<3 | b_(A[5],0)<<2 | b_(A[7],2)<<1 | b_(A[9],3)];
      int s7 = S7[b_(A[2],2)<<4 | b_(A[3],0)<<3 | b_(A[7],1)<<2 | b_(A[8],2)<<1 | b_(A[8],3)];
      uint8_t xb = (uint8_t)(
          (b_(B[3],0) ^ b_(B[6],1) ^ b_(B[7],2) ^ b_(B[9],3)) << 3 |
          (b_(B[6],0) ^ b_(B[8],1) ^ b_(B[3],3) ^ b_(B[4],2)) << 2 |
          (b_(B[5],3) ^ b_(B[8],2) ^ b_(B[4],0) ^ b_(B[5],1)) << 1 |
          (b_(B[9],2) ^ b_(B[6],3) ^ b_(B[3],1) ^ b_(B[8],0)));
      uint8_t nA = A[10] ^ s->X, nB = B[7] ^ B[10] ^ s->Y, nE;

      if (init)
        {
          nA ^= s->D ^ (j & 1 ? in2 : in1);
          nB ^= (j & 1 ? in1 : in2);
        }
      if (s->p)
        nB = (uint8_t)((nB << 1 | nB >> 3) & 15);
      s->D = s->E ^ s->Z ^ xb;
      nE = s->F;
      if (s->q)
        {
          uint8_t sum = (uint8_t)(s->Z + s->E + s->r);
          s->r = sum >> 4 & 1;
          s->F = sum & 15;
        }
      else
        s->F = s->E;
      s->E = nE;
      for (i = 10; i > 1; i--)
        {
          s->A[i] = s->A[i - 1];
          s->B[i] = s->B[i - 1];
        }
      s->A[1] = nA;
      s->B[1] = nB;
      s->X = (uint8_t)((s4 & 1) << 3 | (s3 & 1) << 2 | (s2 & 2) | s1 >> 1);
      s->Y = (uint8_t)((s6 & 1) << 3 | (s5 & 1) << 2 | (s4 & 2) | s3 >> 1);
      s->Z = (uint8_t)((s2 & 1) << 3 | (s1 & 1) << 2 | (s6 & 2) | s5 >> 1);
      s->p = (uint8_t)(s7 >> 1);
      s->q = (uint8_t)(s7 & 1);
      op = (uint8_t)(op << 2 | (b_(s->D,2) ^ b_(s->D,3)) << 1 | (b_(s->D,0) ^ b_(s->D,1)));
    }
  return op;
}

void ref_stream_xor(const uint8_t cw[8], const uint8_t iv[8], uint8_t *p, size_t n)
{
  struct st s;
  size_t i;

  memset(&s, 0, sizeof s);
  for (i = 0; i < 4; i++)
    {
      s.A[1 + 2 * i] = cw[i] >> 4;
      s.A[2 + 2 * i] = cw[i] & 15;
      s.B[1 + 2 * i] = cw[4 + i] >> 4;
      s.B[2 + 2 * i] = cw[4 + i] & 15;
    }
  for (i = 0; i < 8; i++)
    ref_stream_byte(&s, 1, iv[i]);
  for (i = 0; i < n; i++)
    p[i] ^= ref_stream_byte(&s, 0, 0);
}

void ref_encrypt(const struct ref_key *k, uint8_t *p, size_t len)
{
  size_t nb = len / 8, i, j;

  if (len < 8)
    return;
  for (i = nb; i-- > 0;)
    {
      if (i + 1 < nb)
        for (j = 0; j < 8; j++)
          p[i * 8 + j] ^= p[i * 8 + 8 + j];
      ref_block_enc(k->kk, p + i * 8);
    }
  ref_stream_xor(k->cw, p, p + 8, len - 8);
}

void ref_decrypt(const struct ref_key *k, uint8_t *p, size_t len)
{
  size_t nb = len / 8, i, j;

  if (len < 8)
    return;
  ref_stream_xor(k->cw, p, p + 8, len - 8);
  for (i = 0; i < nb; i++)
    {
      ref_block_dec(k->kk, p + i * 8);
      if (i + 1 < nb)
        for (j = 0; j < 8; j++)
          p[i * 8 + j] ^= p[i * 8 + 8 + j];
    }
}
