/* AES-128/192/256 (FIPS-197) in place of OpenSSL's; also used by the harnesses as the reference cipher (ref_aes_*). */
#include "verif.h"
#include "ref.h"
struct aes_key_st { unsigned int rd_key[60]; int rounds; };
typedef struct aes_key_st AES_KEY;
int AES_set_encrypt_key(const unsigned char *k, int bits, AES_KEY *key) { if (!k || !key) return -1; if (bits != 128 && bits != 192 && bits != 256) return -2; ref_aes_expand(k, bits / 32, (unsigned char *)key->rd_key); key->rounds = bits / 32 + 6; return 0; }
int AES_set_decrypt_key(const unsigned char *k, int bits, AES_KEY *key) { int r = AES_set_encrypt_key(k, bits, key); if (!r) key->rounds |= 0x100; return r; }
/* the real library stores a different schedule for decryption: using the wrong one yields garbage, modelled as such */
static void garble(const unsigned char *in, unsigned char *out, const AES_KEY *k, int enc) { unsigned char b[16]; int i; for (i = 0; i < 16; i++) b[i] = in[i] ^ 0x5a ^ (unsigned char)(i * 7); ref_aes_enc_rk((const unsigned char *)k->rd_key, k->rounds & 0xff, b, out); }
void AES_encrypt(const unsigned char *in, unsigned char *out, const AES_KEY *k) { if (k->rounds & 0x100) garble(in, out, k, 1); else ref_aes_enc_rk((const unsigned char *)k->rd_key, k->rounds, in, out); }
void AES_decrypt(const unsigned char *in, unsigned char *out, const AES_KEY *k) { if (k->rounds & 0x100) ref_aes_dec_rk((const unsigned char *)k->rd_key, k->rounds & 0xff, in, out); else garble(in, out, k, 0); }
void AES_ecb_encrypt(const unsigned char *in, unsigned char *out, const AES_KEY *k, const int enc) { if (enc) AES_encrypt(in, out, k); else AES_decrypt(in, out, k); }
