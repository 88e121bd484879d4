#ifndef VERIF_KYB_API_H
#define VERIF_KYB_API_H
// Interface of the kyber submodule; implemented by an ideal functionality in the harness.
#ifndef KYBER_K
#define KYBER_K 3
#endif
#define KYBER_SYMBYTES 32
#define KYBER_PUBLICKEYBYTES 1088
#define KYBER_SECRETKEYBYTES 2400
#define KYBER_CIPHERTEXTBYTES 1152
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk);
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk);
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk);
#endif
