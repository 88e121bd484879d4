#ifndef VERIF_RANDOMBYTES_H
#define VERIF_RANDOMBYTES_H
void randombytes(unsigned char *x, unsigned long long xlen);
#endif
