// The dilithium submodule (absent here) declares the same SHAKE functions as the library's own header.
#include <xmss-alt/fips202.h>
