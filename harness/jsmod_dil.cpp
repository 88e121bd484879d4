#define VERIF_JS_MODULE "dil."
#include "jswrapper/jsdilwrapper.cpp"
