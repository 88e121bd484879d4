#define VERIF_JS_MODULE "qrl."
#include "jswrapper/jsqrlwrapper.cpp"
