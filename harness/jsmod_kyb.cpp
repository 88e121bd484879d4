#define VERIF_JS_MODULE "kyb."
#include "jswrapper/jskybwrapper.cpp"
