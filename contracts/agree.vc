#define ERRTEXT
#include decoder.vc
