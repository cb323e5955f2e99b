#define DEBUG
#include extract.vc
