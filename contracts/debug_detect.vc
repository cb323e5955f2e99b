#define DEBUG
#include detect.vc
