#include galois_head.vc
#include gf4.vc
#include gf8.vc
