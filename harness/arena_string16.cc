// arena_string.cc over char16_t
#define VERIF_CHAR char16_t
#include "arena_string.cc"
