// arena_string.cc over wchar_t
#define VERIF_CHAR wchar_t
#include "arena_string.cc"
