// string.cc over wchar_t
#define VERIF_CHAR wchar_t
#include "string.cc"
