#ifdef __WCPL__
#include <ctype.h>
#else
static int R(int c, int a, int b){ return c >= a && c <= b; }
int isupper(int c){ return R(c, 65, 90); }
int islower(int c){ return R(c, 97, 122); }
int isalpha(int c){ return R(c, 65, 90) || R(c, 97, 122); }
int isdigit(int c){ return R(c, 48, 57); }
int isxdigit(int c){ return R(c, 48, 57) || R(c, 65, 70) || R(c, 97, 102); }
int isalnum(int c){ return isalpha(c) || isdigit(c); }
int isspace(int c){ return c == 32 || R(c, 9, 13); }
int isblank(int c){ return c == 32 || c == 9; }
int iscntrl(int c){ return R(c, 0, 31) || c == 127; }
int isprint(int c){ return R(c, 32, 126); }
int isgraph(int c){ return R(c, 33, 126); }
int ispunct(int c){ return isgraph(c) && !isalnum(c); }
int isascii(int c){ return R(c, 0, 127); }
int toupper(int c){ return islower(c) ? c - 32 : c; }
int tolower(int c){ return isupper(c) ? c + 32 : c; }
#endif
//@ val c=-1..255
int t_isupper(int c){ return isupper(c) != 0; }
//@ val c=-1..255
int t_islower(int c){ return islower(c) != 0; }
//@ val c=-1..255
int t_isalpha(int c){ return isalpha(c) != 0; }
//@ val c=-1..255
int t_isdigit(int c){ return isdigit(c) != 0; }
//@ val c=-1..255
int t_isxdigit(int c){ return isxdigit(c) != 0; }
//@ val c=-1..255
int t_isalnum(int c){ return isalnum(c) != 0; }
//@ val c=-1..255
int t_isspace(int c){ return isspace(c) != 0; }
//@ val c=-1..255
int t_isblank(int c){ return isblank(c) != 0; }
//@ val c=-1..255
int t_iscntrl(int c){ return iscntrl(c) != 0; }
//@ val c=-1..255
int t_isprint(int c){ return isprint(c) != 0; }
//@ val c=-1..255
int t_isgraph(int c){ return isgraph(c) != 0; }
//@ val c=-1..255
int t_ispunct(int c){ return ispunct(c) != 0; }
int t_isascii(int c){ return isascii(c) != 0; }
//@ val c=-1..255
int t_toupper(int c){ return toupper(c); }
//@ val c=-1..255
int t_tolower(int c){ return tolower(c); }
