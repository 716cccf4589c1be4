/* Specification of the line checksum: the digits of columns 1 to 68, '-' counting one, modulo 10, against column 69. */
#include "norad.h"
#define C(name) double code_##name
#define S(name) double spec_##name
C(sum)(const char *s) { return tle_checksum(s); }
S(sum)(const char *s) {
   int i, t = 0;
   if ((s[0] != '1' && s[0] != '2') || s[1] != ' ') return -1;
   for (i = 0; i < 68; i++) {
      if (s[i] < ' ' || s[i] > 'z') return -2;
      if (s[i] == '-') t += 1;
      if (s[i] >= '1' && s[i] <= '9') t += s[i] - '0';
   }
   if (s[69] > ' ') return -3;
   t -= s[68] - '0';
   t %= 10;
   return t < 0 ? t + 10 : t;
}
