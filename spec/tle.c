/* Specification of the two-line element reader: the columns of the NORAD two-line format (first character of a line is
   column 0 here), their units after conversion, and the acceptance rules.
   C(name) is the value the library computes, S(name) the value it should be. */
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include "norad.h"

#define C(name) double code_##name
#define S(name) double spec_##name
#define PI_ 3.14159265358979323846
#define L const char *a, const char *b
/* value stored in field f by an accepted set */
#define F(name, f) C(name)(L) { tle_t t; int r = parse_elements(a, b, &t); return r >= 0 ? (double)t.f : 0.; }
/* value v of an accepted set; H: sets of type 'H' (state vectors) have no such field */
static int ok(L) { tle_t t; return parse_elements(a, b, &t) >= 0; }
#define V(name, v) S(name)(L) { tle_t t; return parse_elements(a, b, &t) >= 0 ? (double)(v) : 0.; }
#define FK(name, f) C(name)(L) { tle_t t; int r = parse_elements(a, b, &t); return r >= 0 && a[62] != 'H' ? (double)t.f : 0.; }
#define VK(name, v) S(name)(L) { tle_t t; return parse_elements(a, b, &t) >= 0 && a[62] != 'H' ? (double)(v) : 0.; }

/* ---- result: checksum problems are reported, not fatal; -4 or less when these are not the two lines of a set */
C(rc)(L) { tle_t t; return parse_elements(a, b, &t); }
S(rc)(L) {
   if (a[0] != '1' || b[0] != '2') return -104;
   int p = tle_checksum(a), q;
   if (p < 0) return p - 100;
   q = tle_checksum(b);
   if (q < 0) return q;
   if (a[62] == 'H') return 0;
   return (p > 0 ? 1 : 0) + (q > 0 ? 2 : 0);
}
/* ---- whole-number and decimal columns */
static double places8(const char *s) { return atoi(s) + atoi(s + 4) * 1e-8; }
F(epoch, epoch)
V(epoch, ({ int y = (a[18] >= '0' ? 10 * (a[18] - '0') : 0) + (a[19] - '0'); if (y < 57) y += 100;
   /* Julian date of 0 January of the year, plus the day of the year */
   2415019.5 + 365 * y + (y - 1) / 4 + places8(a + 20); }))
F(class, classification)
V(class, a[7])
F(type, ephemeris_type)
V(type, a[62])
static int num(const char *s, int n) { char d[16]; for (int i = 0; i < n; i++) d[i] = s[i]; d[n] = 0; return atoi(d); }
F(bulletin, bulletin_number)
V(bulletin, num(a + 64, 4))
F(revs, revolution_number)
V(revs, num(b + 63, 5))
FK(eo, eo)
VK(eo, atoi(b + 26) * 1e-7)
FK(xno, xno)
VK(xno, ({ char d[16]; for (int i = 0; i < 12; i++) d[i] = b[51 + i]; d[12] = 0; places8(d) * 2 * PI_ / 1440; }))
FK(xndt2o, xndt2o)
VK(xndt2o, (a[33] == '-' ? -1 : 1) * 1e-8 * atoi(a + 35) * 2 * PI_ / (1440. * 1440))
/* ---- angles: all digits of the column up to the next blank, in 1e-4 degree */
static double deg4(const char *s) {
   int v = 0, i = 0;
   while (s[i] == ' ') i++;
   for (; s[i] != ' '; i++) if (s[i] != '.') v = 10 * v + (s[i] - '0');
   return v * (PI_ / 1800000.); }
FK(xmo, xmo)
VK(xmo, deg4(b + 43))
FK(xnodeo, xnodeo)
VK(xnodeo, deg4(b + 17))
FK(omegao, omegao)
VK(omegao, deg4(b + 34))
FK(xincl, xincl)
VK(xincl, deg4(b + 8))
/* ---- sign, mantissa, signed power of ten */
static double expo(const char *s) {
   int m = atoi(s), e;
   if (s[1] == ' ' || m == 0) return 0;
   double v = m * 1e-5;
   e = s[7] - '0';
   if (e != 0) { if (s[6] == '-') while (e--) v *= .1; else while (e--) v *= 10; }
   return v; }
FK(xndd6o, xndd6o)
VK(xndd6o, expo(a + 44) * 2 * PI_ / (1440. * 1440. * 1440.))
FK(bstar, bstar)
VK(bstar, expo(a + 53))
/* ---- catalogue number: five digits, Alpha-5 (letter in front, I and O left out) or its extension to all columns */
static int digit34(char c) {
   if (c == ' ') return 0;
   if (c >= '0' && c <= '9') return c - '0';
   if (c < 'A' || c > 'Z' || c == 'I' || c == 'O') return -1;
   return 10 + (c - 'A') - (c > 'I') - (c > 'O'); }
static int number5(const char *s) {
   int d0 = digit34(s[0]), d1 = digit34(s[1]), d2 = digit34(s[2]), d3 = digit34(s[3]), d4 = digit34(s[4]);
   if (d0 < 0 || d1 < 0 || d2 < 0 || d3 < 0 || d4 < 0) return 0;
   if (d4 > 9) return 340000 + (((d0 * 34 + d1) * 34 + d2) * 34 + d3) * 24 + d4 - 10;
   if (d3 > 9) return 32412064 + ((d0 * 34 + d1) * 34 + d2) * 240 + (d3 - 10) * 10 + d4;
   if (d2 > 9) return 41845024 + (d0 * 34 + d1) * 2400 + (d2 - 10) * 100 + d3 * 10 + d4;
   if (d1 > 9) return 44619424 + d0 * 24000 + (d1 - 10) * 1000 + d2 * 100 + d3 * 10 + d4;
   return d0 * 10000 + atoi(s + 1); }
F(norad, norad_number)
V(norad, number5(a + 2))
/* the same, case by case: D(i) column i holds a digit, U(i, x, y) a letter from x to y */
#define D(i) (a[2 + (i)] >= '0' && a[2 + (i)] <= '9')
#define U(i, x, y) (a[2 + (i)] >= x && a[2 + (i)] <= y)
#define N(name, cond) \
   C(name)(L) { tle_t t; if (a[0] != '1' || b[0] != '2' || !(cond)) return 0; int r = parse_elements(a, b, &t); return r >= 0 ? (double)t.norad_number : 0.; } \
   S(name)(L) { tle_t t; if (a[0] != '1' || b[0] != '2' || !(cond)) return 0; int r = parse_elements(a, b, &t); return r >= 0 ? (double)number5(a + 2) : 0.; }
N(digits5, D(0) && D(1) && D(2) && D(3) && D(4))
N(letter0, D(1) && D(2) && D(3) && D(4))
N(letter1, D(0) && D(2) && D(3) && D(4))
N(letter2, D(0) && D(1) && D(3) && D(4))
N(letter3, D(0) && D(1) && D(2) && D(4))
N(letter4, D(0) && D(1) && D(2) && D(3))
N(letters12, D(0) && U(1, 'A', 'H') && U(2, 'P', 'Z') && D(3) && D(4))
N(letters13, D(0) && U(1, 'J', 'N') && D(2) && U(3, 'A', 'H') && D(4))
N(letters14, D(0) && U(1, 'P', 'Z') && D(2) && D(3) && U(4, 'J', 'N'))
N(letters23, D(0) && D(1) && U(2, 'A', 'H') && U(3, 'P', 'Z') && D(4))
N(letters24, D(0) && D(1) && U(2, 'J', 'N') && D(3) && U(4, 'A', 'H'))
N(letters34, D(0) && D(1) && D(2) && U(3, 'J', 'N') && U(4, 'P', 'Z'))
N(letters01, U(0, 'A', 'H') && U(1, 'J', 'N') && D(2) && D(3) && D(4))
N(letters02, U(0, 'J', 'N') && D(1) && U(2, 'A', 'H') && D(3) && D(4))
N(letters03, U(0, 'P', 'Z') && D(1) && D(2) && U(3, 'A', 'H') && D(4))
N(letters04, U(0, 'A', 'H') && D(1) && D(2) && D(3) && U(4, 'P', 'Z'))
/* ---- international designator: eight columns */
F(desig0, intl_desig[0])
V(desig0, a[9])
F(desig1, intl_desig[1])
V(desig1, a[10])
F(desig2, intl_desig[2])
V(desig2, a[11])
F(desig3, intl_desig[3])
V(desig3, a[12])
F(desig4, intl_desig[4])
V(desig4, a[13])
F(desig5, intl_desig[5])
V(desig5, a[14])
F(desig6, intl_desig[6])
V(desig6, a[15])
F(desig7, intl_desig[7])
V(desig7, a[16])
F(desig8, intl_desig[8])
V(desig8, 0)
