// small complete files of each kind, a few digits arbitrary
#pragma once
#include "damage.h"
[[maybe_unused]] static bool third = false;
[[maybe_unused]] static size_t sp3(Txt &f) { // returns the end of the header
  f.line("#cP2016  3 13  0  0  0.00000000       2 ORBIT IGb08 HLM  IGS");
  f.line("## 1888      0.00000000   900.00000000 57460 0.0000000000000");
  f.line(third ? "+    3   G01R02E03  0  0  0  0  0  0  0  0  0  0  0  0  0  0" : "+    2   G01R02  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0");
  for (int i = 0; i < 4; i++) f.line("+          0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0");
  for (int i = 0; i < 5; i++) f.line("++         2  2  0  0  0  0  0  0  0  0  0  0  0  0  0  0  0");
  f.line("%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  f.line("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc");
  for (int i = 0; i < 2; i++) f.line("%f  1.2500000  1.025000000  0.00000000000  0.000000000000000");
  for (int i = 0; i < 2; i++) f.line("%i    0    0    0    0      0      0      0      0         0");
  f.line("/* comment");
  size_t h = f.n;
  f.line("*  2016  3 13  0  0  0.00000000");
  char *p = f.line("PG01  15402.861700  21607.418200  -1269.290900    -14.135600"); digs(p + 9, 2, "v");
  f.line("VG01  20298.880364 -18462.044804   1381.387685     -4.534317");
  f.line("PR02 -10402.861700  11607.418200 -11269.290900 999999.999999  7  6  4 137 EP  MP");
  f.line("*  2016  3 13  0 15  0.00000000");
  p = f.line("PG01  15402.861700  21607.418200  -1269.290900    114.135600"); digs(p + 57, 2, "v");
  f.line("PR02 -10402.861700  11607.418200 -11269.290900     24.135600");
  if (third) { f.line("*  2016  3 13  0 30  0.00000000"); f.line("PG01  15402.861700  21607.418200  -1269.290900    114.135600"); }
  f.line("EOF");
  return h;
}
[[maybe_unused]] static size_t nav(Txt &f) {
  f.line("     3.04           N: GNSS NAV DATA    M: MIXED            RINEX VERSION / TYPE");
  f.lab("a comment", "COMMENT"); f.lab("", "END OF HEADER");
  size_t h = f.n;
  char *p = f.line("G05 2020 01 06 02 00 00-7.123456789012D-05-1.250555214938D-12 0.000000000000D+00"); digs(p + 30, 2, "v");
  f.line("     8.700000000000D+01 9.765625000000D+00 4.821629409770D-09-2.126567543000D+00");
  f.line("     5.289912223816D-07 5.870314082131D-03 9.493902325630D-06 5.153677604675D+03");
  f.line("     8.640000000000D+04 1.452863216400D-07 1.172236265000D+00-1.490116119385D-08");
  f.line("     9.550452537830D-01 1.968750000000D+02 7.342567562000D-01-8.141767705090D-09");
  p = f.line("     1.650068731357D-10 1.000000000000D+00 2.087000000000D+03 0.000000000000D+00");
  f.line("     2.000000000000D+00 0.000000000000D+00-1.071020960808D-08 8.700000000000D+01");
  f.line("     8.559000000000D+04 4.000000000000D+00");
  p = f.line("R11 2020 01 06 02 15 00-1.234567890120D-05 0.000000000000D+00 9.450000000000D+04"); digs(p + 30, 2, "v");
  f.line("     1.234567890120D+04-1.234567890120D+00 9.313225746155D-10 0.000000000000D+00");
  f.line("     1.234567890120D+04-2.234567890120D+00 0.000000000000D+00 5.000000000000D+00");
  f.line("    -1.234567890120D+04-3.234567890120D+00 1.862645149231D-09 0.000000000000D+00");
  return h;
}
[[maybe_unused]] static size_t obs(Txt &f) {
  f.line("     3.04           OBSERVATION DATA    M (MIXED)           RINEX VERSION / TYPE");
  f.lab("DYNG", "MARKER NAME"); f.lab("5218K84761          TRIMBLE NETR9       5.45", "REC # / TYPE / VERS");
  f.lab("1441112501          TRM59900.00     SCIS", "ANT # / TYPE"); f.lab("  4595219.9670  2039453.0690  3912626.7850", "APPROX POSITION XYZ");
  f.lab("        0.1000        0.0200        0.0030", "ANTENNA: DELTA H/E/N"); f.lab("     1", "RCV CLOCK OFFS APPL"); f.lab("  2020    01    06    00    00    0.0000000     GPS", "TIME OF FIRST OBS");
  f.lab(third ? "G    2 C1C L1C" : "G    3 C1C L1C S1C", "SYS / # / OBS TYPES"); f.lab("R    2 C1P L1P", "SYS / # / OBS TYPES");
  f.lab("", "END OF HEADER");
  size_t h = f.n;
  f.line("> 2020 01 06 00 00  0.0000000  0  2");
  char *p = f.line("G05  20123456.789 7 105123456.78907        45.250  "); digs(p + 14, 2, "v");
  f.line("R11  21123456.125 7 115123456.25008");
  f.line("> 2020 01 06 00 00 30.0000000  0  1");
  p = f.line("G06  22123456.500    95123456.375 7        35.500  "); digs(p + 14, 2, "v");
  return h;
}
[[maybe_unused]] static size_t bern(Txt &f) {
  f.line("SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2"); f.line("PART 2: ON-BOARD SENSORS"); f.line("------------------------");
  f.line("                                              START TIME           END TIME                 SENSOR OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)");
  f.line("PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>");
  f.line("");
  size_t h = f.n;
  for (int i = 0; i < 2; i++) {
    char *p = f.line("", 205);
    put(p, "101  MW    GLONASS-M        701      1   2003 12 10 00 00 00  2005 06 30 23 59 59"); if (i) put(p + 28, "712");
    put(p + 88, "-0.5450    0.0000    2.2900   0.00000 0.00000 1.00000    0.00000 1.00000 0.00000      GLONASS-M");
    digs(p + 195, 1, "chan"); put(p + 199, "L1 L2");
  }
  return h;
}
[[maybe_unused]] static size_t atx(Txt &f) {
  f.lab("     1.4            M", "ANTEX VERSION / SYST"); f.lab("A", "PCV TYPE / REFANT"); f.lab("", "END OF HEADER");
  size_t h = f.n;
  for (int i = 0; i < 2; i++) {
    f.lab("", "START OF ANTENNA");
    f.lab(i ? "TRM59900.00     SCIS" : "BLOCK IIA           G05                 G035      1993-054A", "TYPE / SERIAL NO");
    f.lab("ROBOT               Geo++ GmbH              1    09-AUG-07", "METH / BY / # / DATE");
    f.lab("     0.0", "DAZI"); f.lab("     0.0  10.0   5.0", "ZEN1 / ZEN2 / DZEN"); f.lab(i ? "     2" : "     1", "# OF FREQUENCIES");
    if (!i) f.lab("  1993     8    30     0     0    0.0000000", "VALID FROM"), f.lab("  2022     8    30    23    59   59.0000000", "VALID UNTIL"), f.lab("IGS14_2000", "SINEX CODE"), f.lab("a comment", "COMMENT");
    f.lab("   G01", "START OF FREQUENCY");
    char *p = f.lab("      0.25      1.50     59.75", "NORTH / EAST / UP"); digs(p + 28, 2, "v");
    f.line("   NOAZI    0.00   -0.01   -0.04");
    f.lab("   G01", "END OF FREQUENCY");
    if (i) {
      f.lab("   R01", "START OF FREQUENCY"); f.lab("      0.75      2.50     69.25", "NORTH / EAST / UP");
      f.line("   NOAZI    0.00   -0.03   -0.06"); f.lab("   R01", "END OF FREQUENCY");
    }
    f.lab("", "END OF ANTENNA");
  }
  return h;
}
