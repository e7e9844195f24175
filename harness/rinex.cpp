// DORIS RINEX: header, data records, epochs, observation codes, relative frequency offset fits.
#define VS_FSTREAM_DISTINCT
#include "vs.h"
#include <cerrno>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <numeric>
#include <stdexcept>
#include <cassert>
#include "eigen3/Eigen/Eigen"
#include "datetime/dtcalendar.hpp"
#include "datetime/datetime_read.hpp"
#include "datetime/datetime_write.hpp"
#include <fstream>
#define private public
#include "doris_rinex.hpp"
#undef private
#include "doris/doris_system_info.cpp"
#include "rinex/doris_rinex.cpp"
#include "rinex/read_rnx_header.cpp"
#include "rinex/rnx_datablock_iterator.cpp"
#include "rinex/fit_rfo.cpp"
#include "doris/fit_rfo.cpp"
struct Ndop { char id[4]; double a[4]; };
static Ndop ndop[64];
static int nndop;
static void ndop_rec(const char *id, double t, double a, double b, double s) { if (nndop < 64) { std::memcpy(ndop[nndop].id, id, 3); ndop[nndop].a[0] = t; ndop[nndop].a[1] = a; ndop[nndop].a[2] = b; ndop[nndop].a[3] = s; } ++nndop; }
template <class... A> static void ndop_out(const char *, A... a) { if constexpr (sizeof...(A) == 5) ndop_rec(a...); }
#define printf ndop_out
#include "doris/extract_doppler_count.cpp"
#undef printf
using namespace dso;
typedef dso::datetime<dso::nanoseconds> T9;
static const double MISS = OBSERVATION_VALUE_MISSING;

static char pool[2][1 << 13];
static char *buf = pool[0];
static int len, bol;
static void ch(char c) { buf[len++] = c; if (c == '\n') bol = len; }
static void put(const char *s) { while (*s) ch(*s++); }
static void pad(int col) { while (len - bol < col) ch(' '); }
static double tok(int w, int p, const char *n, double lo, double hi) { double v = vs_numtok(buf + len, w, p, 'f', n, lo, hi); len += w; return v; }
static void lab(const char *s) { pad(60); put(s); ch('\n'); }
static char sym(const char *n, const char *set) { char c = vs_char(n, set); ch(c); return c; }

static const char *CODES[10] = {"L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H"};
static const ObservationType TYPES[10] = {ObservationType::phase, ObservationType::phase, ObservationType::pseudorange, ObservationType::pseudorange, ObservationType::power_level, ObservationType::power_level, ObservationType::frequency_offset, ObservationType::ground_pressure, ObservationType::ground_temperature, ObservationType::ground_humidity};
static const int FREQS[10] = {1, 2, 1, 2, 1, 2, 0, 0, 0, 0};
struct Conf { int nobs, rot, scale, nsta, applied; int sf[10]; char id[4][3], st[4][4]; int k[4]; double l21; };

static void obs_types(const Conf &c) {
  put("D"); put(c.nobs == 10 ? "   10" : "    "); if (c.nobs < 10) ch((char)('0' + c.nobs));
  for (int i = 0; i < c.nobs; i++) { pad(7 + 4 * i); put(CODES[(i + c.rot) % 10]); }
  lab("SYS / # / OBS TYPES");
}
// scale: 0 absent, 1 one record for all (blank), 2 one record for the first code, 3 two records with different factors, 4 explicit ones
static void scales(Conf &c) {
  for (int i = 0; i < 10; i++) c.sf[i] = 1;
  if (c.scale == 1) { put("D  100"); lab("SYS / SCALE FACTOR"); for (int i = 0; i < c.nobs; i++) c.sf[i] = 100; }
  else if (c.scale == 2 || c.scale == 3) {
    put("D   10   1"); pad(11); put(CODES[c.rot % 10]); lab("SYS / SCALE FACTOR"); c.sf[0] = 10;
    if (c.scale == 3 && c.nobs > 1) { put("D 1000   1"); pad(11); put(CODES[(c.nobs - 1 + c.rot) % 10]); lab("SYS / SCALE FACTOR"); c.sf[c.nobs - 1] = 1000; }
  } else if (c.scale == 4) { put("D    1"); lab("SYS / SCALE FACTOR"); }
  else if (c.scale == 5) { // one record naming every code, last one first
    put("D  100  "); put(c.nobs == 10 ? "10" : " "); if (c.nobs < 10) ch((char)('0' + c.nobs));
    for (int i = 0; i < c.nobs; i++) { pad(11 + 4 * i); put(CODES[(c.nobs - 1 - i + c.rot) % 10]); c.sf[i] = 100; }
    lab("SYS / SCALE FACTOR");
  } else if (c.scale == 6) { // one for all, then another for the last two
    put("D   10"); lab("SYS / SCALE FACTOR"); for (int i = 0; i < c.nobs; i++) c.sf[i] = 10;
    if (c.nobs > 2) {
      put("D  500   2");
      for (int i = 0; i < 2; i++) { pad(11 + 4 * i); put(CODES[(c.nobs - 2 + i + c.rot) % 10]); c.sf[c.nobs - 2 + i] = 500; }
      lab("SYS / SCALE FACTOR");
    }
  }
}
static void head_first() {
  len = bol = 0;
  put("     3.00"); pad(20); put("O"); pad(40); put("D"); lab("RINEX VERSION / TYPE");
  put("PROG"); pad(20); put("AGENCY"); pad(40); put("20200101 000000 UTC"); lab("PGM / RUN BY / DATE");
}
static void station(Conf &c, int i, int symb) {
  if (symb == 2) { // codes that differ in one place each
    static const char *ID[3] = {"D01", "D11", "D12"}, *ST[3] = {"DIAA", "DIAB", "XIAB"};
    std::memcpy(c.id[i], ID[i], 3); std::memcpy(c.st[i], ST[i], 4); c.k[i] = vs_char("kd", "0123456789") - '0';
    for (int j = 0; j < 3; j++) ch(ID[i][j]);
    pad(5); put(ST[i]); pad(10); put("NAME"); pad(40); put("12602S011"); pad(50); put("3");
    pad(53); ch((char)('0' + c.k[i]));
    lab("STATION REFERENCE");
    return;
  }
  if (symb) { c.id[i][0] = 'D'; ch('D'); c.id[i][1] = sym("id", "0123"); }
  else { c.id[i][0] = 'D'; ch('D'); c.id[i][1] = '0'; ch('0'); }
  c.id[i][2] = (char)('1' + i); ch((char)('1' + i));
  pad(5);
  if (symb) { c.st[i][0] = sym("st", "ABCDEZ"); c.st[i][1] = sym("st", "ABCDEZ"); c.st[i][2] = 'X'; ch('X'); }
  else { c.st[i][0] = 'D'; ch('D'); c.st[i][1] = 'I'; ch('I'); c.st[i][2] = (char)('A' + i); ch((char)('A' + i)); }
  c.st[i][3] = (char)('A' + i); ch((char)('A' + i));
  pad(10); put("STATION NAME"); pad(40); put("12602S011"); pad(50); put("3");
  pad(52);
  if (symb) { char s = sym("ks", " -"), d = sym("kd", "0123456789"); c.k[i] = (s == '-' ? -1 : 1) * (d - '0'); }
  else { put(" 5"); c.k[i] = 5; }
  lab("STATION REFERENCE");
}
static void header(Conf &c, int symb) {
  head_first();
  put("JASON-3"); lab("SATELLITE NAME");
  put("2016-002A"); lab("COSPAR NUMBER");
  put("SPACEBORNE"); lab("MARKER TYPE");
  put("CHAIN1"); pad(20); put("DGXX"); pad(40); put("1.00"); lab("REC # / TYPE / VERS");
  put("DORIS"); pad(20); put("STAREC"); lab("ANT # / TYPE");
  obs_types(c);
  scales(c);
  put("  2020    01    01    01    41   53.2799478     DOR"); lab("TIME OF FIRST OBS");
  put("D"); pad(3); c.l21 = symb ? tok(14, 3, "l21", -9000, 9000) : (put("         2.500"), 2.5); lab("L2 / L1 DATE OFFSET");
  ch((char)('0' + c.nsta)); lab("# OF STATIONS");
  for (int i = 0; i < c.nsta; i++) station(c, i, symb);
  if (c.applied >= 0) { ch((char)('0' + c.applied)); lab("RCV CLOCK OFFS APPL"); }
  put("  2020    01    01    00    00    0.000000      "); lab("TIME REF STAT DATE");
  lab("END OF HEADER");
}
// one data record: epoch line (start second s0 with symbolic digits)
static long epoch_ns;
static const char D10[] = "0123456789";
static double epoch_line(int nsta, int clk, int symb, int hh, char s0) {
  put("> 2020 01 01 "); ch((char)('0' + hh / 10)); ch((char)('0' + hh % 10)); put(hh == 23 ? " 59 5" : " 41 5");
  long ns = 0;
  if (symb) { char a = sym("sd", D10), b = sym("nd", D10); len -= 1; ch('.'); ch(b); put("7994780"); ch(sym("ne", D10)); // sec 5a.b7994780e
    ns = 50000000000L + (a - '0') * 1000000000L + (b - '0') * 100000000L + 79947800L + (buf[len - 1] - '0');
  } else { ch(s0); put(".279947800"); ns = 50000000000L + (s0 - '0') * 1000000000L + 279947800L; }
  epoch_ns = ((hh * 60L + (hh == 23 ? 59 : 41)) * 60L) * 1000000000L + ns;
  pad(33); ch('0');
  pad(36); ch((char)('0' + nsta));
  double off = MISS;
  pad(43);
  if (clk == 1) off = tok(13, 9, "clk", -100, 100);
  else if (clk == 2) { put("  0.000000000"); off = 0; }
  else if (clk == 3) { put("  1.500000000"); off = 1.5; }
  pad(57); ch('0'); pad(59); ch('\n');
  return off;
}
struct Fld { int kind; double v; char f1, f2; }; // kind 0 value 1 blank 2 zero
// trim: trailing blanks of every line removed
static void trim_line(int trim) { if (trim) while (len > bol && buf[len - 1] == ' ') --len; ch('\n'); }
static void beacon(const Conf &c, int s, Fld *f, int trim) {
  for (int i = 0; i < c.nobs; i++) {
    if (i % 5 == 0) { if (i) trim_line(trim); if (i) put("   "); else for (int k = 0; k < 3; k++) ch(c.id[s][k]); }
    f[i].f1 = f[i].f2 = ' ';
    if (f[i].kind == 0) { f[i].v = i % 3 == 1 ? tok(14, 3, "obs", -9e8, -0.001) : tok(14, 3, "obs", 0.001, 9e8); f[i].f1 = (char)('0' + i % 3); ch(f[i].f1); f[i].f2 = (char)('7' - i % 3); ch(f[i].f2); }
    else if (f[i].kind == 1) put("                ");
    else { put("         0.000"); put("  "); }
  }
  trim_line(trim);
}
static void check(const Conf &c, int s, const Fld *f, const BeaconObservations &b) {
  vs_assert(b.m_beacon_id[0] == c.id[s][0] && b.m_beacon_id[1] == c.id[s][1] && b.m_beacon_id[2] == c.id[s][2], "observations belong to the beacon of the record");
  vs_assert((int)b.m_values.size() == c.nobs, "one value per observation code");
  for (int i = 0; i < c.nobs; i++) {
    if (f[i].kind) vs_same(b.m_values[i].m_value, MISS, "an omitted observation is marked missing");
    else {
      vs_close(b.m_values[i].m_value, f[i].v / c.sf[i], 0, "observation is the recorded value over its scale factor");
      vs_assert(b.m_values[i].m_flag1 == f[i].f1 && b.m_values[i].m_flag2 == f[i].f2, "flags of the observation");
    }
  }
}
static void conf(Conf &c, int nobs, int rot, int scale, int nsta, int applied) { c.nobs = nobs; c.rot = rot; c.scale = scale; c.nsta = nsta; c.applied = applied; }

// data blocks: every observation at its own place, scaled, omitted ones marked
HARNESS(h_data) {
  Conf c;
  static const int NO[4] = {1, 5, 6, 10};
  int nobs = VS_THOROUGH ? vs_choice("nobs", 10) + 1 : NO[vs_choice("nobs", 4)], sc = vs_choice("scale", 4);
  conf(c, nobs, (VS_THOROUGH ? vs_choice("rot", 2) : sc % 2) * 4, sc, 2, -1);
  header(c, 0);
  int trim = vs_choice("trim", 2), which = vs_choice("which", nobs + 1), kind = vs_choice("kind", 2) + 1, nrec = vs_choice("nrec", 2) + 1;
  Fld f[2][2][10];
  long ep[2];
  for (int e = 0; e < 2; e++) {
    int n = e == 0 ? nrec : 1;
    epoch_line(n, 2, 0, 1 + e, '3');
    ep[e] = epoch_ns;
    for (int s = 0; s < n; s++) {
      for (int i = 0; i < nobs; i++) f[e][s][i].kind = (i >= which && e == 0 && s == n - 1) ? (i == which || (i + 1 == nobs && kind == 1) ? kind : 0) : 0;
      beacon(c, s, f[e][s], trim);
    }
  }
  DorisObsRinex r(vs_file("d.rnx", buf, len));
  RinexDataBlockIterator it(&r);
  for (int e = 0; e < 2; e++) {
    int n = e == 0 ? nrec : 1;
    vs_assert(it.next() == 0, "a data record is read");
    vs_assert(it.cheader.m_epoch.mjd().as_underlying_type() == 58849 && it.cheader.m_epoch.sec().as_underlying_type() == ep[e], "epoch of the record");
    vs_assert(it.cheader.m_num_stations == n && (int)it.cblock.size() == n, "number of stations of the record");
    for (int s = 0; s < n && s < (int)it.cblock.size(); s++) check(c, s, f[e][s], it.cblock[s]);
  }
  vs_assert(it.next() == -1, "end of file after the last record");
  vs_reach("end");
}
// a record cut anywhere is never reported as success
HARNESS(h_cut) {
  Conf c;
  conf(c, vs_choice("nobs", 2) ? 6 : 3, 0, 0, 2, -1);
  header(c, 0);
  Fld f[2][10];
  epoch_line(2, 2, 0, 1, '3');
  int l0 = len, ends[6], ne = 0;
  for (int s = 0; s < 2; s++) {
    for (int i = 0; i < c.nobs; i++) f[s][i].kind = 0;
    beacon(c, s, f[s], 0);
  }
  for (int i = l0; i < len; i++) if (buf[i] == '\n' && ne < 6) ends[ne++] = i + 1;
  // cut after k complete lines, or one character of the beacon code
  int k = vs_choice("k", ne), part = vs_choice("part", 2), cut = (k ? ends[k - 1] : l0) + part;
  DorisObsRinex r(vs_file("t.rnx", buf, cut));
  RinexDataBlockIterator it(&r);
  if (part == 0) vs_assert(it.next() > 0, "a truncated record is an error");
  vs_reach("end");
}
// epoch line: flag, station count, optional clock offset, trimmed or not
HARNESS(h_epoch) {
  Conf c;
  conf(c, 1, 6, 0, 1, vs_choice("applied", 3) - 1);
  header(c, 0);
  int clk = vs_choice("clk", 3), trim = vs_choice("trim", 2), ns = vs_choice("ns", 3);
  char *l = buf + len; int l0 = len;
  double off = epoch_line(1, clk, clk != 1, clk == 1 && vs_choice("late", 2) ? 23 : 13, '5');
  l[34] = ns == 2 ? '1' : ' '; l[35] = ns == 2 ? '0' : ns == 1 ? '1' : ' '; l[36] = ns == 2 ? '0' : ns == 1 ? '2' : '1';
  l[33] = vs_char("flag", "0123456789");
  l[31] = l[32] = ' ';
  char cf = vs_char("cflag", "01");
  l[57] = cf;
  if (clk == 0 && trim) { l[57] = ' '; cf = '0'; }
  int n = len - l0 - 1;
  if (trim) while (l[n - 1] == ' ') --n;
  static char line[256];
  for (int i = 0; i < 200; i++) line[i] = '7';
  for (int i = 0; i < n; i++) line[i] = l[i];
  line[n] = 0;
  len = l0;
  DorisObsRinex r(vs_file("e.rnx", buf, len));
  RinexDataBlockIterator it(&r);
  vs_assert(r.resolve_data_epoch(line, it.cheader) == 0, "a well-formed epoch line is accepted");
  const RinexDataRecordHeader &h = it.cheader;
  vs_assert(h.m_epoch.mjd().as_underlying_type() == 58849 && h.m_epoch.sec().as_underlying_type() == epoch_ns, "epoch");
  vs_assert(h.m_flag == l[33] - '0', "epoch flag");
  vs_assert(h.m_num_stations == (ns == 0 ? 1 : ns == 1 ? 12 : 100), "number of stations");
  if (clk) vs_same(h.m_clock_offset, off, "receiver clock offset is the recorded one");
  else vs_same(h.m_clock_offset, RECEIVER_CLOCK_OFFSET_MISSING, "an absent clock offset is marked missing");
  vs_assert(h.m_clock_flag == cf - '0', "clock flag");
  vs_assert(r.receiver_clock_offsets_applied() == (c.applied == 1), "whether offsets are applied already");
  vs_assert(it.proper_time() == h.m_epoch, "proper time is the recorded epoch");
  double want = c.applied == 1 || clk == 0 ? 0 : off * 1e9;
  T9 t2, t1 = it.corrected_l1_epoch(), t1b = it.corrected_l1_epoch(t2);
  double d1 = (double)t1.delta_sec(h.m_epoch).as_underlying_type();
  vs_close(d1, want, 1, "corrected epoch is the recorded one plus the clock offset unless already applied or missing");
  vs_assert(t1 == t1b, "both forms of the corrected epoch agree");
  vs_assert(t2.delta_sec(t1).as_underlying_type() == 2500, "the second carrier epoch lags by the recorded offset");
  vs_reach("end");
}
HARNESS(h_epoch_bad) {
  Conf c;
  conf(c, 1, 6, 0, 1, -1);
  header(c, 0);
  DorisObsRinex r(vs_file("b.rnx", buf, len));
  len = bol = 0;
  int k = vs_choice("kind", 6);
  epoch_line(1, 1, 0, 13, '0');
  buf[len - 1] = 0;
  if (k == 0) buf[0] = vs_char("first", " D2<");
  else if (k == 1) buf[2] = 'x';
  else if (k == 2) buf[33] = vs_char("flag", " x-");
  else if (k == 3) buf[36] = vs_char("ns", " x-");
  else if (k == 4) for (int i = 43; i < 56; i++) buf[i] = 'x';
  else buf[vs_choice("cut", 37)] = 0;
  RinexDataRecordHeader h;
  static char line[256];
  for (int i = 0; i < 200; i++) line[i] = '7';
  for (int i = 0; i <= 60; i++) { line[i] = buf[i]; if (!buf[i]) break; }
  vs_assert(r.resolve_data_epoch(line, h) != 0, "a malformed epoch line is refused");
  vs_reach("end");
}
// header contents
HARNESS(h_head) {
  Conf c;
  int mix = vs_choice("mix", 3), m2 = VS_THOROUGH ? vs_choice("mix2", 3) : mix;
  conf(c, vs_choice("nobs", 10) + 1, vs_choice("rot", 3) * 3, vs_choice("scale", 7), mix + 1, m2 - 1);
  errno = mix == 1 ? 0 : 2;
  header(c, 1);
  DorisObsRinex r(vs_file("h.rnx", buf, len));
  vs_assert((int)r.observation_codes().size() == c.nobs, "number of observation codes");
  for (int i = 0; i < c.nobs && i < (int)r.observation_codes().size(); i++) {
    int k = (i + c.rot) % 10;
    const ObservationCode &o = r.observation_codes()[i];
    vs_assert(o.type() == TYPES[k] && o.m_freq == FREQS[k], "observation codes in file order");
    vs_assert(r.get_observation_code_index(ObservationCode(TYPES[k], FREQS[k])) == i, "index of an observation code");
    vs_assert((int)r.m_obs_scale_factors.size() == c.nobs && r.m_obs_scale_factors[i] == c.sf[i], "scale factors");
  }
  for (int k = 0; k < 10; k++) {
    bool in = false;
    for (int i = 0; i < c.nobs; i++) in |= (i + c.rot) % 10 == k;
    if (!in) vs_assert(r.get_observation_code_index(ObservationCode(TYPES[k], FREQS[k])) == -1, "index of an absent code");
  }
  vs_assert((int)r.stations().size() == c.nsta, "number of stations");
  for (int i = 0; i < c.nsta && i < (int)r.stations().size(); i++) {
    const BeaconStation &b = r.stations()[i];
    vs_assert(!std::memcmp(b.m_internal_code, c.id[i], 3) && !std::memcmp(b.m_station_id, c.st[i], 4), "station codes");
    vs_assert(!std::strcmp(b.m_station_name, "STATION NAME") && !std::strcmp(b.m_station_domes, "12602S011"), "station name and number without trailing blanks");
    vs_assert(b.m_type == 3 && b.m_shift_factor == c.k[i], "station type and shift factor");
  }
  vs_assert(r.ref_datetime().mjd().as_underlying_type() == 58849 && r.ref_datetime().sec().as_underlying_type() == 0, "time of reference");
  vs_assert(r.time_of_first_obs().mjd().as_underlying_type() == 58849 && r.time_of_first_obs().sec().as_underlying_type() == 6113L * 1000000000L + 279947800L, "time of first observation");
  vs_close((double)r.l21_date_offset().as_underlying_type(), c.l21 * 1e3, 1, "L2/L1 date offset in nanoseconds");
  vs_assert(r.receiver_clock_offsets_applied() == (c.applied == 1), "receiver clock offsets applied");
  vs_assert(r.m_lines_per_beacon == (c.nobs + 4) / 5, "lines per beacon");
  vs_assert(!std::strcmp(r.m_satellite_name, "JASON-3") && !std::strcmp(r.m_cospar_number, "2016-002A") && !std::strcmp(r.m_rec_chain, "CHAIN1") && !std::strcmp(r.m_rec_type, "DGXX") && !std::strcmp(r.m_rec_version, "1.00"), "satellite and receiver names");
  vs_reach("end");
}
// more stations than ten, time reference stations, header records in any order and of other kinds
HARNESS(h_many) {
  Conf c;
  int n = 9 + vs_choice("stations", 4), nref = vs_choice("ref", 3), bad = vs_choice("unknown", 3), first = vs_choice("types_last", 2);
  conf(c, 2, 0, vs_choice("scale", 2), n, -1);
  char k[12];
  double b = 0, sh = 0;
  head_first();
  put("a comment of the producer"); lab("COMMENT");
  if (!first) { obs_types(c); scales(c); }
  put(n < 10 ? "     9" : "    1"); if (n > 9) ch((char)('0' + n - 10)); lab("# OF STATIONS");
  for (int i = 0; i < n; i++) {
    ch('D'); ch((char)('0' + (i + 1) / 10)); ch((char)('0' + (i + 1) % 10)); pad(5); put("S"); ch((char)('A' + i)); put("XB");
    pad(10); put("NAME"); pad(40); put("12602S011"); pad(50); put("4"); pad(52);
    k[i] = i % 5 == 3 ? vs_char("kd", "0123456789") : (char)('0' + i % 10); ch(' '); ch(k[i]); lab("STATION REFERENCE");
  }
  if (nref) {
    ch((char)('0' + nref)); lab("# TIME REF STATIONS");
    for (int i = 0; i < nref; i++) {
      bool u = bad && i == nref - 1;
      put(u ? (bad == 1 ? "D00" : "E01") : i ? "D01" : "D09"); pad(5); b = tok(14, 3, "bias", -900, 900); sh = tok(14, 3, "shift", -900, 900); lab("TIME REF STATION");
    }
  }
  if (first) { obs_types(c); scales(c); }
  lab("END OF HEADER");
  int thrown = 0;
  try {
    DorisObsRinex r(vs_file("m.rnx", buf, len));
    vs_assert((int)r.stations().size() == n, "number of stations");
    for (int i = 0; i < n && i < (int)r.stations().size(); i++) {
      const BeaconStation &s = r.stations()[i];
      vs_assert(s.m_internal_code[0] == 'D' && s.m_internal_code[1] == '0' + (i + 1) / 10 && s.m_internal_code[2] == '0' + (i + 1) % 10 && s.m_station_id[1] == 'A' + i, "station codes");
      vs_assert(s.m_type == 4 && s.m_shift_factor == k[i] - '0', "station type and shift factor");
    }
    vs_assert((int)r.m_ref_stations.size() == nref, "number of time reference stations");
    if (nref && (int)r.m_ref_stations.size() == nref) {
      vs_assert(!std::memcmp(r.m_ref_stations[nref - 1].m_station_code, nref == 2 ? "D01" : "D09", 3), "time reference station");
      vs_close(r.m_ref_stations[nref - 1].m_bias, b, 1e-9, "bias of a time reference station");
      vs_close(r.m_ref_stations[nref - 1].m_shift, sh, 1e-9, "shift of a time reference station");
    }
    for (int i = 0; i < 2; i++) vs_assert(r.m_obs_scale_factors[i] == c.sf[i], "scale factors");
  } catch (std::exception &) { thrown = 1; }
  vs_assert(thrown == (nref && bad != 0), "a header is refused exactly when a time reference station is not among its stations");
  vs_reach("end");
}
// beacon look-ups
HARNESS(h_lookup) {
  Conf c;
  conf(c, 1, 6, 0, 3, -1);
  header(c, 2);
  DorisObsRinex r(vs_file("l.rnx", buf, len));
  if (vs_choice("which", 2)) {
    char q[5];
    q[0] = vs_char("q", "DE"); q[1] = vs_char("q", "012"); q[2] = vs_char("q", "123"); q[3] = 'z'; q[4] = 0;
    int want = -1;
    for (int i = 2; i >= 0; i--) if (q[0] == 'D' && q[1] == c.id[i][1] && q[2] == c.id[i][2]) want = i;
    want = vs_concretize(want);
    const char *p = r.beacon_internal_id2id(q);
    int k = -99;
    int rc = r.beacon_shift_factor(q, k);
    auto it = r.beacon_internal_id2BeaconStation(q);
    if (want < 0) {
      vs_assert(!p && rc != 0 && it == r.stations().end(), "an unknown beacon is not found");
    } else {
      vs_assert(p && !std::memcmp(p, c.st[want], 4), "internal code to identifier");
      vs_assert(rc == 0 && k == c.k[want], "shift factor of the beacon");
      vs_assert(it - r.stations().begin() == want, "station of the beacon");
    }
  } else {
    char s[5] = {vs_char("s", "DX"), vs_char("s", "IJ"), vs_char("s", "AB"), vs_char("s", "ABC"), 0};
    int w2 = -1;
    for (int i = 2; i >= 0; i--) if (s[0] == c.st[i][0] && s[1] == c.st[i][1] && s[2] == c.st[i][2] && s[3] == c.st[i][3]) w2 = i;
    w2 = vs_concretize(w2);
    const char *p2 = r.beacon_id2internal_id(s);
    vs_assert(w2 < 0 ? !p2 : (p2 && !std::memcmp(p2, c.id[w2], 3)), "identifier to internal code");
  }
  vs_reach("end");
}
// observation types and codes
HARNESS(h_codes) {
  static const char T[8] = "LCWFPTH";
  char c = vs_char("c", "LCWFPTHlAXD1 ");
  int fr = vs_int("freq", -3, 5), i = -1;
  for (int k = 0; k < 7; k++) if (c == T[k]) i = k;
  i = vs_concretize(i);
  int bad = 0, badc = 0;
  ObservationType t = ObservationType::phase;
  try { t = char_to_observationType(c); } catch (std::exception &) { bad = 1; }
  vs_assert(bad == (i < 0), "unknown observation letters are refused, the others accepted");
  if (i < 0) vs_stop();
  vs_assert(ObservationType_to_char(t) == T[i], "letter of an observation type");
  bool need = i < 3;
  vs_assert(observationType_has_frequency(t) == need, "phase, range and power carry a frequency, the others do not");
  int_fast8_t got = -9; bool hf = false, eq = false, ne = true;
  char sb[8] = "zzzzzzz", txt0 = 0, txt1 = 0, txt2 = 'z';
  try {
    ObservationCode o(t, (int_fast8_t)fr);
    got = o.m_freq; hf = o.has_frequency();
    eq = o == ObservationCode(t, need ? 1 : 0); ne = o != ObservationCode(t, need ? 1 : 0);
    vs_assert(o.type() == t, "type of the code");
  } catch (std::exception &) { badc = 1; }
  vs_assert(badc == (need && (fr < 1 || fr > 2)), "frequency numbers other than 1 and 2 are refused where one is needed");
  if (badc) vs_stop();
  vs_assert(got == (need ? fr : 0) && hf == need, "frequency number of the code, zero where none applies");
  vs_assert(eq == (need ? fr == 1 : true) && ne == !eq, "codes compare by type and frequency");
  vs_reach("end");
}
// antenna type and combined phase centre of a beacon
HARNESS(h_pco) {
  BeaconStation b;
  std::memcpy(b.m_station_id, "DIAZ", 4);
  char c = vs_char("c", "ABCDZac");
  b.m_station_id[3] = c;
  int bad = 0; GroundAntennaType t = GroundAntennaType::Alcatel;
  try { t = b.type(); } catch (std::exception &) { bad = 1; }
  vs_assert(bad == !(c == 'A' || c == 'B' || c == 'C'), "unknown antenna letters are refused, the others accepted");
  if (bad) vs_stop();
  vs_assert(t == (c == 'A' ? GroundAntennaType::Alcatel : c == 'B' ? GroundAntennaType::Starec_B : GroundAntennaType::Starec_C), "antenna type");
  auto p = b.iono_free_phase_center();
  double f1 = 2.03625e9, f2 = 401.25e6, g = (f1 / f2) * (f1 / f2);
  double u1 = c == 'A' ? 0.510 : 0.487, u2 = c == 'A' ? 0.335 : 0;
  vs_close(p(0), 0, 0, "phase centre on the axis");
  vs_close(p(1), 0, 0, "phase centre on the axis");
  vs_close(p(2), u1 + (u1 - u2) / (g - 1), 1e-9, "ionosphere-free phase centre height");
  vs_reach("end");
}
// malformed headers
HARNESS(h_head_bad) {
  Conf c;
  conf(c, 3, 0, 0, 2, -1);
  int k = vs_choice("kind", 12);
  header(c, 0);
  auto find = [&](const char *s) { int n = (int)std::strlen(s); for (int i = 0; i + n <= len; i++) if (!std::memcmp(buf + i, s, n)) return i; return -1; };
  auto bolof = [&](int i) { while (i > 0 && buf[i - 1] != '\n') --i; return i; };
  int n = len;
  switch (k) {
  case 0: buf[find("RINEX VERSION")] = 'X'; break;
  case 1: buf[20] = vs_char("type", "NGM "); break;
  case 2: buf[40] = vs_char("sys", "GRM "); break;
  case 3: n = bolof(find("END OF HEADER")); break;
  case 4: buf[bolof(find("SYS / # / OBS"))] = 'G'; break;
  case 5: buf[bolof(find("SYS / # / OBS")) + 5] = '5'; break;          // more codes announced than given
  case 6: buf[bolof(find("SYS / # / OBS")) + 7] = vs_char("code", "XAlc1"); break;
  case 7: buf[bolof(find("SYS / # / OBS")) + 8] = vs_char("freq", "03x 9"); break;
  case 8: buf[bolof(find("# OF STATIONS"))] = vs_char("ns", "1345"); break;
  case 9: buf[bolof(find("TIME OF FIRST")) + 48] = 'G'; break;
  case 10: buf[bolof(find("STATION REFERENCE")) + 50] = 'x'; break;
  case 11: buf[bolof(find("SPACEBORNE"))] = 'X'; break;
  }
  int bad = 0;
  const char *fn = vs_file("hb.rnx", buf, n);
  try { DorisObsRinex r(fn); } catch (std::exception &) { bad = 1; }
  vs_assert(bad, "a malformed header is refused");
  vs_reach("end");
}

// hourly records of W2 and F; record sk: F omitted by the first beacon (kind 1) or by both (kind 2)
static const char *rfo_file(Conf &c, const char *name, int n, int sk, int kind, int applied, int h0, double *v, long *t) {
  conf(c, 2, 5, 0, 2, applied);
  header(c, 0);
  for (int e = 0; e < n; e++) {
    int two = e == sk && kind ? 2 : 1;
    epoch_line(two, 3, 0, h0 + e, (char)('1' + e));
    for (int s = 0; s < two; s++) {
      for (int k = 0; k < 3; k++) ch(c.id[s][k]);
      put("       -33.000  ");
      if (two == 1 || (kind == 1 && s == 1)) v[e] = tok(14, 3, "F", 1, 500);
      else put("              ");
      put("  \n"); bol = len;
    }
    t[e] = epoch_ns;
  }
  return vs_file(name, buf, len);
}
static T9 at(long ns) { return T9(dso::modified_julian_day(58849), dso::nanoseconds(ns)); }
// polynomial fit: the coefficients solve the least-squares problem of the averaged values
HARNESS(h_rfo) {
  buf = pool[0];
  Conf c;
  double v[12]; long t[12];
  int n = VS_THOROUGH ? vs_choice("n", 4) + 3 : vs_choice("n", 2) + 4, every = vs_choice("every", 3) + 1, order = vs_choice("order", 2) + 1, tai = vs_choice("tai", 2), applied = vs_choice("applied", 2), kind = vs_choice("kind", 3), win = vs_choice("win", 2);
  const char *f1 = rfo_file(c, "r1.rnx", n, 1, kind, applied, 1, v, t);
  int m = n;
  std::vector<const char *> fns{f1};
  static char keep[512];
  std::strcpy(keep, f1); fns[0] = keep;
  if (every > 1) { buf = pool[1]; fns.push_back(rfo_file(c, "r2.rnx", 2, -1, 0, applied, 1 + n, v + n, t + n)); m += 2; }
  PolynomialModel<T9> fit(order);
  T9 start = win ? at(t[1]) : T9::min(), end = win ? at(t[m - 1] + 1) : T9::max();
  int rc = fit_relative_frequency_offset(fns, fit, tai, every, start, end);
  // own averages: groups of `every` records per file, the rest of a file forms a last group
  double y[12], x[12]; int k = 0;
  for (int f = 0; f < (m > n ? 2 : 1); f++) {
    int lo = f ? n : 0, hi = f ? m : n, cnt = 0; double s = 0; long t0 = 0, t1 = 0;
    for (int e = lo; e < hi; e++) {
      long tl = t[e] + (applied ? 0 : 1500000000L);
      if (win && (tl < t[1] || tl >= t[m - 1] + 1)) continue;
      if (kind == 2 && e == 1) continue;
      if (!cnt) t0 = tai ? tl : t[e];
      t1 = tai ? tl : t[e];
      s += v[e]; ++cnt;
      if (cnt == every) { y[k] = s / cnt; x[k] = (double)(t0 + (t1 - t0) / 2) / 1e9; ++k; cnt = 0; s = 0; }
    }
    if (cnt) { y[k] = s / cnt; x[k] = (double)(t0 + (t1 - t0) / 2) / 1e9; ++k; }
  }
  if (k < order + 1) vs_stop();
  vs_assert(rc == 0, "the fit succeeds");
  vs_assert(fit.order() == order, "order of the model");
  double tr = fit.xref.delta_sec(at(0)).to_fractional_seconds();
  vs_close(tr, 0, 0, "reference epoch of the model is that of the first file");
  // normal equations, time in hours to keep the numbers of one size
  for (int p = 0; p <= order; p++) {
    double r = 0;
    for (int j = 0; j < k; j++) {
      double e = -y[j], w = 1, h = x[j] / 3600;
      for (int i = 0; i <= order; i++) { e += fit.cf[i] * w; w *= x[j]; }
      r += e * (p == 0 ? 1 : p == 1 ? h : h * h);
    }
    vs_close(r, 0, 1e-6, "the coefficients are the least-squares ones of the averaged values");
  }
  vs_reach("end");
}
// more records inside a short window than the usual data rate has
HARNESS(h_rfo_dense) {
  Conf c;
  conf(c, 1, 6, 0, 1, 1);
  header(c, 0);
  double v[16]; int n = 14;
  for (int e = 0; e < n; e++) {
    epoch_line(1, 2, 0, 1, (char)('0' + e / 2)); // half second steps
    if (e % 2) buf[len - 60 + 22] = '7';
    for (int k = 0; k < 3; k++) ch(c.id[0][k]);
    v[e] = tok(14, 3, "F", 1, 500); put("  \n"); bol = len;
  }
  const char *f = vs_file("d.rnx", buf, len);
  long s0 = (1 * 60L + 41) * 60000000000L + 50279947800L;
  PolynomialModel<T9> fit(1);
  std::vector<const char *> fns{f};
  int rc = fit_relative_frequency_offset(fns, fit, true, 1, at(s0), at(s0 + 9000000000L));
  vs_assert(rc == 0, "the fit succeeds");
  double r0 = 0, r1 = 0;
  for (int e = 0; e < n; e++) {
    double x = (double)(s0 + (e / 2) * 1000000000L + (e % 2) * 500000000L) / 1e9, d = fit.cf[0] + fit.cf[1] * x - v[e];
    r0 += d; r1 += d * (x - 6110);
  }
  vs_close(r0, 0, 1e-5, "all records of the window enter"); vs_close(r1, 0, 1e-5, "all records of the window enter");
  vs_reach("end");
}
HARNESS(h_rfo_bad) {
  Conf c;
  double v[12]; long t[12];
  PolynomialModel<T9> fit(1);
  std::vector<const char *> fns;
  int kind = vs_choice("kind", 3);
  if (kind == 0) { conf(c, 2, 0, 0, 2, -1); header(c, 0); fns.push_back(vs_file("nof.rnx", buf, len)); } // no F observable
  else if (kind == 1) fns.push_back("/nonexistent/dir/x.rnx");
  else { rfo_file(c, "cut.rnx", 3, -1, 0, 0, 1, v, t); fns.push_back(vs_file("cut.rnx", buf, len - 40)); }
  vs_assert(fit_relative_frequency_offset(fns, fit, true, 1) != 0, "missing observable, file or record is an error");
  vs_reach("end");
}
// sequential filter: after every update the estimate and its covariance are the batch ones
HARNESS(h_kalman) {
  static const double SX[3] = {0.5, 2, 10}, SV[3] = {1, 0.25, 4}, SZ[3] = {1, 8, 0.125};
  double x0[2] = {vs_double("x0", -100, 100), vs_double("x1", -100, 100)};
  int q = vs_choice("prior", 3), qz = vs_choice("noise", 3), pat = vs_choice("times", 3);
  double sd[2] = {SX[q], SV[(q + (VS_THOROUGH ? vs_choice("pv", 3) : 0)) % 3]};
  static const long DT[3][5] = {{0, 1, 2, 3, 4}, {12, 6, 48, 30, 6}, {-24, 0, 0, 36, -12}}; // hours
  LinearKalman kf(x0, sd, SZ[qz], at(0));
  double a00 = 1 / (sd[0] * sd[0]), a01 = 0, a11 = 1 / (sd[1] * sd[1]), w = 1 / (SZ[qz] * SZ[qz]);
  double b0 = a00 * x0[0], b1 = a11 * x0[1];
  for (int i = 0; i < (VS_THOROUGH ? 5 : 3); i++) {
    double z = vs_double("z", -500, 500), dt = (double)DT[pat][i] / 24;
    kf.update(z, at(DT[pat][i] * 3600L * 1000000000L));
    a00 += w; a01 += w * dt; a11 += w * dt * dt; b0 += w * z; b1 += w * dt * z;
    vs_close(a00 * kf.x[0] + a01 * kf.x[1], b0, 1e-6, "estimate is the least-squares one of all values so far and the prior");
    vs_close(a01 * kf.x[0] + a11 * kf.x[1], b1, 1e-6, "estimate is the least-squares one of all values so far and the prior");
    double det = a00 * a11 - a01 * a01;
    vs_close(kf.P[0] * det, a11, 1e-6, "covariance is the inverse of the accumulated information");
    vs_close(kf.P[1] * det, -a01, 1e-6, "covariance is the inverse of the accumulated information");
    vs_close(kf.P[2] * det, a00, 1e-6, "covariance is the inverse of the accumulated information");
  }
  double tq = vs_int("tq", -48, 48) / 24.;
  vs_close(kf.value_at(at((long)(tq * 86400) * 1000000000L)), kf.x[0] + tq * kf.x[1], 1e-6, "value of the model at any time");
  vs_reach("end");
}
// sequential filter fed from a file; record sk without stations (kind 1), F omitted (2) or by the first beacon only (3)
HARNESS(h_kfile) {
  Conf c;
  double v[4], x0[2] = {1, 2}, sd[2] = {3, 4}, rfo = 0; long t[4], cnt = -1; bool has[4];
  int n = vs_choice("n", 3) + 1, kind = vs_choice("kind", 5), sk = kind ? vs_choice("skip", 3) : -1;
  if (sk >= n) vs_stop();
  conf(c, 2, 5, 0, 2, 0);
  header(c, 0);
  for (int e = 0; e < n; e++) {
    int q = e == sk ? kind : 0, ns = q == 1 ? 0 : 2;
    epoch_line(ns, 3, 0, 1 + e, (char)('1' + e));
    t[e] = epoch_ns; has[e] = q == 0 || q >= 3;
    char txt[15], other[15]; v[e] = vs_numtok(txt, 14, 3, 'f', "F", 1, 500);
    if (q == 4) { double w = vs_numtok(other, 14, 3, 'f', "G", 1, 500); vs_assume(w < v[e] - 1e-3 || w > v[e] + 1e-3); }
    for (int s = 0; s < ns; s++) {
      for (int k = 0; k < 3; k++) ch(c.id[s][k]);
      put("       -33.000  ");
      if (q == 0 || (q >= 3 && s) || q == 4) for (int k = 0; k < 14; k++) ch(q == 4 && s ? other[k] : txt[k]);
      else put("              ");
      put("  \n"); bol = len;
    }
  }
  const char *f = vs_file("k.rnx", buf, len);
  int first = 0;
  while (first < n && !has[first]) ++first;
  T9 rt;
  vs_assert((get_starting_rfo(f, rfo, rt) == 0) == (first < n), "first value is read, a file without any is an error");
  if (first == n) vs_stop();
  vs_same(rfo, v[first], "first value is that of the first record with one");
  vs_assert(rt == at(t[first]), "its epoch is that of this record");
  LinearKalman a(x0, sd, 2, rt), b(x0, sd, 2, rt);
  if (kind == 4) {
    vs_assert(get_rinex_rfo(f, cnt, &a) != 0, "a record whose beacons disagree on the value is refused");
    vs_stop();
  }
  vs_assert(get_rinex_rfo(f, cnt, &a) == 0 && cnt == n - (sk >= 0 && !has[sk]), "every value of the file is used");
  for (int i = 0; i < n; i++) if (has[i]) b.update(v[i], at(t[i]));
  for (int i = 0; i < 2; i++) vs_close(a.x[i], b.x[i], 1e-9, "values enter in file order at their epochs");
  vs_reach("end");
}

// phase counts: every record of a beacon against the previous record of the same beacon
HARNESS(h_ndop) {
  nndop = 0;
  Conf c;
  conf(c, 3, 0, 0, 3, -1);
  header(c, 0);
  int n = VS_THOROUGH ? 4 : 3, set[4];
  int om = vs_choice("omitted", 4) - 1, oe = 0, os = 0; // observable om of beacon os omitted in record oe
  if (om >= 0) { oe = vs_choice("omitted in", n); os = vs_choice("omitted by", 3); }
  double v[4][3][3]; long t[4];
  for (int e = 0; e < n; e++) {
    set[e] = vs_choice("set", 4 + (om < 0)); // beacons of the record: 0 | 1 | 0 1 | 1 2 | none
    int lo = set[e] == 0 || set[e] == 2 ? 0 : 1, hi = set[e] == 0 ? 0 : set[e] == 3 ? 2 : set[e] == 4 ? 0 : 1;
    epoch_line(hi - lo + 1, 2, 0, 1 + e, (char)('1' + e));
    t[e] = epoch_ns;
    for (int s = lo; s <= hi; s++) {
      for (int k = 0; k < 3; k++) ch(c.id[s][k]);
      for (int i = 0; i < 3; i++) {
        if (om == i && oe == e && os == s) put("              ");
        else v[e][s][i] = tok(14, 3, "obs", 1, 9e8);
        put("  ");
      }
      put("\n"); bol = len;
    }
  }
  auto in = [&](int e, int s) { return set[e] == 0 ? s == 0 : set[e] == 1 ? s == 1 : set[e] == 2 ? s < 2 : set[e] == 3 ? s > 0 : false; };
  if (om >= 0 && !in(oe, os)) vs_stop();
  DorisObsRinex r(vs_file("n.rnx", buf, len));
  vs_assert(r.get_doppler_counts() == 0, "the file is read to its end");
  int k = 0;
  for (int e = 1; e < n; e++)
    for (int s = 0; s < 3; s++) {
      if (!in(e, s)) continue;
      int p = e - 1;
      while (p >= 0 && !in(p, s)) --p;
      if (p < 0) continue;
      if ((om == 0 || om == 1) && os == s && (oe == e || oe == p)) continue; // nothing to compare
      if (k < nndop) {
        vs_assert(!std::memcmp(ndop[k].id, c.id[s], 3), "counts are given for the beacons of the record, in order");
        vs_close(ndop[k].a[0], (double)58849 + t[e] / 86400e9, 1e-9, "epoch of the count");
        vs_close(ndop[k].a[1], v[e][s][0] - v[p][s][0], 1e-6, "first carrier count against the previous record of the same beacon");
        vs_close(ndop[k].a[2], v[e][s][1] - v[p][s][1], 1e-6, "second carrier count against the previous record of the same beacon");
        vs_close(ndop[k].a[3], (t[e] - t[p]) / 1e9, 1e-9, "time between the two records");
      }
      ++k;
    }
  vs_assert(nndop == k, "one count for every repeated beacon with both observables");
  vs_reach("end");
}
