// Integer register machine: a history of library calls on integer registers
// at one precision, against decimal arithmetic that shares nothing with the
// library. Destination and operands may be the same register.
#include "ops.h"
#include <osl/int.h>
#include <cmath>

namespace sim {
str decAdd(const str&, const str&);
str decSub(const str&, const str&);
str decMul(const str&, const str&);
str decNeg(const str&);
int decCmp(const str&, const str&);
void decFloorDiv(const str&, const str&, str*, str*);
str coefText(int prec, const osl_int_t& v);
str withFile(const std::function<void(FILE*)>& f);

namespace {
const int NREG = 5;
struct Bank {
  int prec = 0;
  osl_int_p r[NREG] = {};
  str v[NREG];
};
str dabs(const str& a) { return !a.empty() && a[0] == '-' ? a.substr(1) : a; }
bool inRange(const str& v, const str& lo, const str& hi) { return decCmp(v, lo) >= 0 && decCmp(v, hi) <= 0; }
const str LMIN = "-9223372036854775808", LMAX = "9223372036854775807", IMIN = "-2147483648", IMAX = "2147483647";
bool fits(int prec, const str& v) { return prec == OSL_PRECISION_MP ? v.size() < 600 : inRange(v, LMIN, LMAX); }
str decGcd(str a, str b) { a = dabs(a); b = dabs(b); while (b != "0") { str q, r; decFloorDiv(a, b, &q, &r); a = b; b = r; } return a; }
str strOf(long long x) { return fmt("%lld", x); }
long long numOf(const str& s) { return strtoll(s.c_str(), nullptr, 10); }

str pickValue(Rng& g, Bank& B) {
  static const char* edge[] = {"0", "1", "-1", "2", "-2", "3", "7", "-7", "10", "-10", "99", "100", "-100", "2147483647", "-2147483648", "2147483648", "-2147483649", "4294967295", "4294967296",
    "-4294967296", "3037000499", "3037000500", "-3037000500", "4611686018427387904", "-4611686018427387904", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775806",
    "1000000000000000000", "999999999999999999", "-999999999999999999", "65536", "-65535"};
  switch (g.below(B.prec == OSL_PRECISION_MP ? 5 : 4)) {
    case 0: return strOf((long long)g.below(41) - 20);
    case 1: return edge[g.below(sizeof edge / sizeof *edge)];
    case 2: { long long x = (long long)(g.next() >> g.below(63)); if (g.chance(50)) x = -x; return strOf(x); }
    case 3: { str t = decMul(B.v[g.below(NREG)], strOf((long long)g.below(19) - 9)); return fits(B.prec, t) ? t : "5"; }
    default: { str t(1, (char)('1' + g.below(9))); size_t n = g.below(g.chance(80) ? 30 : 150); for (size_t i = 0; i < n; i++) t += (char)('0' + (g.chance(30) ? 0 : g.below(10))); return (g.chance(50) ? "-" : "") + t; }
  }
}
void bad(const char* what, const str& got, const str& want, const str& ops) {
  fail("int-wrong", fmt("%s(%s) is %s instead of %s", what, ops.c_str(), got.c_str(), want.c_str()));
}
void checkBank(Bank& B, const char* what, const str& ops) {
  Quiet q;
  for (int i = 0; i < NREG; i++) {
    str got = coefText(B.prec, *B.r[i]);
    rc->checks++;
    if (got != B.v[i]) bad(what, fmt("register %d: ", i) + got, B.v[i], ops);
  }
}
// Puts a value in a register through one of the ways there are.
void load(Bank& B, int i, const str& v, Rng& g) {
  int P = B.prec;
  u64 way = g.below(8);
  if (inRange(v, IMIN, IMAX) && way == 0) { LIBV(osl_int_set_si(P, B.r[i], (int)numOf(v))); }
  else if (inRange(v, LMIN, LMAX) && way == 1) { LIBV(osl_int_set_long(P, B.r[i], (long)numOf(v))); }
  else if (inRange(v, LMIN, LMAX) && way == 2) { LIBV(osl_int_set_long_long(P, B.r[i], numOf(v))); }
  else if (inRange(v, LMIN, LMAX) && way < 6) {  // a new variable, assigned
    osl_int_t x;
    if (way == 3 && inRange(v, IMIN, IMAX)) LIBV(osl_int_init_set_si(P, &x, (int)numOf(v)));
    else if (way == 4) LIBV(osl_int_init_set_long(P, &x, (long)numOf(v)));
    else LIBV(osl_int_init_set_long_long(P, &x, numOf(v)));
    osl_int_t y;
    LIBV(osl_int_init_set(P, &y, x));
    LIBV(osl_int_clear(P, &x));
    LIBV(osl_int_assign(P, B.r[i], y));
    LIBV(osl_int_clear(P, &y));
  } else {
    str t = (g.chance(20) ? "  " : "") + v;
    if (g.chance(50)) LIBV(osl_int_sscanf(t.c_str(), P, B.r[i]));
    else {
      str more = t + (g.chance(50) ? " 77" : "");
      char* buf = (char*)malloc(more.size() + 1); memcpy(buf, more.c_str(), more.size() + 1);
      char* s = buf;
      LIBV(osl_int_sread(&s, P, B.r[i]));
      long moved = (long)(s - buf);
      free(buf);
      if (moved != (long)t.size()) bad("osl_int_sread", fmt("a pointer moved by %ld", moved), fmt("moved by %zu", t.size()), t);
    }
  }
  B.v[i] = v;
}
str trim(const str& s) { size_t a = s.find_first_not_of(' '); return a == str::npos ? "" : s.substr(a); }
}  // namespace

void intFree() {
  auto* B = (Bank*)me().edit.get();
  if (!B) return;
  for (int i = 0; i < NREG; i++) if (B->r[i]) { osl_int_p p = B->r[i]; B->r[i] = nullptr; LIBV(osl_int_free(B->prec, p)); }
  me().edit.reset();
}
void intStep(Rng& g, int over) {
  static const int ps[] = {OSL_PRECISION_SP, OSL_PRECISION_DP, OSL_PRECISION_MP};
  if (me().edit && g.chance(3)) intFree();
  if (!me().edit) {
    auto nb = std::make_shared<Bank>();
    nb->prec = ps[g.below(3)];
    me().edit = nb;
    for (int i = 0; i < NREG; i++) { nb->r[i] = LIB(osl_int_malloc(nb->prec)); nb->v[i] = "0"; }
    checkBank(*nb, "osl_int_malloc", "");
    for (int i = 0; i < NREG; i++) load(*nb, i, pickValue(g, *nb), g);
    checkBank(*nb, "loading", "");
  }
  Bank& B = *(Bank*)me().edit.get();
  const int P = B.prec;
  int d = (int)g.below(NREG), a = (int)g.below(NREG), b = (int)g.below(NREG), e = (int)g.below(NREG);
  if (g.chance(45)) { int i = g.chance(50) ? a : b; load(B, i, pickValue(g, B), g); checkBank(B, "loading", B.v[i]); }
  if (P != OSL_PRECISION_MP && g.chance(2)) {  // the pairs at the edge of the range
    static const char* far[] = {"-1", "1", "-9223372036854775808", "9223372036854775807", "-9223372036854775807", "2", "-2"};
    load(B, a, g.chance(70) ? LMIN : LMAX, g); load(B, b, far[g.below(7)], g);
    checkBank(B, "loading", B.v[b]);
  }
  const str x = B.v[a], y = B.v[b];
  str ops = x + ", " + y + fmt(" in precision %d, registers %d <- %d, %d", P, d, a, b);
  osl_int_t A = *B.r[a], Y = *B.r[b];
  osl_int_p D = B.r[d];
  const char* what = "";
  // Calls whose result does not fit: only on request, and then they must say so.
  auto put = [&](const char* w, const str& res, const std::function<void()>& f) {
    what = w;
    if (!fits(P, res)) {
      if (P == OSL_PRECISION_MP || !over) { what = nullptr; return; }
      me().exitOk = true;
      LIBV(f());
      fail("int-overflow-silent", fmt("%s(%s): the result %s does not fit and nothing was reported", w, ops.c_str(), res.c_str()));
    }
    LIBV(f());
    B.v[d] = res;
  };
  // The same for results that always fit.
  auto putSafe = [&](const char* w, const str& res, const std::function<void()>& f) {
    what = w;
    if (!fits(P, res)) { what = nullptr; return; }
    LIBV(f());
    B.v[d] = res;
  };
  auto ask = [&](const char* w, long want, long got) { what = w; rc->checks++; if (got != want) bad(w, fmt("%ld", got), fmt("%ld", want), ops); };
  int c = decCmp(x, y);
  str q, r;
  bool div = y != "0";
  if (div) decFloorDiv(x, y, &q, &r);
  str mod = r; if (div && !mod.empty() && mod[0] == '-') mod = decAdd(mod, dabs(y));
  int si = (int)((long long)g.below(41) - 20); if (g.chance(30)) si = g.chance(50) ? 2147483647 : g.chance(50) ? -2147483647 - 1 : (int)g.next();
  bool min2 = x == LMIN || y == LMIN;
  switch (g.below(34)) {
    case 0: put("osl_int_add", decAdd(x, y), [&] { osl_int_add(P, D, A, Y); }); break;
    case 1: put("osl_int_sub", decSub(x, y), [&] { osl_int_sub(P, D, A, Y); }); break;
    case 2: put("osl_int_mul", decMul(x, y), [&] { osl_int_mul(P, D, A, Y); }); break;
    case 3: ops += fmt(" i=%d", si); put("osl_int_add_si", decAdd(x, strOf(si)), [&] { osl_int_add_si(P, D, A, si); }); break;
    case 4: ops += fmt(" i=%d", si); put("osl_int_mul_si", decMul(x, strOf(si)), [&] { osl_int_mul_si(P, D, A, si); }); break;
    case 5: put("osl_int_increment", decAdd(x, "1"), [&] { osl_int_increment(P, D, A); }); break;
    case 6: put("osl_int_decrement", decSub(x, "1"), [&] { osl_int_decrement(P, D, A); }); break;
    case 7: case 8: if (div) put("osl_int_floor_div_q", q, [&] { osl_int_floor_div_q(P, D, A, Y); }); break;
    case 9: if (div && fits(P, q)) putSafe("osl_int_floor_div_r", r, [&] { osl_int_floor_div_r(P, D, A, Y); }); break;
    case 10: if (div && e != d && fits(P, q)) { what = "osl_int_floor_div_q_r"; LIBV(osl_int_floor_div_q_r(P, D, B.r[e], A, Y)); B.v[d] = q; B.v[e] = r; } break;
    case 11: case 12: if (div) putSafe("osl_int_mod", mod, [&] { osl_int_mod(P, D, A, Y); }); break;
    case 13: if (div && r == "0") put("osl_int_div_exact", q, [&] { osl_int_div_exact(P, D, A, Y); }); break;
    case 14: put("osl_int_gcd", decGcd(x, y), [&] { osl_int_gcd(P, D, A, Y); }); break;
    case 15: {
      str gc = decGcd(x, y), l = "0";
      if (gc != "0") { str t, u; decFloorDiv(dabs(x), gc, &t, &u); l = decMul(t, dabs(y)); }
      if (!(min2 && P != OSL_PRECISION_MP)) put("osl_int_lcm", l, [&] { osl_int_lcm(P, D, A, Y); });
      break;
    }
    case 16: put("osl_int_oppose", decNeg(x), [&] { osl_int_oppose(P, D, A); }); break;
    case 17: put("osl_int_abs", dabs(x), [&] { osl_int_abs(P, D, A); }); break;
    case 18: what = "osl_int_swap"; LIBV(osl_int_swap(P, B.r[a], B.r[b])); std::swap(B.v[a], B.v[b]); break;
    case 19: what = "osl_int_assign"; LIBV(osl_int_assign(P, D, A)); B.v[d] = x; break;
    case 20: {
      size_t n = 0; str t = dabs(x); if (t == "0") n = 1; while (t != "0") { str u; decFloorDiv(t, "2", &t, &u); n++; }
      ask("osl_int_size_in_base_2", (long)n, (long)LIB(osl_int_size_in_base_2(P, A)));
      break;
    }
    case 21: {
      long n = (long)dabs(x).size(), got = (long)LIB(osl_int_size_in_base_10(P, A));
      if (P == OSL_PRECISION_MP && got == n + 1) got = n;  // documented to be exact or one too big
      ask("osl_int_size_in_base_10", n, got);
      break;
    }
    case 22: ask("osl_int_eq", c == 0, LIB(osl_int_eq(P, A, Y)) != 0); ask("osl_int_ne", c != 0, LIB(osl_int_ne(P, A, Y)) != 0); break;
    case 23: ask("osl_int_lt", c < 0, LIB(osl_int_lt(P, A, Y)) != 0); ask("osl_int_le", c <= 0, LIB(osl_int_le(P, A, Y)) != 0); break;
    case 24: ask("osl_int_gt", c > 0, LIB(osl_int_gt(P, A, Y)) != 0); ask("osl_int_ge", c >= 0, LIB(osl_int_ge(P, A, Y)) != 0); break;
    case 25: ask("osl_int_pos", decCmp(x, "0") > 0, LIB(osl_int_pos(P, A)) != 0); ask("osl_int_neg", decCmp(x, "0") < 0, LIB(osl_int_neg(P, A)) != 0); break;
    case 26: ask("osl_int_zero", x == "0", LIB(osl_int_zero(P, A)) != 0); ask("osl_int_one", x == "1", LIB(osl_int_one(P, A)) != 0); ask("osl_int_mone", x == "-1", LIB(osl_int_mone(P, A)) != 0); break;
    case 27: if (div) ask("osl_int_divisible", r == "0", LIB(osl_int_divisible(P, A, Y)) != 0); break;
    case 28: case 29: {  // out of the library
      u64 w = g.below(4);
      if (w == 0 && (inRange(x, IMIN, IMAX) || over)) {
        bool f = inRange(x, IMIN, IMAX); if (!f) me().exitOk = true;
        int got = LIB(osl_int_get_si(P, A));
        if (!f) fail("int-overflow-silent", "osl_int_get_si(" + x + ") does not fit and nothing was reported");
        ask("osl_int_get_si", (long)numOf(x), got);
      } else if ((w == 1 || w == 2) && (inRange(x, LMIN, LMAX) || over)) {
        bool f = inRange(x, LMIN, LMAX); if (!f) me().exitOk = true;
        long got = w == 1 ? LIB(osl_int_get_long(P, A)) : (long)LIB(osl_int_get_long_long(P, A));
        if (!f) fail("int-overflow-silent", "osl_int_get_long(" + x + ") does not fit and nothing was reported");
        ask("osl_int_get_long", (long)numOf(x), got);
      } else if (w == 3) {
        what = "osl_int_get_d";
        double got = LIB(osl_int_get_d(P, A)), want = strtod(x.c_str(), nullptr);
        rc->checks++;
        if (std::fabs(got - want) > std::fabs(want) * 1e-15) bad(what, fmt("%.17g", got), fmt("%.17g", want), ops);
      }
      break;
    }
    case 30: {
      what = "osl_int_sprint";
      std::vector<char> buf(x.size() + 40, '?');
      bool txt = g.chance(50);
      if (txt) LIBV(osl_int_sprint_txt(buf.data(), P, A)); else LIBV(osl_int_sprint(buf.data(), P, A));
      str got = buf.data();
      rc->checks++;
      if ((txt ? got : trim(got)) != x) bad(txt ? "osl_int_sprint_txt" : what, "'" + got + "'", x, ops);
      break;
    }
    case 31: {
      what = "osl_int_print";
      str got = withFile([&](FILE* f) { LIBV(osl_int_print(f, P, A)); });
      rc->checks++;
      if (trim(got) != x) bad(what, "'" + got + "'", x, ops);
      break;
    }
    case 32: {
      int Q = ps[g.below(3)];
      if (!fits(Q, x) || !inRange(x, LMIN, LMAX)) break;
      what = "osl_int_set_precision";
      osl_int_t t;
      LIBV(osl_int_init_set(P, &t, A));
      LIBV(osl_int_set_precision(P, Q, &t));
      { Quiet qq; str got = coefText(Q, t); if (got != x) bad(what, got, x, ops + fmt(" to %d", Q)); }
      if (g.chance(50)) { LIBV(osl_int_set_precision(Q, P, &t)); { Quiet qq; str got = coefText(P, t); if (got != x) bad(what, got, x, ops); } LIBV(osl_int_clear(P, &t)); }
      else LIBV(osl_int_clear(Q, &t));
      break;
    }
    case 33: {
      what = "osl_int_dump_precision";
      str got = withFile([&](FILE* f) { LIBV(osl_int_dump_precision(f, P)); });
      str want = P == OSL_PRECISION_SP ? "32 bits" : P == OSL_PRECISION_DP ? "64 bits" : "GMP";
      if (got != want) bad(what, got, want, ops);
      for (int q2 : {32, 64, 0, 16, 33, -1}) ask("osl_int_is_precision_supported", q2 == 32 || q2 == 64 || q2 == 0, LIB(osl_int_is_precision_supported(q2)) != 0);
      break;
    }
  }
  if (!what) { say("int skipped"); return; }
  checkBank(B, what, ops);
  cover.probes[str("int:") + what]++;
  say(fmt("int %s %s %s %s", what, B.v[d].c_str(), B.v[a].c_str(), B.v[b].c_str()));
}
}  // namespace sim
