// Per property: how plans are generated from a seed and how a plan is judged.
#include "ops.h"
#include <algorithm>

namespace sim {
static const int streamKinds[] = {K_SCOP, K_STATEMENT, K_RELATION, K_RELLIST, K_STRINGS, K_GENERIC};
static const int partKinds[] = {K_STATEMENT, K_RELATION, K_RELLIST, K_STRINGS, K_GENERIC};
static const int stringKinds[] = {K_RELATION, K_STRINGS, K_BODY, K_GENERIC, K_ARRAYS, K_CLAY, K_COMMENT, K_COORDINATES, K_DEPENDENCE, K_EXTBODY, K_LOOP, K_NULL,
                                  K_PLUTO, K_REGION, K_ANNOTATION, K_SCATINFOS, K_SCATNAMES, K_SYMBOLS, K_TEXTUAL, K_IRREGULAR};
static const int nStringKinds = 20;

struct B {  // plan builder
  Plan p; Rng r; bool deep;
  std::vector<int> nextIdx;
  B(const str& prop, u64 seed, bool thorough) : r(H(seed, 0x5151, prop[1] * 256 + prop[2])), deep(thorough) { p.prop = prop; p.seed = seed; }
  void clients(int n) { p.nclients = n; nextIdx.assign((size_t)n, 0); }
  OpLine& op(int c, const char* name) { p.ops.emplace_back(); OpLine& o = p.ops.back(); o.client = c; o.name = name; return o; }
  long any() { return (long)(r.next() >> 34); }
  int size() { u64 x = r.below(100); return x < 12 ? 0 : x < 40 ? 1 : x < 70 ? 2 : x < 88 ? 3 : x < 96 ? 4 : 5; }
  int small() { u64 x = r.below(100); return x < 20 ? 0 : x < 60 ? 1 : x < 90 ? 2 : 3; }
  int anyKind() { return (int)r.below(K_COUNT); }
  int index(int c) { return nextIdx[(size_t)c]++; }
  void mk(int c, int kind, int sz, int mag = -1, long prec = -1) {
    OpLine& o = op(c, "new"); o.a["kind"] = kind; o.a["os"] = any(); o.a["size"] = sz;
    if (mag >= 0) o.a["mag"] = mag;
    if (prec >= 0) o.a["prec"] = prec;
    if (c >= 0) index(c);
  }
  void chan(int k, int sz, int filePct) {
    if (r.chance(filePct)) p.knobs[fmt("cht%d", k)] = 1;
    static const long caps[] = {1, 2, 3, 7, 16, 64, 256, 4096, 65536};
    p.knobs[fmt("cap%d", k)] = caps[sz >= 3 ? 3 + r.below(6) : r.below(9)];
  }
  void io(OpLine& o) {
    static const long ch[] = {0, 0, 1, 2, 3, 17, 200, 1000};
    static const long bf[] = {-1, -1, 0, 1, 2, 16, 100, 1024};
    o.a["chunk"] = ch[r.below(8)]; o.a["buf"] = bf[r.below(8)];
    if (r.chance(15)) o.a["lat"] = 1 + (long)r.below(40);
  }
  OpLine& wopen(int c, int k) { OpLine& o = op(c, "wopen"); o.a["ch"] = k; io(o); return o; }
  OpLine& ropen(int c, int k) { OpLine& o = op(c, "ropen"); o.a["ch"] = k; io(o); return o; }
  OpLine& put(int c, int k, long sel, int kind = -1, int flush = 0) {
    OpLine& o = op(c, "put"); o.a["ch"] = k; o.a["sel"] = sel; if (kind >= 0) o.a["kind"] = kind; if (flush) o.a["flush"] = 1;
    if (r.chance(handPct)) o.a["deco"] = 1 + (long)r.below(1000000000);
    return o;
  }
  void get(int c, int k, int kind) { OpLine& o = op(c, "get"); o.a["ch"] = k; o.a["kind"] = kind; index(c); }
  void wclose(int c, int k) { op(c, "wclose").a["ch"] = k; }
  void rclose(int c, int k) { op(c, "rclose").a["ch"] = k; }
  void psw() { static const long q[] = {0, 5, 20, 60, 150, 400}; p.knobs["psw"] = q[r.below(6)]; }
  // preemptions and crashes between any two basic blocks instead of at calls only
  void fine() {
    if (p.nclients < 2 || !r.chance(35)) return;
    static const long q[] = {1, 3, 10, 30, 100};
    p.knobs["fine"] = 1; p.knobs["psw"] = q[r.below(5)]; p.knobs["maxsteps"] = 60000000;
    for (auto& f : p.faults) if (f.kind == "crash") f.a["step"] *= 1 + (long)r.below(20);
  }
  long precOf() { static const long q[] = {64, 64, 32, 0, 0}; return q[r.below(5)]; }
  void samePrec(long v) { for (int c = 0; c < p.nclients; c++) p.knobs[fmt("prec%d", c)] = v; }
  void sxfer(int c, int kind, int sz) {
    mk(c, kind, sz, kind == K_RELATION || kind == K_DEPENDENCE || kind == K_GENERIC || kind == K_SYMBOLS ? 3 + (int)r.below(2) : -1);
    OpLine& o = op(c, "sxfer"); o.a["sel"] = nextIdx[(size_t)c] - 1; o.a["n"] = (long)r.below(3); o.a["trim"] = r.chance(15); o.a["one"] = r.chance(50);
    if (r.chance(handPct)) o.a["deco"] = 1 + (long)r.below(1000000000);
  }
  int handPct = 12;  // documents written by other means than the library
  int ekind() { return stringKinds[r.below(nStringKinds)]; }
  void edits(int c, int n) {
    long m = (long)r.below(18);
    for (int i = 0; i < n; i++) {
      OpLine& o = op(c, "edit");
      if (r.chance(20)) m = (long)r.below(18);
      o.a["m"] = m; o.a["k"] = any(); o.a["os"] = any();
    }
  }
  // a self-contained program of one client on its own data
  void program(int c, int n, int flags, int chBase) {  // flags: 1 streams, 2 edits, 4 saves
    int nobj = 0, used = 0;
    auto need = [&](int kind) { mk(c, kind, size(), 3 + (int)r.below(2)); nobj++; };
    need(anyKind());
    for (int i = 0; i < n; i++) {
      switch (r.below(17)) {
        case 0: case 1: need(anyKind()); break;
        case 2: { OpLine& o = op(c, "clone"); o.a["sel"] = any(); nobj++; break; }
        case 3: { OpLine& o = op(c, "nclone"); o.a["sel"] = any(); o.a["n"] = (long)r.below(4) - (r.chance(20) ? 1 : 0); o.a["kind"] = r.chance(50) ? K_RELATION : K_STATEMENT; break; }
        case 4: case 5: { OpLine& o = op(c, "ro"); o.a["sel"] = any(); o.a["which"] = any(); break; }
        case 6: { int k = ekind(); need(k); OpLine& o = op(c, "sxfer"); o.a["sel"] = any(); o.a["kind"] = k; o.a["n"] = (long)r.below(3); o.a["one"] = r.chance(50); break; }
        case 7: { OpLine& o = op(c, "eqmut"); o.a["kind"] = anyKind(); o.a["os"] = any(); o.a["size"] = small(); o.a["leaf"] = any(); o.a["n"] = 1 + (long)r.below(3); break; }
        case 8: { OpLine& o = op(c, "mutate"); o.a["sel"] = any(); o.a["leaf"] = any(); break; }
        case 9: { OpLine& o = op(c, "equal"); o.a["sel"] = any(); o.a["sel2"] = any(); break; }
        case 10: { OpLine& o = op(c, "free"); o.a["sel"] = any(); break; }
        case 11: { OpLine& o = op(c, "mallocfree"); o.a["kind"] = anyKind(); o.a["clone"] = r.chance(60); o.a["dump"] = r.chance(40); break; }
        case 12: { OpLine& o = op(c, "freenull"); o.a["kind"] = anyKind(); break; }
        case 13: if (flags & 1) {
          int k = chBase + used++; int kind = streamKinds[r.below(6)];
          p.knobs[fmt("cht%d", k)] = 1;
          need(kind);
          wopen(c, k); put(c, k, any(), kind, r.chance(50)); wclose(c, k); ropen(c, k); get(c, k, kind); rclose(c, k);
        } break;
        case 14: case 15: if (flags & 2) edits(c, 1 + (int)r.below(4)); break;
      }
    }
    if ((flags & 4) && r.chance(50)) { need(K_SCOP); OpLine& o = op(c, "save"); o.a["sel"] = any(); o.a["kind"] = K_SCOP; o.a["path"] = c; io(o); }
  }
};

// producer -> relays -> consumer over channels, several objects per stream
static void chain(B& b, int hops, bool mixedPrec, bool masks, int filePct) {
  b.clients(hops + 1);
  if (mixedPrec) for (int c = 0; c <= hops; c++) b.p.knobs[fmt("prec%d", c)] = b.precOf();
  else b.samePrec(b.precOf());
  bool big = mixedPrec && b.r.chance(15);  // the largest precision in every client, explicitly or not
  if (big) for (int c = 0; c <= hops; c++) b.p.knobs[fmt("prec%d", c)] = b.r.chance(50) ? 0 : 1;
  int mag = big ? 4 : mixedPrec ? 3 : b.r.chance(50) && b.p.knobs["prec0"] == 0 ? 4 : 3;
  if (masks) for (int c = 1; c <= hops; c++) {
    long m = -1;
    u64 x = b.r.below(10);
    if (x < 2) m = -1;
    else if (x < 4) m = defaultMask();
    else { m = defaultMask(); int drop = 1 + (int)b.r.below(x < 8 ? 5 : 14); for (int i = 0; i < drop; i++) m &= ~(1l << streamKinds[0] | 1l << b.ekind()); }
    // the parameter names travel as a 'strings' extension, keep it most of the time
    if (m >= 0 && b.r.chance(70)) m |= 1l << K_STRINGS;
    b.p.knobs[fmt("reg%d", c)] = m;
  }
  int sz = b.size();
  for (int k = 0; k < hops; k++) b.chan(k, sz, filePct);
  bool scops = b.r.chance(50);
  std::vector<int> seq;
  if (!scops || b.r.chance(25)) { int n = 1 + (int)b.r.below(4); for (int i = 0; i < n; i++) seq.push_back(partKinds[b.r.below(5)]); }
  int nsc = 0;
  if (scops) { nsc = 1 + (b.r.chance(25) ? (int)b.r.below(3) : 0); }
  for (int k : seq) b.mk(0, k, sz, mag);
  for (int i = 0; i < nsc; i++) b.mk(0, K_SCOP, sz, mag);
  b.wopen(0, 0);
  for (size_t i = 0; i < seq.size() + (size_t)nsc; i++) b.put(0, 0, (long)i, -1, b.r.chance(50));
  b.wclose(0, 0);
  for (int c = 1; c <= hops; c++) {
    b.ropen(c, c - 1);
    bool last = c == hops, eager = b.r.chance(50);
    int n = 0;
    if (!last && eager) b.wopen(c, c);
    for (int k : seq) { b.get(c, c - 1, k); if (!last && eager) b.put(c, c, n, -1, b.r.chance(50)); n++; }
    if (scops) { b.get(c, c - 1, K_SCOP); if (!last && eager) b.put(c, c, n, -1, 0); n++; }
    if (!last && !eager) { b.wopen(c, c); for (int i = 0; i < n; i++) b.put(c, c, i, -1, b.r.chance(50)); }
    if (!last) b.wclose(c, c);
    b.rclose(c, c - 1);
  }
  b.psw();
}

Plan genPlan(const str& prop, u64 seed, bool thorough) {
  B b(prop, seed, thorough);
  Rng& r = b.r;
  Plan& p = b.p;
  if (prop == "C01") {
    if (r.chance(55)) chain(b, 1 + (int)r.below(3), false, false, 30);
    else {
      b.clients(1); b.samePrec(b.precOf());
      int n = 1 + (int)r.below(3);
      for (int i = 0; i < n; i++) b.sxfer(0, b.ekind(), b.size());
    }
  } else if (prop == "C02") {
    if (r.chance(35)) chain(b, 1 + (int)r.below(2), false, false, 10);
    else {
      b.clients(2); b.samePrec(b.precOf());
      int sz = b.small();
      b.chan(0, sz, 0); b.chan(1, sz, 0);
      for (const char* k : {"cap0", "cap1"}) p.knobs[k] = std::max(p.knobs[k], 16l);  // trailing blank lines must fit
      int n = 1 + (int)r.below(4);
      std::vector<int> ks;
      for (int i = 0; i < n; i++) { ks.push_back(partKinds[r.below(5)]); b.mk(0, ks.back(), sz); }
      b.wopen(0, 0); b.wopen(1, 1); b.ropen(0, 1); b.ropen(1, 0);
      int batch = 1;
      for (int i = 0; i < n; i += batch) {
        batch = 1 + (r.chance(30) ? (int)r.below(2) : 0);
        int m = std::min(batch, n - i);
        for (int j = 0; j < m; j++) b.put(0, 0, i + j, -1, j == m - 1);
        for (int j = 0; j < m; j++) b.get(1, 0, ks[(size_t)(i + j)]);
        for (int j = 0; j < m; j++) b.put(1, 1, i + j, -1, j == m - 1);
        for (int j = 0; j < m; j++) b.get(0, 1, ks[(size_t)(i + j)]);
      }
      b.wclose(0, 0); b.wclose(1, 1);
      b.psw();
    }
  } else if (prop == "C03" && r.chance(25)) {  // texts in memory that end early
    b.clients(4); b.samePrec(b.precOf());
    for (int c = 0; c < 4; c++) { if (r.chance(30)) b.edits(c, 1); OpLine& o = b.op(c, "edit"); o.a["m"] = 17; o.a["only"] = 1; o.a["k"] = b.any(); o.a["os"] = b.any(); }
    b.psw();
  } else if (prop == "C03") {
    b.clients(2); b.samePrec(b.precOf());
    int sz = b.small();
    b.chan(0, sz, 50);
    int n = 1 + (int)r.below(2);
    bool scop = r.chance(50);
    if (scop) n = r.chance(30) ? 1 : 0;
    std::vector<int> ks;
    for (int i = 0; i < n; i++) ks.push_back(partKinds[r.below(5)]);
    if (scop) ks.push_back(K_SCOP);
    for (int k : ks) b.mk(0, k, sz);
    b.wopen(0, 0);
    for (size_t i = 0; i < ks.size(); i++) b.put(0, 0, (long)i, -1, r.chance(50));
    b.wclose(0, 0);
    b.ropen(1, 0);
    for (int k : ks) b.get(1, 0, k);
    b.psw();
    if (p.knobs["psw"] > 20) p.knobs["psw"] = 20;
    p.knobs["sweep"] = thorough ? 60 : 24;
    p.knobs["maxsteps"] = 2000000;
  } else if (prop == "C04") {
    u64 mode = r.below(3);
    int sz = b.small();
    if (mode == 0) {  // channel with failing writes
      b.clients(2); b.samePrec(b.precOf());
      b.chan(0, sz, 70);
      int n = 1 + (int)r.below(2);
      std::vector<int> ks;
      for (int i = 0; i < n; i++) { ks.push_back(partKinds[r.below(5)]); }
      if (r.chance(50)) ks.push_back(K_SCOP);
      for (int k : ks) b.mk(0, k, sz);
      b.wopen(0, 0);
      for (size_t i = 0; i < ks.size(); i++) b.put(0, 0, (long)i, -1, r.chance(60));
      b.wclose(0, 0);
      for (size_t i = 0; i < ks.size(); i++) b.put(0, 0, (long)i, -1, 0);
      b.ropen(1, 0);
      for (int k : ks) b.get(1, 0, k);
      b.psw();
    } else {  // save, crash, recover
      b.clients(2); b.samePrec(b.precOf());
      int n = 1 + (int)r.below(3);
      for (int i = 0; i < n; i++) b.mk(0, K_SCOP, sz);
      for (int i = 0; i < n; i++) { OpLine& o = b.op(0, "save"); o.a["sel"] = i; o.a["kind"] = K_SCOP; o.a["path"] = (long)r.below(2); o.a["ch"] = i; if (mode == 2 && r.chance(30)) o.a["inplace"] = 1; b.io(o); }
      OpLine& o = b.op(1, "recover"); o.a["after"] = 0; o.a["power"] = r.chance(80); b.io(o);
      p.knobs["psw"] = 0;
      p.knobs["crashes"] = mode == 1;
    }
    p.knobs["sweep"] = thorough ? 60 : 24;
  } else if (prop == "C05" && r.chance(35)) {  // short histories of edits, every allocation of which fails once
    b.clients(1); b.samePrec(b.precOf());
    long m = (long)r.below(12);
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; i++) { OpLine& o = b.op(0, "edit"); o.a["m"] = m; o.a["k"] = b.any(); o.a["os"] = b.any(); }
    p.knobs["sweep"] = thorough ? 400 : 150;
  } else if (prop == "C05") {
    b.clients(1); b.samePrec(b.precOf());
    int n = 1 + (int)r.below(3);
    int sz = b.small();
    for (int i = 0; i < n; i++) {
      u64 x = r.below(20);
      if (x < 5) { b.sxfer(0, b.ekind(), sz); }
      else if (x < 8) {
        int kind = streamKinds[r.below(6)];
        b.mk(0, kind, sz); p.knobs[fmt("cht%d", i)] = 1;
        b.wopen(0, i); b.put(0, i, b.nextIdx[0] - 1); b.wclose(0, i); b.ropen(0, i); b.get(0, i, kind); b.rclose(0, i);
      } else if (x < 11) { b.mk(0, b.anyKind(), sz); for (int j = 0; j < 2; j++) { OpLine& o = b.op(0, "ro"); o.a["sel"] = b.nextIdx[0] - 1; o.a["which"] = b.any(); } }
      else if (x < 13) { b.mk(0, b.anyKind(), sz); OpLine& o = b.op(0, r.chance(70) ? "clone" : "nclone"); o.a["sel"] = b.nextIdx[0] - 1; o.a["n"] = (long)r.below(3); b.index(0); }
      else if (x < 14) { OpLine& o = b.op(0, "mallocfree"); o.a["kind"] = b.anyKind(); o.a["clone"] = 1; o.a["dump"] = r.chance(50); }
      else b.edits(0, 2 + (int)r.below(4));
    }
    p.knobs["sweep"] = thorough ? 200 : 60;
  } else if (prop == "C06") {
    int n = 2 + (int)r.below(3);
    b.clients(n);
    for (int c = 0; c < n; c++) p.knobs[fmt("prec%d", c)] = r.chance(90) ? b.precOf() : r.chance(50) ? 1 : 2;
    int len = 3 + (int)r.below(6);
    for (int c = 0; c < n; c++) b.program(c, len, 7, c * 20);
    int nf = (int)r.below(3);
    for (int i = 0; i < nf; i++) { FaultLine f; int c = (int)r.below((u64)n); if (r.chance(60)) { f.kind = "alloc"; f.a["client"] = c; f.a["n"] = 1 + (long)r.below(600); f.a["len"] = 1; } else { f.kind = "crash"; f.a["client"] = c; f.a["step"] = 1 + (long)r.below(2000); } p.faults.push_back(f); }
    static const long q[] = {5, 20, 60, 150, 400, 1000};
    p.knobs["psw"] = q[r.below(6)];
    b.fine();
  } else if (prop == "C07") {
    int n = 1 + (int)r.below(3);
    b.clients(n);
    long pr = b.precOf();
    b.samePrec(pr);
    int no = 1 + (int)r.below(3);
    for (int i = 0; i < no; i++) b.mk(-1, b.anyKind(), b.size(), 3, pr);
    for (auto& o : p.ops) if (o.a["kind"] == K_INTERFACE && 0) {}
    int len = 4 + (int)r.below(10);
    for (int c = 0; c < n; c++) for (int i = 0; i < len; i++) { OpLine& o = b.op(c, "sro"); o.a["sel"] = b.any(); o.a["which"] = b.any(); }
    static const long q[] = {20, 60, 150, 400, 1000};
    p.knobs["psw"] = q[r.below(5)];
    b.fine();
  } else if (prop == "C08") {
    int n = 1 + (int)r.below(2);
    b.clients(n); b.samePrec(b.precOf());
    int no = 1 + (int)r.below(3);
    for (int i = 0; i < no; i++) b.mk(0, b.anyKind(), b.size(), 4);
    int len = 3 + (int)r.below(8);
    for (int i = 0; i < len; i++) {
      u64 x = r.below(10);
      if (x < 4) { OpLine& o = b.op(0, "clone"); o.a["sel"] = b.any(); if (n > 1 && r.chance(60)) { OpLine& g = b.op(0, "give"); g.a["to"] = 1; g.a["last"] = 1; g.a["n"] = i; } }
      else if (x < 5) { static const int nk[] = {K_RELATION, K_STATEMENT, K_GENERIC, K_INTERFACE}; int k = nk[r.below(4)]; b.mk(0, k, b.size()); OpLine& o = b.op(0, "nclone"); o.a["sel"] = b.any(); o.a["n"] = (long)r.below(4) - (r.chance(20) ? 1 : 0); o.a["kind"] = k; }
      else if (x < 8) { OpLine& o = b.op(0, "mutate"); o.a["sel"] = b.any(); o.a["leaf"] = b.any(); }
      else if (x < 9) { OpLine& o = b.op(0, "free"); o.a["sel"] = b.any(); }
      else { OpLine& o = b.op(0, "ro"); o.a["sel"] = b.any(); o.a["which"] = b.any(); }
    }
    if (r.chance(50)) b.edits(0, 1 + (int)r.below(5));
    if (n > 1) {
      OpLine& w = b.op(1, "wait"); w.a["n"] = 100; w.a["by"] = 0; w.a["v"] = 1;
      for (int i = 0; i < 4; i++) {
        u64 x = r.below(4);
        OpLine& o = b.op(1, x == 0 ? "mutate" : x == 1 ? "clone" : x == 2 ? "free" : "ro"); o.a["sel"] = b.any(); o.a["leaf"] = b.any(); o.a["which"] = b.any();
      }
      if (r.chance(40)) { FaultLine f; f.kind = "crash"; f.a["client"] = 0; f.a["step"] = 1 + (long)r.below(1500); p.faults.push_back(f); }
    }
    b.psw();
    b.fine();
  } else if (prop == "C09") {
    b.clients(1 + (int)r.below(2)); b.samePrec(b.precOf());
    for (int c = 0; c < p.nclients; c++) b.program(c, 6 + (int)r.below(10), 7, c * 30);
    b.psw();
  } else if (prop == "C10") {
    b.clients(1); b.samePrec(b.precOf());
    int n = 1 + (int)r.below(4);
    for (int i = 0; i < n; i++) {
      OpLine& o = b.op(0, "eqmut"); o.a["kind"] = b.anyKind(); o.a["os"] = b.any(); o.a["size"] = b.size(); o.a["leaf"] = b.any(); o.a["n"] = 1 + (long)r.below(5); o.a["mag"] = 3 + (long)r.below(2);
      if (r.chance(30)) o.a["perm"] = 1;
    }
    if (r.chance(40)) {
      int k = b.anyKind();
      for (int i = 0; i < 3; i++) b.mk(0, k, b.small());
      { OpLine& o = b.op(0, "clone"); o.a["sel"] = b.any(); o.a["kind"] = k; }
      for (int i = 0; i < 4; i++) { OpLine& o = b.op(0, r.chance(30) ? "mutate" : "equal"); o.a["sel"] = b.any(); o.a["sel2"] = b.any(); o.a["kind"] = k; o.a["leaf"] = b.any(); }
    }
    if (r.chance(20)) { OpLine& o = b.op(0, "mallocfree"); o.a["kind"] = b.anyKind(); o.a["clone"] = 1; }
  } else if (prop == "C11") {
    b.clients(1 + (r.chance(25) ? 1 : 0)); b.samePrec(b.precOf());
    for (int c = 0; c < p.nclients; c++) {
      int left = 4 + (int)r.below(thorough ? 50 : 30);
      bool mix = r.chance(50);
      while (left > 0) {
        int n = mix ? 1 + (int)r.below(8) : left;
        b.edits(c, n); left -= n;
        if (!mix) break;
        // the edited objects stay printable, clonable, comparable and freeable
        static const char* what[] = {"ro", "ro", "clone", "clone", "free", "equal", "sxfer", "sxfer"};
        OpLine& o = b.op(c, what[r.below(8)]); o.a["sel"] = b.any(); o.a["sel2"] = b.any(); o.a["which"] = b.any();
        if (o.name == "sxfer") { o.a["n"] = (long)r.below(3); o.a["one"] = r.chance(50); }
      }
    }
    b.psw();
    b.fine();
  } else if (prop == "C16") {
    b.clients(1 + (r.chance(20) ? 1 : 0)); b.samePrec(b.precOf());
    for (int c = 0; c < p.nclients; c++) {
      int n = 10 + (int)r.below(thorough ? 120 : 60);
      bool ov = r.chance(50);
      for (int i = 0; i < n; i++) { OpLine& o = b.op(c, "edit"); o.a["m"] = 12; o.a["k"] = b.any(); o.a["os"] = b.any(); if (ov) o.a["ov"] = 1; }
    }
    if (r.chance(10)) { FaultLine f; f.kind = "alloc"; f.a["client"] = 0; f.a["n"] = 1 + (long)r.below(200); f.a["len"] = 1; p.faults.push_back(f); }
    b.psw();
  } else if (prop == "C17") {
    b.clients(1 + (r.chance(20) ? 1 : 0)); b.samePrec(b.precOf());
    static const long m[] = {13, 13, 13, 13, 13, 13, 1, 0, 11, 2};
    for (int c = 0; c < p.nclients; c++) {
      int n = 4 + (int)r.below(thorough ? 40 : 20);
      for (int i = 0; i < n; i++) { OpLine& o = b.op(c, "edit"); o.a["m"] = m[r.below(10)]; o.a["k"] = b.any(); o.a["os"] = b.any(); }
    }
    if (r.chance(10)) { FaultLine f; f.kind = "alloc"; f.a["client"] = 0; f.a["n"] = 1 + (long)r.below(2000); f.a["len"] = 1; p.faults.push_back(f); }
    b.psw();
  } else if (prop == "C18") {
    b.clients(1 + (r.chance(20) ? 1 : 0)); b.samePrec(b.precOf());
    for (int c = 0; c < p.nclients; c++) {
      int n = 3 + (int)r.below(thorough ? 30 : 15);
      for (int i = 0; i < n; i++) { OpLine& o = b.op(c, "edit"); o.a["m"] = r.chance(75) ? 14 : r.chance(50) ? 11 : 9; o.a["k"] = b.any(); o.a["os"] = b.any(); }
    }
    if (r.chance(10)) { FaultLine f; f.kind = "alloc"; f.a["client"] = 0; f.a["n"] = 1 + (long)r.below(3000); f.a["len"] = 1; p.faults.push_back(f); }
    b.psw();
  } else if (prop == "C19") {
    b.clients(1 + (r.chance(20) ? 1 : 0)); b.samePrec(b.precOf());
    for (int c = 0; c < p.nclients; c++) {
      int n = 4 + (int)r.below(thorough ? 60 : 30);
      for (int i = 0; i < n; i++) { OpLine& o = b.op(c, "edit"); o.a["m"] = 15; o.a["k"] = b.any(); o.a["os"] = b.any(); }
    }
    if (r.chance(10)) { FaultLine f; f.kind = "alloc"; f.a["client"] = 0; f.a["n"] = 1 + (long)r.below(300); f.a["len"] = 1; p.faults.push_back(f); }
    b.psw();
  } else if (prop == "C20") {
    b.clients(1 + (r.chance(20) ? 1 : 0)); b.samePrec(b.precOf());
    for (int c = 0; c < p.nclients; c++) {
      int n = 4 + (int)r.below(thorough ? 60 : 30);
      for (int i = 0; i < n; i++) { OpLine& o = b.op(c, "edit"); o.a["m"] = r.chance(90) ? 16 : 14; o.a["k"] = b.any(); o.a["os"] = b.any(); }
    }
    if (r.chance(10)) { FaultLine f; f.kind = "alloc"; f.a["client"] = 0; f.a["n"] = 1 + (long)r.below(1500); f.a["len"] = 1; p.faults.push_back(f); }
    b.psw();
  } else if (prop == "C21") {
    b.clients(1 + (r.chance(20) ? 1 : 0)); b.samePrec(b.precOf());
    for (int c = 0; c < p.nclients; c++) {
      int n = 2 + (int)r.below(thorough ? 30 : 14);
      for (int i = 0; i < n; i++) { OpLine& o = b.op(c, "edit"); o.a["m"] = 17; o.a["k"] = b.any(); o.a["os"] = b.any(); }
    }
    if (r.chance(10)) { FaultLine f; f.kind = "alloc"; f.a["client"] = 0; f.a["n"] = 1 + (long)r.below(3000); f.a["len"] = 1; p.faults.push_back(f); }
    b.psw();
  } else if (prop == "C12") {
    if (r.chance(75)) chain(b, 1 + (int)r.below(3), true, false, 40);
    else { b.clients(1); p.knobs["prec0"] = r.chance(60) ? b.precOf() : (long)1 + (long)r.below(2); b.edits(0, 1); for (int i = 0; i < 6; i++) { OpLine& o = b.op(0, "prec"); o.a["os"] = b.any(); o.a["size"] = b.small(); o.a["k"] = b.any(); } }
  } else if (prop == "C13") {
    if (r.chance(88)) chain(b, 1 + (int)r.below(3), false, true, 30);
    else {  // what is kept in a list of extensions, and what a registry knows
      b.clients(1 + (r.chance(20) ? 1 : 0)); b.samePrec(b.precOf());
      for (int c = 0; c < p.nclients; c++) { int n = 3 + (int)r.below(thorough ? 40 : 20); for (int i = 0; i < n; i++) { OpLine& o = b.op(c, "edit"); o.a["m"] = 5 + (long)r.below(2); o.a["k"] = b.any(); o.a["os"] = b.any(); } }
      b.psw();
    }
  } else if (prop == "C14") {
    int n = 1 + (int)r.below(3);
    b.clients(n); b.samePrec(b.precOf());
    for (int c = 0; c < n; c++) {
      OpLine& o = b.op(c, "cread");
      bool via = r.chance(60);
      o.a["via"] = via; o.a["kind"] = via ? b.ekind() : streamKinds[r.below(6)];
      o.a["os"] = b.any(); o.a["size"] = b.size(); o.a["cs"] = b.any(); o.a["cn"] = r.chance(55) ? 1 : 1 + (long)r.below(6);
      b.io(o);
    }
    p.knobs["psw"] = 20;
    p.knobs["maxsteps"] = 20000000;
    p.knobs["memcap"] = 32;
  } else if (prop == "C15") {
    b.clients(1); b.samePrec(r.chance(85) ? b.precOf() : 1 + (long)r.below(2));
    u64 x = r.below(4);
    if (x == 0) { for (int i = 0; i < 4; i++) { OpLine& o = b.op(0, "mallocfree"); o.a["kind"] = b.anyKind(); o.a["clone"] = r.chance(60); o.a["dump"] = r.chance(60); } b.edits(0, 6); }
    else if (x == 1) { p.knobs["maxsteps"] = 20000000; p.knobs["memcap"] = 32; OpLine& o = b.op(0, "cread"); bool via = r.chance(60); o.a["via"] = via; o.a["kind"] = via ? b.ekind() : streamKinds[r.below(6)]; o.a["os"] = b.any(); o.a["size"] = b.small(); o.a["cs"] = b.any(); o.a["cn"] = 1 + (long)r.below(3); }
    else b.program(0, 8 + (int)r.below(8), 7, 0);
    if (r.chance(10)) { FaultLine f; f.kind = "alloc"; f.a["client"] = 0; f.a["n"] = 1 + (long)r.below(300); f.a["len"] = 1; p.faults.push_back(f); }
  }
  return p;
}

// ---------------------------------------------------------------- judging ----
static Verdict from(const RunResult& R, const Plan& p) {
  Verdict v; v.trace = H(R.trace, R.outcome); v.execs = 1; v.plan = p;
  if (R.violated) {
    v.violated = true; v.cls = R.cls; v.msg = R.msg;
    v.plan.explicitSched = true; v.plan.pres = R.pres;
  }
  return v;
}
static str clientText(const ClientResult& c) {
  str s = fmt("state %d exit %d allocs %llu\n", c.state, c.exitCode, (unsigned long long)c.allocs);
  for (auto& t : c.transcript) s += t + "\n";
  return s + "--stderr--\n" + c.err + "--stdout--\n" + c.out;
}
static str firstDiff(const str& a, const str& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = i > 60 ? i - 60 : 0;
  return fmt("'%s' vs '%s'", shortText(a.substr(s, 140)).c_str(), shortText(b.substr(s, 140)).c_str());
}
static Plan solo(const Plan& p, int c) {
  Plan q = p;
  q.ops.clear(); q.faults.clear(); q.pres.clear(); q.explicitSched = true;
  for (auto& o : p.ops) if (o.client == c || o.client < 0) q.ops.push_back(o);
  for (auto& f : p.faults) if (f.get("client", -1) == c && f.kind != "crash") q.faults.push_back(f);
  return q;
}
// choose k of n positions, deterministic, always including both ends
static std::vector<u64> positions(u64 n, u64 k, u64 seed) {
  std::set<u64> s;
  if (n <= k) { for (u64 i = 0; i < n; i++) s.insert(i); }
  else { s.insert(0); s.insert(n - 1); for (u64 i = 0; s.size() < k && i < 4 * k; i++) s.insert(H(seed, 61, i) % n); }
  return std::vector<u64>(s.begin(), s.end());
}

Verdict judge(const Plan& p0) {
  Plan p = p0;
  long sweep = p.knob("sweep", 0);
  RunResult R = runPlan(p);
  Verdict v = from(R, p);
  if (v.violated) { v.plan.knobs.erase("sweep"); return v; }
  u64 execs = 1;
  auto give = [&](Verdict w) { w.execs = execs; w.plan.knobs.erase("sweep"); return w; };
  if (p.prop == "C06" || p.prop == "C07") {
    if (p.nclients > 1)
      for (int c = 0; c < p.nclients; c++) {
        if (R.clients[(size_t)c].state == CRASHED) continue;
        RunResult S = runPlan(solo(p, c)); execs++;
        Plan base = p; base.explicitSched = true; base.pres = R.pres;
        if (S.violated) { Verdict w = from(S, solo(p, c)); return give(w); }
        str a = clientText(R.clients[(size_t)c]), s = clientText(S.clients[(size_t)c]);
        stats.misc["checks"]++;
        if (a != s) {
          Verdict w; w.violated = true; w.cls = "interference"; w.plan = base;
          w.msg = fmt("client %d obtains something else than alone: ", c) + firstDiff(a, s);
          return give(w);
        }
      }
  } else if (p.prop == "C15") {
    static const long fills[] = {0, 255, 256, 257, 258};
    long f0 = p.knob("fill", 0xA5);
    for (int i = 0; i < 6; i++) {
      Plan q = p;
      if (i < 5) q.knobs["fill"] = fills[i]; else { q.knobs["fill"] = f0; q.knobs["pad"] = 1; }
      RunResult S = runPlan(q); execs++;
      if (S.violated) return give(from(S, q));
      for (size_t c = 0; c < R.clients.size(); c++) {
        str a = clientText(R.clients[c]), s = clientText(S.clients[c]);
        stats.misc["checks"]++;
        if (a != s) {
          Verdict w; w.violated = true; w.cls = "memory-dependent"; w.plan = p;
          w.msg = fmt("result depends on previous memory content (fill %ld, pad %ld): ", q.knob("fill", 0xA5), q.knob("pad")) + firstDiff(a, s);
          return give(w);
        }
      }
    }
  } else if (sweep > 0 && p.prop == "C05") {
    for (int c = 0; c < p.nclients; c++)
      for (u64 n : positions(R.clients[(size_t)c].allocs, (u64)sweep, p.seed)) {
        Plan q = p; q.knobs.erase("sweep");
        FaultLine f; f.kind = "alloc"; f.a["client"] = c; f.a["n"] = (long)n + 1; f.a["len"] = H(p.seed, 62, n) % 4 == 0 ? 1000000 : 1;
        q.faults.push_back(f);
        RunResult S = runPlan(q); execs++;
        if (S.violated) return give(from(S, q));
      }
  } else if (sweep > 0 && (p.prop == "C03" || p.prop == "C04")) {
    static const long rk[] = {6, 6, 6, 1, 4, 5, 7}, wk[] = {1, 2, 2, 3, 4, 5};
    bool wr = p.prop == "C04";
    std::map<int, u64> bytes;
    for (auto& s : R.chanBytes) bytes[s.first] = s.second;
    for (auto& kv : bytes)
      for (u64 n : positions(kv.second + 1, (u64)sweep, p.seed)) {
        Plan q = p; q.knobs.erase("sweep");
        FaultLine f; f.kind = wr ? "write" : "read"; f.a["ch"] = kv.first; f.a["at"] = (long)n;
        u64 h = H(p.seed, 63, n);
        f.a["kind"] = wr ? wk[h % 6] : rk[h % 7];
        f.a["sticky"] = f.a["kind"] == 4 || f.a["kind"] == 5 ? 0 : (h >> 8) % 5 != 0;
        if (wr && p.knob("crashes")) break;
        q.faults.push_back(f);
        RunResult S = runPlan(q); execs++;
        if (S.violated) return give(from(S, q));
      }
    u64 steps = R.clients[0].steps;
    bool crash = wr ? p.knob("crashes") || sweep > 30 : true;
    if (crash)
      for (u64 n : positions(steps, wr ? (u64)sweep : 4, p.seed ^ 5)) {
        Plan q = p; q.knobs.erase("sweep");
        FaultLine f; f.kind = "crash"; f.a["client"] = 0; f.a["step"] = (long)n + 1;
        q.faults.push_back(f);
        RunResult S = runPlan(q); execs++;
        if (S.violated) return give(from(S, q));
      }
  }
  v.execs = execs;
  return v;
}
}  // namespace sim
