// Edit operations against a plain list-and-matrix reference. Every operation
// works on the client's objects; the reference content of each object is its
// content tree, so whatever an edit does to any other object shows as well.
#include "ops.h"
#include <algorithm>
#include <osl/extensions/annotation.h>
#include <osl/extensions/region.h>

namespace sim {
void checkOthers(Obj* changed, const char* cls, const str& what);
str withFile(const std::function<void(FILE*)>& f);
void intStep(Rng& g, int over);
void intFree();

// ------------------------------------------------- decimal integers ----
// Values are decimal texts, so the reference shares no arithmetic with the
// library or with GMP.
static str dtrim(const str& s) { size_t i = 0; while (i + 1 < s.size() && s[i] == '0') i++; return s.substr(i); }
static bool dneg(const str& s) { return !s.empty() && s[0] == '-'; }
static str dmag(const str& s) { return dneg(s) ? s.substr(1) : s; }
static int mcmp(const str& a, const str& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; int c = a.compare(b); return c < 0 ? -1 : c > 0; }
static str madd(const str& a, const str& b) {
  str r; int c = 0;
  for (size_t i = 0; i < std::max(a.size(), b.size()) || c; i++) {
    int x = c + (i < a.size() ? a[a.size() - 1 - i] - '0' : 0) + (i < b.size() ? b[b.size() - 1 - i] - '0' : 0);
    r += (char)('0' + x % 10); c = x / 10;
  }
  std::reverse(r.begin(), r.end());
  return r.empty() ? "0" : dtrim(r);
}
static str msub(const str& a, const str& b) {  // a >= b
  str r; int c = 0;
  for (size_t i = 0; i < a.size(); i++) {
    int x = a[a.size() - 1 - i] - '0' - c - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0);
    c = x < 0; if (c) x += 10;
    r += (char)('0' + x);
  }
  std::reverse(r.begin(), r.end());
  return dtrim(r);
}
static str sgn(bool n, const str& m) { return n && m != "0" ? "-" + m : m; }
str decNeg(const str& a) { return sgn(!dneg(a), dmag(a)); }
str decAdd(const str& a, const str& b) {
  str x = dmag(a), y = dmag(b);
  if (dneg(a) == dneg(b)) return sgn(dneg(a), madd(x, y));
  int c = mcmp(x, y);
  if (c == 0) return "0";
  return c > 0 ? sgn(dneg(a), msub(x, y)) : sgn(dneg(b), msub(y, x));
}
str decSub(const str& a, const str& b) { return decAdd(a, decNeg(b)); }
str decMul(const str& a, const str& b) {
  str x = dmag(a), y = dmag(b);
  std::vector<int> v(x.size() + y.size(), 0);
  for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < y.size(); j++) v[i + j] += (x[x.size() - 1 - i] - '0') * (y[y.size() - 1 - j] - '0');
  for (size_t i = 0; i + 1 < v.size(); i++) { v[i + 1] += v[i] / 10; v[i] %= 10; }
  str r; for (size_t i = v.size(); i-- > 0;) r += (char)('0' + v[i]);
  return sgn(dneg(a) != dneg(b), dtrim(r));
}
int decCmp(const str& a, const str& b) {
  if (dneg(a) != dneg(b)) return dneg(a) ? -1 : 1;
  int c = mcmp(dmag(a), dmag(b));
  return dneg(a) ? -c : c;
}
// quotient towards minus infinity and its remainder (sign of the divisor), as schoolbook division
void decFloorDiv(const str& a, const str& b, str* q, str* r) {
  str x = dmag(a), y = dmag(b), quo, rem = "0";
  for (char c : x) { rem = dtrim((rem == "0" ? str() : rem) + c); int d = 0; while (mcmp(rem, y) >= 0) { rem = msub(rem, y); d++; } quo += (char)('0' + d); }
  quo = dtrim(quo);
  if (dneg(a) == dneg(b)) { *q = quo; *r = sgn(dneg(b), rem); return; }
  if (rem != "0") { quo = madd(quo, "1"); rem = msub(y, rem); }
  *q = sgn(true, quo); *r = sgn(dneg(b), rem);
}
bool decSmall(const str& a) { return decCmp(dmag(a), "2305843009213693952") <= 0; }  // 2^61

// ------------------------------------------------------------ relations ----
struct Part {
  int type = -1, prec = 0, rows = 0, cols = 0, out = -1, in = -1, loc = -1, par = -1;
  std::vector<std::vector<str>> m;
};
typedef std::vector<Part> Rel;
static Rel toRel(const Node& n) {
  Rel r;
  for (auto& p : n.k) {
    Part q;
    for (auto& f : p.k) {
      if (f.tag == "row") {
        std::vector<str> row; str cur_;
        for (size_t i = 1; i < f.val.size(); i++) { char c = f.val[i]; if (c == ' ' || c == ']') { if (!cur_.empty()) row.push_back(cur_); cur_.clear(); } else cur_ += c; }
        q.m.push_back(row);
        continue;
      }
      int v = atoi(f.val.c_str());
      if (f.tag == "type") q.type = v; else if (f.tag == "precision") q.prec = v; else if (f.tag == "rows") q.rows = v; else if (f.tag == "columns") q.cols = v;
      else if (f.tag == "output") q.out = v; else if (f.tag == "input") q.in = v; else if (f.tag == "local") q.loc = v; else if (f.tag == "params") q.par = v;
    }
    if (q.m.empty() && q.cols == 0) q.m.resize((size_t)std::max(0, q.rows));
    r.push_back(q);
  }
  return r;
}
static Node toNode(const Rel& r) {
  Node n("relation");
  for (auto& q : r) {
    Node p("part");
    auto add = [&](const char* t, int v) { p.add(Node(t, fmt("%d", v))); };
    add("type", q.type); add("precision", q.prec); add("rows", q.rows); add("columns", q.cols);
    add("output", q.out); add("input", q.in); add("local", q.loc); add("params", q.par);
    if (q.rows > 0 && q.cols == 0) p.add(Node("m", "(NULL)"));
    else for (auto& row : q.m) { str s; for (size_t i = 0; i < row.size(); i++) s += (i ? " " : "") + row[i]; p.add(Node("row", "[" + s + "]")); }
    n.add(p);
  }
  return n;
}
// can be printed and read back: dimensions add up, one type, flags 0/1, accesses have their array id row
static bool relOk(const Rel& r) {
  for (auto& p : r) {
    if (p.type < 0 || p.type == OSL_TYPE_ACCESS || p.type != r[0].type || p.prec != r[0].prec) return false;
    if (p.out < 0 || p.in < 0 || p.loc < 0 || p.par < 0 || p.out + p.in + p.loc + p.par + 2 != p.cols) return false;
    if (p.type == OSL_TYPE_DOMAIN && p.in != 0) return false;
    if (p.type == OSL_TYPE_CONTEXT && (p.in != 0 || p.out != 0)) return false;
    for (auto& row : p.m) if (row.empty() || (row[0] != "0" && row[0] != "1")) return false;
    if (p.type > OSL_TYPE_ACCESS) {
      if (p.rows < 1 || p.out < 1) return false;
      for (int j = 0; j + 1 < p.cols; j++) if (p.m[0][(size_t)j] != (j == 1 ? "-1" : "0")) return false;
      const str& id = p.m[0][(size_t)p.cols - 1];
      if (dneg(id) || id.size() > 3 || id == "0") return false;
      for (int i = 1; i < p.rows; i++) if (p.m[(size_t)i][1] != "0") return false;
    }
  }
  return true;
}
static bool treeOk(const Node& n) {
  if (n.tag == "relation") return relOk(toRel(n));
  if (n.tag == "s" && (n.val.size() < 3 || n.val.find_first_of(" \t\n#") != str::npos)) return false;
  for (auto& c : n.k) if (!treeOk(c)) return false;
  return true;
}
static bool printable(int kind, const Node& n) {
  if (kind == K_STRINGS && n.k.empty()) return false;
  if (kind == K_RELATION && n.k.empty()) return false;
  return treeOk(n);
}

// ------------------------------------------------------------- plumbing ----
static Node see(int kind, void* p) { Quiet q; return kinds[kind].walk(p, nullptr); }
static int prec() { return clientPrec(*rc->plan, cur->id); }
static std::vector<Obj*> pool(int kind) {
  std::vector<Obj*> v;
  for (auto& o : me().objs) if (o.kind == kind && (!o.odd || o.edited)) v.push_back(&o);
  return v;
}
static Obj* build(int kind, int size, bool plain = false) {
  Recipe r; r.os = H(me().opSeed, (u64)me().built++); r.size = size; r.prec = prec(); r.mag = 4; r.plain = plain; r.valid = true;
  void* p = buildObj(kind, r);
  Obj* o = newObj(kind, p, see(kind, p));
  o->rec = r;
  return o;
}
static Obj* have(int kind, Rng& g, const std::function<bool(Obj*)>& ok = nullptr, Obj* other = nullptr) {
  auto v = pool(kind);
  v.erase(std::remove_if(v.begin(), v.end(), [&](Obj* o) { return o == other || o->tree.count() > 400 || (ok && !ok(o)); }), v.end());
  if (v.empty() || (v.size() < 5 && g.chance(25))) return build(kind, (int)g.below(4));
  return v[g.below(v.size())];
}
static Obj* adopt(int kind, void* p, const Node& want, const str& what) {  // a result of the library
  checkSame(see(kind, p), want, "edit-differs", what);
  Obj* o = newObj(kind, p, want);
  o->edited = true; o->odd = !printable(kind, want);
  return o;
}
static void now_(Obj* o, const Node& want, const str& what) {
  checkSame(see(o->kind, o->p), want, "edit-differs", what);
  o->tree = want; o->rec.valid = false; o->edited = true; o->odd = !printable(o->kind, want);
  checkOthers(o, "edit-leaks", "after " + what);
  cover.ops["edit-" + what.substr(0, what.find('('))]++;
}
static void unchanged(Obj* o, const str& what) { checkUnchanged(o, "edit-changed-operand", "operand of " + what); }
template <class F> static void refused(const str& what, F f) {
  me().exitOk = true; me().exitWhy = what;
  cover.ops["edit-refused"]++;
  LIBV(f());
  me().exitOk = false;
  fail("edit-accepted", what + " was accepted");
}
static bool rare(Rng& g) { return g.below(100) < 2; }
static void expectNum(long got, long want, const str& what) { rc->checks++; if (got != want) fail("edit-differs", fmt("%s: %ld instead of %ld", what.c_str(), got, want)); }
static str coef(Rng& r) { G g(r.next(), 2, prec()); g.magnitude = 4; return genCoef(g); }
static Obj* rawRel(int rows, int cols, Rng& g, int pr) {
  Quiet q;
  osl_relation_p r = osl_relation_pmalloc(pr, rows, cols);
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) coefSet(pr, &r->m[i][j], j == 0 ? (g.chance(50) ? "1" : "0") : coef(g));
  Obj* o = newObj(K_RELATION, r, walkRelation(r, nullptr));
  o->odd = o->edited = true;
  return o;
}
static Obj* rawVec(int size, Rng& g, int pr) {
  Quiet q;
  osl_vector_p v = osl_vector_pmalloc(pr, size);
  for (int j = 0; j < size; j++) coefSet(pr, &v->v[j], j == 0 ? (g.chance(50) ? "1" : "0") : coef(g));
  return newObj(K_VECTOR, v, kinds[K_VECTOR].walk(v, nullptr));
}
static std::vector<str> vecOf(const Node& n) { std::vector<str> v; for (auto& c : n.k) if (c.tag == "v") v.push_back(c.val); return v; }
static Node vecNode(int pr, const std::vector<str>& v) { Node n("vector"); n.add(Node("precision", fmt("%d", pr))); n.add(Node("size", fmt("%zu", v.size()))); for (auto& x : v) n.add(Node("v", x)); return n; }
static void maybeDrop(Obj* o, Rng& g, int keepPct = 12) { if (!g.chance(keepPct)) freeObj(o); }
static bool smallAll(const std::vector<str>& v) { for (auto& x : v) if (!decSmall(x)) return false; return true; }

// rows and columns of one part of a relation
static void mMatrix(Rng& g) {
  Obj* o = have(K_RELATION, g, [](Obj* x) { return x->p != nullptr; });
  Rel R = toRel(o->tree);
  if (R.empty()) return;
  size_t pi = g.below(R.size());
  Part& P = R[pi];
  osl_relation_p r = (osl_relation_p)o->p;
  for (size_t i = 0; i < pi; i++) r = r->next;
  u64 op = g.below(16);
  if (P.rows > 14 || P.cols > 16) op = 8 + g.below(2);
  bool mp = P.prec == OSL_PRECISION_MP;
  switch (op) {
    case 0: case 1: case 4: case 5: {  // a vector replaces, is inserted as, is added to, is subtracted from a row
      static const char* nm[] = {"replace_vector", "insert_vector", "", "", "add_vector", "sub_vector"};
      Obj* v = rawVec(P.cols, g, P.prec);
      std::vector<str> V = vecOf(v->tree);
      ConstArg ca(v);
      osl_vector_p vp = (osl_vector_p)v->p;
      if (op != 1 && P.rows == 0) { freeObj(v); return; }
      if (rare(g)) {
        int bad = g.chance(50) ? P.rows + (op == 1) + (int)g.below(3) : op == 1 ? -2 : -1;
        refused(fmt("%s at row %d of %d", nm[op], bad, P.rows), [&] { if (op == 0) osl_relation_replace_vector(r, vp, bad); else if (op == 1) osl_relation_insert_vector(r, vp, bad); else if (op == 4) osl_relation_add_vector(r, vp, bad); else osl_relation_sub_vector(r, vp, bad); });
      }
      if (op == 0) { size_t row = g.below((u64)P.rows); LIBV(osl_relation_replace_vector(r, vp, (int)row)); P.m[row] = V; }
      else if (op == 1) {
        int row = (int)g.below((u64)P.rows + 2) - 1;
        LIBV(osl_relation_insert_vector(r, vp, row));
        if (row == -1) row = P.rows;
        P.m.insert(P.m.begin() + row, V); P.rows++;
      } else {
        size_t row = g.below((u64)P.rows);
        if ((!mp && (!smallAll(V) || !smallAll(P.m[row]))) || P.cols == 0 || dmag(P.m[row][0]).size() > 9) { freeObj(v); return; }
        if (op == 4) LIBV(osl_relation_add_vector(r, vp, (int)row)); else LIBV(osl_relation_sub_vector(r, vp, (int)row));
        std::vector<str>& M = P.m[row];
        if (M[0] == "0") M[0] = V[0];
        for (size_t j = 1; j < M.size(); j++) M[j] = op == 4 ? decAdd(M[j], V[j]) : decSub(M[j], V[j]);
      }
      unchanged(v, nm[op]);
      now_(o, toNode(R), fmt("%s(part %zu)", nm[op], pi));
      freeObj(v);
      break;
    }
    case 2: {
      int row = (int)g.below((u64)P.rows + 2) - 1;
      LIBV(osl_relation_insert_blank_row(r, row));
      if (row == -1) row = P.rows;
      P.m.insert(P.m.begin() + row, std::vector<str>((size_t)P.cols, "0")); P.rows++;
      now_(o, toNode(R), fmt("insert_blank_row(%d)", row));
      break;
    }
    case 3: {
      int col = (int)g.below((u64)P.cols + 1);
      if (rare(g)) { int bad = g.chance(50) ? -1 : P.cols + 1; refused(fmt("insert_blank_column %d of %d", bad, P.cols), [&] { osl_relation_insert_blank_column(r, bad); }); }
      LIBV(osl_relation_insert_blank_column(r, col));
      for (auto& m : P.m) m.insert(m.begin() + col, "0");
      P.cols++;
      now_(o, toNode(R), fmt("insert_blank_column(%d)", col));
      break;
    }
    case 6: case 7: {  // rows of another relation (or of itself) are inserted / replace
      bool self = op == 7 && g.chance(12) && P.rows <= 7;
      int n = (int)g.below(4);
      if (op == 6) n = (int)g.below((u64)std::min(P.rows, 3) + 1);
      Obj* s = self ? nullptr : rawRel(n, P.cols, g, P.prec);
      auto src = self ? P.m : toRel(s->tree)[0].m;
      osl_relation_p sp = self ? r : (osl_relation_p)s->p;
      if (op == 6) {
        if (rare(g)) { int bad = g.chance(50) ? P.rows - n + 1 : -1; refused(fmt("replace_constraints of %d rows at %d of %d", n, bad, P.rows), [&] { osl_relation_replace_constraints(r, sp, bad); }); }
        int row = (int)g.below((u64)(P.rows - n) + 1);
        if (s) me().constArgs.push_back(s);
        LIBV(osl_relation_replace_constraints(r, sp, row));
        if (s) me().constArgs.pop_back();
        for (int i = 0; i < n; i++) P.m[(size_t)(row + i)] = src[(size_t)i];
        unchanged(s, "replace_constraints");
        now_(o, toNode(R), fmt("replace_constraints(%d)", row));
      } else {
        if (rare(g)) { int bad = g.chance(50) ? P.rows + 1 : -2; refused(fmt("insert_constraints at %d of %d", bad, P.rows), [&] { osl_relation_insert_constraints(r, sp, bad); }); }
        int row = (int)g.below((u64)P.rows + 2) - 1;
        if (s) me().constArgs.push_back(s);
        LIBV(osl_relation_insert_constraints(r, sp, row));
        if (s) me().constArgs.pop_back();
        if (row == -1) row = P.rows;
        P.m.insert(P.m.begin() + row, src.begin(), src.end()); P.rows = (int)P.m.size();
        if (s) unchanged(s, "insert_constraints");
        now_(o, toNode(R), fmt("insert_constraints(%d%s)", row, self ? ", itself" : ""));
      }
      if (s) maybeDrop(s, g);
      break;
    }
    case 8: {
      if (P.rows == 0) return;
      if (rare(g)) { int bad = g.chance(50) ? P.rows : -1; refused(fmt("remove_row %d of %d", bad, P.rows), [&] { osl_relation_remove_row(r, bad); }); }
      int row = (int)g.below((u64)P.rows);
      LIBV(osl_relation_remove_row(r, row));
      P.m.erase(P.m.begin() + row); P.rows--;
      now_(o, toNode(R), fmt("remove_row(%d)", row));
      break;
    }
    case 9: {
      if (P.cols == 0) return;
      if (rare(g)) { int bad = g.chance(50) ? P.cols : -1; refused(fmt("remove_column %d of %d", bad, P.cols), [&] { osl_relation_remove_column(r, bad); }); }
      int col = (int)g.below((u64)P.cols);
      if (P.cols < 2) return;
      LIBV(osl_relation_remove_column(r, col));
      for (auto& m : P.m) m.erase(m.begin() + col);
      P.cols--;
      now_(o, toNode(R), fmt("remove_column(%d)", col));
      break;
    }
    case 10: {
      if (P.rows == 0) return;
      if (rare(g)) { int bad = P.rows && g.chance(50) ? P.rows : -1, other = bad == -1 ? P.rows : 0; bool fl = g.chance(50); refused(fmt("swap_constraints %d %d of %d", bad, other, P.rows), [&] { osl_relation_swap_constraints(r, fl ? bad : other, fl ? other : bad); }); }
      int a = (int)g.below((u64)P.rows), b = (int)g.below((u64)P.rows);
      LIBV(osl_relation_swap_constraints(r, a, b));
      std::swap(P.m[(size_t)a], P.m[(size_t)b]);
      now_(o, toNode(R), fmt("swap_constraints(%d,%d)", a, b));
      break;
    }
    case 11: {
      bool self = g.chance(10) && P.cols <= 8;
      Obj* s = self ? nullptr : rawRel(P.rows, (int)g.below(4), g, P.prec);
      osl_relation_p sp = self ? r : (osl_relation_p)s->p;
      auto src = self ? P.m : toRel(s->tree)[0].m;
      int nc = self ? P.cols : toRel(s->tree)[0].cols;
      int col = (int)g.below((u64)P.cols + 1);
      if (rare(g)) { int bad = g.chance(50) ? P.cols + 1 : -1; refused(fmt("insert_columns at %d of %d", bad, P.cols), [&] { osl_relation_insert_columns(r, sp, bad); }); }
      if (s) me().constArgs.push_back(s);
      LIBV(osl_relation_insert_columns(r, sp, col));
      if (s) me().constArgs.pop_back();
      for (size_t i = 0; nc > 0 && i < P.m.size(); i++) P.m[i].insert(P.m[i].begin() + col, src[i].begin(), src[i].end());
      P.cols += nc;
      if (s) { unchanged(s, "insert_columns"); }
      now_(o, toNode(R), fmt("insert_columns(%d of %d%s)", col, nc, self ? ", itself" : ""));
      if (s) maybeDrop(s, g);
      break;
    }
    case 12: {
      Obj* v = rawVec(P.cols, g, P.prec);
      Part W; W.prec = P.prec; W.cols = P.cols; W.m = P.m; W.m.push_back(vecOf(v->tree)); W.rows = P.rows + 1;
      osl_relation_p c;
      { ConstArg ca(v), cb(o); c = LIB(osl_relation_concat_vector(r, (osl_vector_p)v->p)); }
      unchanged(v, "concat_vector"); unchanged(o, "concat_vector");
      maybeDrop(adopt(K_RELATION, c, toNode({W}), "concat_vector"), g, 30);
      freeObj(v);
      break;
    }
    case 13: {
      Obj* s = rawRel((int)g.below(4), P.cols, g, P.prec);
      Part W; W.prec = P.prec; W.cols = P.cols; W.m = P.m;
      Part S0 = toRel(s->tree)[0];
      for (auto& x : S0.m) W.m.push_back(x);
      W.rows = (int)W.m.size();
      osl_relation_p c;
      { ConstArg ca(s), cb(o); c = LIB(osl_relation_concat_constraints(r, (osl_relation_p)s->p)); }
      unchanged(s, "concat_constraints"); unchanged(o, "concat_constraints");
      maybeDrop(adopt(K_RELATION, c, toNode({W}), "concat_constraints"), g, 30);
      { ConstArg ca(o); c = LIB(g.chance(50) ? osl_relation_concat_constraints(nullptr, (osl_relation_p)o->p) : osl_relation_concat_constraints((osl_relation_p)o->p, nullptr)); }
      freeObj(adopt(K_RELATION, c, o->tree, "concat_constraints with nothing"));
      freeObj(s);
      break;
    }
    case 14: {
      Obj* v = rawVec(1 + (int)g.below(6), g, prec());
      Part W; W.prec = prec(); W.rows = 1; W.m.push_back(vecOf(v->tree)); W.cols = (int)W.m[0].size();
      osl_relation_p c;
      { ConstArg ca(v); c = LIB(osl_relation_from_vector((osl_vector_p)v->p)); }
      unchanged(v, "from_vector");
      maybeDrop(adopt(K_RELATION, c, toNode({W}), "from_vector"), g, 30);
      freeObj(v);
      break;
    }
    case 15: {  // a fresh matrix is all zeros at the configured precision
      Part W; W.rows = (int)g.below(4); W.cols = 1 + (int)g.below(6); W.prec = prec();
      W.m.assign((size_t)W.rows, std::vector<str>((size_t)W.cols, "0"));
      osl_relation_p c = LIB(g.chance(50) ? osl_relation_malloc(W.rows, W.cols) : osl_relation_pmalloc(prec(), W.rows, W.cols));
      maybeDrop(adopt(K_RELATION, c, toNode({W}), "relation_malloc"), g, 30);
      break;
    }
  }
  say("edit matrix " + fmt("%d", (int)op));
}
// unions of relations
static void mUnion(Rng& g) {
  Obj* o = have(K_RELATION, g, [](Obj* x) { return x->tree.k.size() < 7; });
  Rel R = toRel(o->tree);
  u64 op = g.below(12);
  osl_relation_p r = (osl_relation_p)o->p;
  switch (op) {
    case 0: {  // add: the second is handed over
      Obj* s = have(K_RELATION, g, nullptr, o);
      if (s == o) return;
      Rel S1 = toRel(s->tree);
      for (auto& p : S1) R.push_back(p);
      osl_relation_p sp = (osl_relation_p)s->p;
      eraseObj(s);
      osl_relation_p h = r;
      LIBV(osl_relation_add(&h, sp));
      o->p = h;
      now_(o, toNode(R), "relation_add");
      break;
    }
    case 1: {
      Obj* s = g.chance(20) ? o : have(K_RELATION, g);
      Rel S1 = toRel(s->tree);
      for (auto& p : S1) R.push_back(p);
      osl_relation_p c;
      { ConstArg ca(s), cb(o); c = LIB(osl_relation_union(r, (osl_relation_p)s->p)); }
      unchanged(s, "union"); unchanged(o, "union");
      maybeDrop(adopt(K_RELATION, c, toNode(R), "union"), g, 40);
      break;
    }
    case 2: case 3: {
      if (R.empty()) return;
      size_t i = g.below(R.size());
      osl_relation_p q = r; for (size_t j = 0; j < i; j++) q = q->next;
      if (g.chance(10)) {  // not a part of it: nothing happens
        Obj* s = have(K_RELATION, g, nullptr, o);
        if (s == o) return;
        LIBV(osl_relation_remove_part(&r, (osl_relation_p)s->p));
        o->p = r;
        unchanged(s, "remove_part");
        now_(o, toNode(R), "remove_part(foreign)");
        break;
      }
      LIBV(osl_relation_remove_part(&r, q));
      o->p = r;
      R.erase(R.begin() + (long)i);
      now_(o, toNode(R), fmt("remove_part(%zu)", i));
      break;
    }
    case 4: {
      static const int ty[] = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
      int t = ty[g.below(6)];
      LIBV(osl_relation_set_type(r, t));
      for (auto& p : R) p.type = t;
      now_(o, toNode(R), "set_type");
      break;
    }
    case 5: {
      if (R.empty()) return;
      int a = (int)g.below(4), b = (int)g.below(4), c = (int)g.below(3), d = (int)g.below(3);
      bool one = g.chance(50);
      if (one) {
        size_t i = g.below(R.size());
        osl_relation_p q = r; for (size_t j = 0; j < i; j++) q = q->next;
        LIBV(osl_relation_set_attributes_one(q, a, b, c, d));
        R[i].out = a; R[i].in = b; R[i].loc = c; R[i].par = d;
      } else {
        LIBV(osl_relation_set_attributes(r, a, b, c, d));
        for (auto& p : R) { p.out = a; p.in = b; p.loc = c; p.par = d; }
      }
      now_(o, toNode(R), one ? "set_attributes_one" : "set_attributes");
      break;
    }
    case 6: {
      int n = (int)g.below(R.size() + 2) - 1;
      if (rare(g)) { int bad = (int)R.size() + 1; refused("nclone of more parts than there are", [&] { r = osl_relation_nclone(r, bad); }); }
      osl_relation_p c;
      { ConstArg ca(o); c = LIB(osl_relation_nclone(r, n)); }
      unchanged(o, "nclone");
      Rel W = R; if (n >= 0) W.resize((size_t)n);
      maybeDrop(adopt(K_RELATION, c, toNode(W), "relation_nclone"), g, 30);
      break;
    }
    case 7: {
      int mn = INT_MAX; for (auto& p : R) mn = std::min(mn, p.rows);
      if (R.empty()) return;
      int n = (int)g.below((u64)mn + 2) - 1;
      if (rare(g)) { int bad = mn + 1; refused("clone_nconstraints of more rows than there are", [&] { r = osl_relation_clone_nconstraints(r, bad); }); }
      osl_relation_p c;
      { ConstArg ca(o); c = LIB(osl_relation_clone_nconstraints(r, n)); }
      unchanged(o, "clone_nconstraints");
      Rel W = R; if (n >= 0) for (auto& p : W) { p.m.resize((size_t)n); p.rows = n; }
      maybeDrop(adopt(K_RELATION, c, toNode(W), fmt("clone_nconstraints(%d)", n)), g, 30);
      break;
    }
    case 8: case 9: {  // more output dimensions
      int mx = 0; bool okk = !R.empty();
      for (auto& p : R) { mx = std::max(mx, p.out); if (p.out < 0 || p.out + 1 > p.cols || p.prec != R[0].prec || p.rows > 10 || p.cols > 12) okk = false; }
      if (!okk) return;
      int d = mx + (int)g.below(4);
      if (rare(g) && mx > 0) { refused("extend_output to fewer dimensions", [&] { r = osl_relation_extend_output(r, mx - 1); }); }
      osl_relation_p c;
      { ConstArg ca(o); c = LIB(osl_relation_extend_output(r, d)); }
      unchanged(o, "extend_output");
      Rel W = R;
      for (auto& p : W) {
        int off = d - p.out;
        for (auto& m : p.m) m.insert(m.begin() + p.out + 1, (size_t)off, "0");
        p.cols += off;
        for (int i = 0; i < off; i++) { std::vector<str> row((size_t)p.cols, "0"); row[(size_t)(p.out + 1 + i)] = "-1"; p.m.push_back(row); }
        p.rows += off; p.out = d;
      }
      maybeDrop(adopt(K_RELATION, c, toNode(W), fmt("extend_output(%d)", d)), g, 40);
      break;
    }
    case 10: {
      expectNum(LIB(osl_relation_nb_components(r)), (long)R.size(), "nb_components");
      bool acc = !R.empty() && (R[0].type == OSL_TYPE_ACCESS || R[0].type == OSL_TYPE_READ || R[0].type == OSL_TYPE_WRITE || R[0].type == OSL_TYPE_MAY_WRITE);
      expectNum(LIB(osl_relation_is_access(r)) != 0, acc, "is_access");
      if (acc && relOk(R)) {
        bool one = true;
        for (auto& p : R) if (p.m[0].back() != R[0].m[0].back()) one = false;
        expectNum(LIB(osl_relation_get_array_id(r)), one ? atoi(R[0].m[0].back().c_str()) : OSL_UNDEFINED, "array id");
      }
      break;
    }
    case 11: {  // precision of one part only
      if (R.empty()) return;
      bool okk = true;
      for (auto& p : R) for (auto& m : p.m) if (!smallAll(m)) okk = false;
      if (!okk) return;
      static const int ps[] = {OSL_PRECISION_SP, OSL_PRECISION_DP, OSL_PRECISION_MP};
      int np = ps[g.below(3)];
      LIBV(osl_relation_set_precision(np, r));
      for (auto& p : R) p.prec = np;
      now_(o, toNode(R), "set_precision");
      if (g.chance(50)) {  // from one part on only: the parts differ then
        size_t k = g.below(R.size()), i = 0;
        int nq = ps[g.below(3)];
        osl_relation_p part = r;
        for (; i < k; i++) part = part->next;
        LIBV(osl_relation_set_precision(nq, part));
        for (; i < R.size(); i++) R[i].prec = nq;
        now_(o, toNode(R), "set_precision of a part");
        osl_relation_p c = LIB(osl_relation_clone(r));
        bool same = LIB(osl_relation_equal(r, c)) && LIB(osl_relation_equal(c, r));
        expectNum(same, 1, "equal of parts of several precisions");
        maybeDrop(adopt(K_RELATION, c, toNode(R), "clone of parts of several precisions"), g, 0);
      }
      // back to the client's own, so that operations combine
      LIBV(osl_relation_set_precision(prec(), r));
      for (auto& p : R) p.prec = prec();
      now_(o, toNode(R), "set_precision");
      break;
    }
  }
  say(fmt("edit union %d", (int)op));
}
// relation lists as stacks
static void mList(Rng& g) {
  Obj* o = have(K_RELLIST, g, [](Obj* x) { return x->tree.k.size() < 9; });
  Node N = o->tree;
  osl_relation_list_p h = (osl_relation_list_p)o->p;
  u64 op = g.below(12);
  auto node1 = [&](Obj* rel) { ConstArg ca(rel); return LIB(osl_relation_list_node((osl_relation_p)rel->p)); };
  switch (op) {
    case 0: case 1: {
      Obj* r = have(K_RELATION, g, [](Obj* x) { return x->p != nullptr; });
      osl_relation_list_p n = node1(r);
      unchanged(r, "relation_list_node");
      { Quiet q; rc->checks++; if (!n || n->next || !n->elt) fail("edit-differs", "relation_list_node built something else than one node"); }
      LIBV(osl_relation_list_push(&h, n));
      o->p = h;
      N.k.insert(N.k.begin(), r->tree);
      if (g.chance(20)) { LIBV(osl_relation_list_push(&h, nullptr)); o->p = h; }
      now_(o, N, "list_push");
      break;
    }
    case 2: {
      osl_relation_list_p t = LIB(osl_relation_list_pop(&h));
      o->p = h;
      Node T("access");
      if (N.k.empty()) { rc->checks++; if (t) fail("edit-differs", "pop of an empty list delivered something"); }
      else { T.add(N.k[0]); N.k.erase(N.k.begin()); }
      if (t) maybeDrop(adopt(K_RELLIST, t, T, "list_pop"), g, 40);
      now_(o, N, "list_pop");
      break;
    }
    case 3: {
      if (N.k.empty()) return;
      LIBV(osl_relation_list_dup(&h));
      o->p = h;
      N.k.insert(N.k.begin(), Node(N.k[0]));
      now_(o, N, "list_dup");
      break;
    }
    case 4: {
      LIBV(osl_relation_list_drop(&h));
      o->p = h;
      if (!N.k.empty()) N.k.erase(N.k.begin());
      now_(o, N, "list_drop");
      break;
    }
    case 5: {
      if (!g.chance(25)) return;
      LIBV(osl_relation_list_destroy(&h));
      o->p = h;
      rc->checks++;
      if (h) fail("edit-differs", "destroy left something");
      N.k.clear();
      now_(o, N, "list_destroy");
      break;
    }
    case 6: {
      Obj* s = have(K_RELLIST, g, nullptr, o);
      if (s == o) return;
      for (auto& x : s->tree.k) N.add(x);
      osl_relation_list_p sp = (osl_relation_list_p)s->p;
      eraseObj(s);
      LIBV(osl_relation_list_add(&h, sp));
      o->p = h;
      now_(o, N, "list_add");
      break;
    }
    case 7: {
      Obj* s = g.chance(20) ? o : have(K_RELLIST, g);
      bool nul = g.chance(20);
      osl_relation_list_p c;
      { ConstArg ca(o), cb(s); c = LIB(nul ? osl_relation_list_concat(nullptr, h) : osl_relation_list_concat(h, (osl_relation_list_p)s->p)); }
      unchanged(o, "list_concat"); unchanged(s, "list_concat");
      if (!nul) for (auto& x : s->tree.k) N.add(x);
      maybeDrop(adopt(K_RELLIST, c, N, "list_concat"), g, 40);
      break;
    }
    case 8: case 9: {
      static const int ty[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_ACCESS, OSL_TYPE_DOMAIN};
      int t = ty[g.below(5)];
      osl_relation_list_p c;
      { ConstArg ca(o); c = LIB(osl_relation_list_filter(h, t)); }
      unchanged(o, "list_filter");
      Node W("access");
      for (auto& x : N.k) {
        int xt = x.k.empty() ? -1 : atoi(x.k[0].k[0].val.c_str());
        bool acc = xt == OSL_TYPE_READ || xt == OSL_TYPE_WRITE || xt == OSL_TYPE_MAY_WRITE || xt == OSL_TYPE_ACCESS;
        if (t == OSL_TYPE_ACCESS ? acc : xt == t) W.add(x);
      }
      maybeDrop(adopt(K_RELLIST, c, W, fmt("list_filter(%d)", t)), g, 40);
      break;
    }
    case 10: expectNum((long)LIB(osl_relation_list_count(h)), (long)N.k.size(), "list_count"); break;
    case 11: {
      static const int ty[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
      int t = ty[g.below(3)];
      LIBV(osl_relation_list_set_type(h, t));
      for (auto& x : N.k) { Rel R = toRel(x); for (auto& p : R) p.type = t; x = toNode(R); }
      now_(o, N, "list_set_type");
      break;
    }
  }
  say(fmt("edit list %d", (int)op));
}
// vectors
static void mVector(Rng& g) {
  Obj* o = have(K_VECTOR, g);
  std::vector<str> V = vecOf(o->tree);
  int pr = atoi(o->tree.k[0].val.c_str());
  bool mp = pr == OSL_PRECISION_MP;
  osl_vector_p v = (osl_vector_p)o->p, c = nullptr;
  u64 op = g.below(8);
  str what;
  std::vector<str> W = V;
  switch (op) {
    case 0: case 1: {
      bool self = g.chance(25);
      Obj* s = self ? o : rawVec((int)V.size(), g, pr);
      std::vector<str> S = vecOf(s->tree);
      if (!mp && (!smallAll(S) || !smallAll(V))) { if (!self) freeObj(s); return; }
      what = op ? "vector_sub" : "vector_add";
      if (!self && rare(g)) { Obj* t = rawVec((int)V.size() + 1, g, pr); refused(what + " of different sizes", [&] { c = op ? osl_vector_sub(v, (osl_vector_p)t->p) : osl_vector_add(v, (osl_vector_p)t->p); }); }
      { ConstArg ca(o), cb(s); c = LIB(op ? osl_vector_sub(v, (osl_vector_p)s->p) : osl_vector_add(v, (osl_vector_p)s->p)); }
      unchanged(s, what);
      for (size_t i = 0; i < V.size(); i++) W[i] = op ? decSub(V[i], S[i]) : decAdd(V[i], S[i]);
      if (!self) freeObj(s);
      break;
    }
    case 2: {
      int k = (int)g.range(-1000, 1000); if (g.chance(20)) k = g.chance(50) ? 2147483647 : -2147483647 - 1;
      if (V.size() < 2 || (!mp && !smallAll(V))) return;
      what = fmt("vector_add_scalar(%d)", k);
      if (rare(g)) { Obj* t = g.chance(50) ? rawVec(1, g, pr) : nullptr; refused("vector_add_scalar to " + str(t ? "one element" : "nothing"), [&] { c = osl_vector_add_scalar(t ? (osl_vector_p)t->p : nullptr, k); }); }
      { ConstArg ca(o); c = LIB(osl_vector_add_scalar(v, k)); }
      W.back() = decAdd(W.back(), fmt("%d", k));
      break;
    }
    case 3: {
      int k = (int)g.range(-4, 4);
      if (mp && g.chance(30)) k = g.chance(50) ? 2147483647 : -2147483647 - 1;
      if (!mp) for (auto& x : V) if (dmag(x).size() > 17) return;
      what = fmt("vector_mul_scalar(%d)", k);
      { ConstArg ca(o); c = LIB(osl_vector_mul_scalar(v, k)); }
      for (auto& x : W) x = decMul(x, fmt("%d", k));
      break;
    }
    case 4: case 5: {
      if (op == 4) LIBV(osl_vector_tag_equality(v)); else LIBV(osl_vector_tag_inequality(v));
      W[0] = op == 4 ? "0" : "1";
      now_(o, vecNode(pr, W), op == 4 ? "tag_equality" : "tag_inequality");
      return;
    }
    case 6: {
      bool sc = true; for (size_t i = 0; i + 1 < V.size(); i++) if (V[i] != "0") sc = false;
      expectNum(LIB(osl_vector_is_scalar(v)) != 0, sc, "vector_is_scalar");
      return;
    }
    case 7: {  // fresh: zeros at the configured precision
      int n = 1 + (int)g.below(6);
      c = LIB(g.chance(50) ? osl_vector_malloc(n) : osl_vector_pmalloc(prec(), n));
      maybeDrop(adopt(K_VECTOR, c, vecNode(prec(), std::vector<str>((size_t)n, "0")), "vector_malloc"), g, 40);
      return;
    }
  }
  unchanged(o, what);
  maybeDrop(adopt(K_VECTOR, c, vecNode(pr, W), what), g, 40);
  cover.ops["edit-" + what.substr(0, what.find('('))]++;
  say("edit vector " + what);
}
static str anyName(Rng& g) { if (g.chance(6)) return ""; G x(g.next(), 2, 64); return genName(x); }
static Node sNode(const std::vector<str>& v) { Node n("strings"); for (auto& s : v) n.add(Node("s", "'" + s + "'")); return n; }
// handed over to the library: not an allocation of the library
static char* give(const str& s) { bool a = cur->armed; cur->armed = false; char* p = dupz(s); cur->armed = a; return p; }
// string lists
static void mStrings(Rng& g) {
  Obj* o = have(K_STRINGS, g, [](Obj* x) { return x->p && x->tree.k.size() < 20; });
  Node N = o->tree;
  osl_strings_p s = (osl_strings_p)o->p;
  u64 op = g.below(8);
  switch (op) {
    case 0: case 1: {
      str x = anyName(g);
      LIBV(osl_strings_add(s, x.c_str()));
      N.add(Node("s", "'" + x + "'"));
      now_(o, N, "strings_add");
      break;
    }
    case 2: {
      str x = !N.k.empty() && g.chance(75) ? N.k[g.below(N.k.size())].val : "'" + anyName(g) + "'";
      size_t want = 0; while (want < N.k.size() && N.k[want].val != x) want++;
      str y = x.substr(1, x.size() - 2);
      ConstArg ca(o);
      expectNum((long)LIB(osl_strings_find(s, y.c_str())), (long)want, "strings_find");
      unchanged(o, "strings_find");
      break;
    }
    case 3: {
      str x = anyName(g);
      osl_strings_p c = LIB(osl_strings_encapsulate(give(x)));
      if (g.chance(20)) {  // nothing is not an empty list
        osl_strings_p e = LIB(osl_strings_malloc());
        expectNum(LIB(osl_strings_equal(e, nullptr)) || LIB(osl_strings_equal(nullptr, e)), 0, "strings_equal of an empty list and none");
        expectNum(LIB(osl_strings_equal(e, c)) || LIB(osl_strings_equal(c, e)), 0, "strings_equal of an empty list and a list of one");
        LIBV(osl_strings_free(e));
      }
      maybeDrop(adopt(K_STRINGS, c, sNode({x}), "strings_encapsulate"), g, 40);
      break;
    }
    case 4: {
      str x = anyName(g); int n = (int)g.below(14) - 1;
      osl_strings_p c = LIB(osl_strings_generate(x.c_str(), n));
      std::vector<str> v; for (int i = 1; i <= n; i++) v.push_back(x + fmt("%d", i));
      Node W = sNode(v);
      checkSame(see(K_STRINGS, c), W, "edit-differs", fmt("strings_generate(%d)", n));
      Obj* k = adopt(K_STRINGS, c, W, "strings_generate");
      expectNum((long)LIB(osl_strings_size(c)), std::max(n, 0), "strings_size");
      maybeDrop(k, g, n > 0 ? 40 : 0);
      break;
    }
    case 5: {
      Obj* t = g.chance(20) ? o : have(K_STRINGS, g, [](Obj* x) { return x->p != nullptr; });
      osl_strings_p c = nullptr;
      { ConstArg ca(o), cb(t); LIBV(osl_strings_add_strings(&c, s, (osl_strings_p)t->p)); }
      unchanged(o, "add_strings"); unchanged(t, "add_strings");
      for (auto& x : t->tree.k) N.add(x);
      maybeDrop(adopt(K_STRINGS, c, N, "add_strings"), g, 40);
      break;
    }
    case 6: expectNum((long)LIB(osl_strings_size(s)), (long)N.k.size(), "strings_size"); break;
    case 7: {
      osl_strings_p c = LIB(osl_strings_malloc());
      Obj* k = adopt(K_STRINGS, c, Node("strings"), "strings_malloc");
      for (int i = 0; i < 2; i++) { str x = anyName(g); LIBV(osl_strings_add(c, x.c_str())); k->tree.add(Node("s", "'" + x + "'")); now_(k, Node(k->tree), "strings_add"); }
      maybeDrop(k, g, 40);
      break;
    }
  }
  say(fmt("edit strings %d", (int)op));
}
static const int extKinds[] = {K_COMMENT, K_SCATNAMES, K_ARRAYS, K_COORDINATES, K_CLAY, K_DEPENDENCE, K_LOOP, K_PLUTO, K_REGION, K_SYMBOLS, K_SCATINFOS, K_ANNOTATION, K_NULL, K_STRINGS, K_RELATION, K_BODY, K_EXTBODY};
static str uriOf(int kind) { Quiet q; osl_interface_p i = ifaceOf[kind](); str s = i->URI; osl_interface_free(i); return s; }
static Node wrapNode(osl_generic_p x) { return see(K_GENERIC, x); }
static long at(const Node& N, const str& uri) { for (size_t i = 0; i < N.k.size(); i++) if (N.k[i].val == uri) return (long)i; return -1; }
// extension lists
static void mGeneric(Rng& g) {
  Obj* o = have(K_GENERIC, g);
  Node N = o->tree;
  osl_generic_p h = (osl_generic_p)o->p;
  u64 op = g.below(10);
  int kind = extKinds[g.below(17)];
  str uri = g.chance(8) ? "nowhere" : !N.k.empty() && g.chance(60) ? N.k[g.below(N.k.size())].val : uriOf(kind);
  switch (op) {
    case 0: case 1: case 2: {
      str u = uriOf(kind);
      bool dup = at(N, u) >= 0;
      if (dup && !rare(g)) return;
      Obj* d = build(kind, (int)g.below(3));
      Node dn = d->tree; void* dp = d->p;
      eraseObj(d);
      osl_interface_p itf = LIB(ifaceOf[kind]());
      osl_generic_p x = LIB(osl_generic_shell(dp, itf));
      Node xn = wrapNode(x);
      { Node w("generic", u); rc->checks++; if (xn.k.size() != 1 || xn.k[0].val != u || !same(xn.k[0].k.back(), dn)) fail("edit-differs", "generic_shell holds something else"); }
      if (dup) refused("a second extension of the same kind", [&] { osl_generic_add(&h, x); });
      LIBV(osl_generic_add(&h, x));
      o->p = h;
      N.add(xn.k[0]);
      now_(o, N, "generic_add");
      break;
    }
    case 3: {  // several at once
      Obj* s = have(K_GENERIC, g, nullptr, o);
      if (s == o) return;
      for (auto& x : s->tree.k) if (at(N, x.val) >= 0) return;
      for (auto& x : s->tree.k) N.add(x);
      osl_generic_p sp = (osl_generic_p)s->p;
      eraseObj(s);
      LIBV(osl_generic_add(&h, sp));
      o->p = h;
      now_(o, N, "generic_add(list)");
      break;
    }
    case 4: case 5: {
      long i = at(N, uri);
      LIBV(osl_generic_remove(&h, uri.c_str()));
      o->p = h;
      if (i >= 0) N.k.erase(N.k.begin() + i);
      now_(o, N, "generic_remove");
      break;
    }
    case 6: {
      long i = at(N, uri);
      if (i < 0) {  // not in this list
        Obj* s = have(K_GENERIC, g, nullptr, o);
        if (s == o || !s->p) return;
        LIBV(osl_generic_remove_node(&h, (osl_generic_p)s->p));
        o->p = h;
        unchanged(s, "generic_remove_node(foreign)");
        now_(o, N, "generic_remove_node(foreign)");
        break;
      }
      osl_generic_p q = h; for (long j = 0; j < i; j++) q = q->next;
      LIBV(osl_generic_remove_node(&h, q));
      o->p = h;
      N.k.erase(N.k.begin() + i);
      now_(o, N, "generic_remove_node");
      break;
    }
    case 7: {
      int n = (int)g.below(N.k.size() + 3) - 1;
      osl_generic_p c;
      { ConstArg ca(o); c = LIB(osl_generic_nclone(h, n)); }
      unchanged(o, "generic_nclone");
      maybeDrop(adopt(K_GENERIC, c, n < 0 ? N : prefix(N, (size_t)n), fmt("generic_nclone(%d)", n)), g, 40);
      break;
    }
    case 8: {
      long i = at(N, uri);
      ConstArg ca(o);
      void* d = LIB(osl_generic_lookup(h, uri.c_str()));
      Quiet q;
      rc->checks++;
      osl_generic_p x = h; for (long j = 0; j < i; j++) x = x->next;
      if (d != (i < 0 ? nullptr : x->data)) fail("edit-differs", "generic_lookup of '" + uri + "' delivers something else");
      break;
    }
    case 9:
      expectNum(LIB(osl_generic_count(h)), (long)N.k.size(), "generic_count");
      expectNum(LIB(osl_generic_number(h)), (long)N.k.size(), "generic_number");
      if (h) expectNum(LIB(osl_generic_has_URI(h, uri.c_str())) != 0, N.k[0].val == uri, "generic_has_URI");
      break;
  }
  say(fmt("edit generic %d", (int)op));
}
// registries
static void mInterface(Rng& g) {
  Obj* o = have(K_INTERFACE, g);
  Node N = o->tree;
  osl_interface_p h = (osl_interface_p)o->p;
  u64 op = g.below(8);
  int kind = g.chance(10) ? (g.chance(50) ? K_TEXTUAL : K_IRREGULAR) : extKinds[g.below(17)];
  str uri = g.chance(8) ? "nowhere" : uriOf(kind);
  switch (op) {
    case 0: case 1: {
      bool dup = at(N, uriOf(kind)) >= 0;
      if (dup && !rare(g)) return;
      osl_interface_p x = LIB(ifaceOf[kind]());
      Node xn = see(K_INTERFACE, x);
      if (dup) refused("a second interface for the same extension", [&] { osl_interface_add(&h, x); });
      LIBV(osl_interface_add(&h, x));
      o->p = h;
      N.add(xn.k[0]);
      now_(o, N, "interface_add");
      break;
    }
    case 2: {
      ConstArg ca(o);
      osl_interface_p x = LIB(osl_interface_lookup(h, uri.c_str()));
      long i = at(N, uri);
      osl_interface_p q = h; for (long j = 0; j < i; j++) q = q->next;
      rc->checks++;
      if (x != (i < 0 ? nullptr : q)) fail("edit-differs", "interface_lookup of '" + uri + "' delivers something else");
      break;
    }
    case 3: {
      int n = (int)g.below(N.k.size() + 3) - 1;
      osl_interface_p c;
      { ConstArg ca(o); c = LIB(osl_interface_nclone(h, n)); }
      unchanged(o, "interface_nclone");
      maybeDrop(adopt(K_INTERFACE, c, n < 0 ? N : prefix(N, (size_t)n), fmt("interface_nclone(%d)", n)), g, 40);
      break;
    }
    case 4: expectNum(LIB(osl_interface_number(h)), (long)N.k.size(), "interface_number"); break;
    case 5: {  // the default registry: every extension once
      osl_interface_p r = LIB(osl_interface_get_default_registry());
      Node D = see(K_INTERFACE, r);
      std::set<str> u; for (auto& x : D.k) u.insert(x.val);
      rc->checks++;
      if (u.size() != D.k.size()) fail("edit-differs", "the default registry knows an extension twice");
      for (int k = 0; k < K_COUNT; k++) if (((defaultMask() >> k) & 1) && !u.count(uriOf(k))) fail("edit-differs", "the default registry lacks " + uriOf(k));
      LIBV(osl_interface_free(r));
      break;
    }
    case 7: {  // through its interface an extension is what it is directly
      const Kind& K = kinds[kind];
      osl_interface_p x = LIB(ifaceOf[kind]());
      Obj *a = build(kind, (int)g.below(4)), *b = g.chance(50) ? build(kind, (int)g.below(4)) : nullptr;
      a->odd = a->edited = true;
      str what = str("through its interface, ") + K.name;
      rc->checks++;
      if (!x->idump || !x->sprint || !x->sread || !x->malloc || !x->free || !x->clone || !x->equal) fail("edit-differs", what + " misses an operation");
      {
        ConstArg ca(a);
        int level = (int)g.below(3);
        if (K.idump && withFile([&](FILE* f) { LIBV(x->idump(f, a->p, level)); }) != withFile([&](FILE* f) { LIBV(K.idump(f, a->p, level)); })) fail("edit-differs", what + " is dumped otherwise");
        char *t = LIB(x->sprint(a->p)), *u = LIB(K.sprint(a->p));
        if (str(t ? t : "") != (u ? u : "")) fail("edit-differs", what + " is printed otherwise: '" + shortText(t ? t : "") + "' instead of '" + shortText(u ? u : "") + "'");
        LIBV(sim_free(t)); LIBV(sim_free(u));
        void* c = LIB(x->clone(a->p));
        checkSame(see(kind, c), a->tree, "edit-differs", what + " copied");
        if (!LIB(x->equal(a->p, c))) fail("edit-differs", what + " differs from its copy");
        if (b) { ConstArg cb(b); if ((bool)LIB(x->equal(a->p, b->p)) != (bool)LIB(K.equal(a->p, b->p))) fail("edit-differs", what + " compares otherwise"); }
        LIBV(x->free(c));
      }
      checkUnchanged(a, "edit-changed-operand", what);
      void* m = LIB(x->malloc());
      if (kind != K_NULL && !m) fail("edit-differs", what + " is not allocated");
      LIBV(x->free(m));
      { LIBV(x->free(a->p)); eraseObj(a); }
      if (b) { LIBV(x->free(b->p)); eraseObj(b); }
      LIBV(osl_interface_free(x));
      break;
    }
    case 6: {  // an extension learnt later is taken out of the text kept for it
      Quiet* q = new Quiet;
      osl_scop_p s = osl_scop_malloc();
      int k = kind == K_TEXTUAL || kind == K_NULL || kind == K_IRREGULAR ? K_SCATNAMES : kind;
      Obj* d = build(k, (int)g.below(3));
      Node dn = d->tree;
      char* t = kinds[k].sprint(d->p);
      str text = "<" + uriOf(k) + ">\n" + (t ? t : "") + "</" + uriOf(k) + ">\n";
      sim_free(t);
      str first, last;
      if (g.chance(40)) { Obj* e = build(K_STRINGS, 1); if (k != K_STRINGS) { char* u = kinds[K_STRINGS].sprint(e->p); first = "<strings>\n" + str(u) + "</strings>\n"; sim_free(u); } kinds[K_STRINGS].free_(e->p); eraseObj(e); }
      kinds[k].free_(d->p); eraseObj(d);
      osl_textual_p x = osl_textual_malloc();
      x->textual = dupz(first + text);
      s->extension = osl_generic_shell(x, osl_textual_interface());
      s->registry = osl_textual_interface();
      delete q;
      osl_interface_p itf = LIB(ifaceOf[k]());
      size_t mark = cur->res.err.size();
      LIBV(osl_scop_register_extension(s, itf));
      q = new Quiet;
      rc->checks++;
      Node R = see(K_INTERFACE, s->registry), E = see(K_GENERIC, s->extension);
      if (R.k.size() != 2 || R.k[1].val != uriOf(k)) fail("edit-differs", "register_extension did not add the interface to the registry");
      if (E.k.size() != 2 || E.k[1].val != uriOf(k)) fail("edit-differs", fmt("register_extension: %zu extensions instead of 2", E.k.size()));
      delete q;
      checkSame(E.k[1].k.back(), forPrecision(dn, prec()), "edit-differs", "extension registered later");
      if (!first.empty() && cur->res.err.substr(mark).find("strings") == str::npos) fail("edit-differs", "register_extension did not name the extension it does not know");
      LIBV(osl_scop_free(s));
      break;
    }
  }
  say(fmt("edit interface %d", (int)op));
}
// chained lists of one kind: symbols, loops, dependences, regions, unrolls
static void chainAdd(int kind, Rng& g) {
  Obj* o = have(kind, g, [](Obj* x) { return x->tree.k.size() < 9; });
  Obj* s = have(kind, g, nullptr, o);
  if (s == o) return;
  Node N = o->tree;
  for (auto& x : s->tree.k) N.add(x);
  void* sp = s->p;
  eraseObj(s);
  void* h = o->p;
  if (kind == K_SYMBOLS) { osl_symbols_p x = (osl_symbols_p)h; LIBV(osl_symbols_add(&x, (osl_symbols_p)sp)); h = x; }
  else if (kind == K_LOOP) { osl_loop_p x = (osl_loop_p)h; LIBV(osl_loop_add((osl_loop_p)sp, &x)); h = x; }
  else if (kind == K_STATEMENT) { osl_statement_p x = (osl_statement_p)h; LIBV(osl_statement_add(&x, (osl_statement_p)sp)); h = x; }
  else if (kind == K_SCOP) { osl_scop_p x = (osl_scop_p)h; LIBV(osl_scop_add(&x, (osl_scop_p)sp)); h = x; }
  else {
    osl_dependence_p st = (osl_dependence_p)h, now = st;
    if (now) { Quiet q; while (now->next) now = now->next; }
    LIBV(osl_dependence_add(&st, &now, (osl_dependence_p)sp));
    Quiet q; rc->checks++;
    if (now && now->next) fail("edit-differs", "dependence_add does not leave the caller at the end of the list");
    if (!now && st) fail("edit-differs", "dependence_add does not leave the caller at the end of the list");
    h = st;
  }
  o->p = h;
  now_(o, N, str(kinds[kind].name) + "_add");
}
static void mSymbols(Rng& g) {
  u64 op = g.below(5);
  if (op < 2) { chainAdd(K_SYMBOLS, g); say("edit symbols"); return; }
  Obj* o = have(K_SYMBOLS, g);
  osl_symbols_p s = (osl_symbols_p)o->p;
  if (op == 2) { ConstArg ca(o); expectNum(LIB(osl_symbols_get_nb_symbols(s)), (long)o->tree.k.size(), "get_nb_symbols"); }
  else {
    int n = (int)g.below(o->tree.k.size() + 3) - 1;
    osl_symbols_p c;
    { ConstArg ca(o); c = LIB(osl_symbols_nclone(s, n)); }
    unchanged(o, "symbols_nclone");
    maybeDrop(adopt(K_SYMBOLS, c, n < 0 ? o->tree : prefix(o->tree, (size_t)n), fmt("symbols_nclone(%d)", n)), g, 40);
  }
  say("edit symbols");
}
static void mLoopDep(Rng& g) {
  u64 op = g.below(8);
  if (op < 2) chainAdd(K_LOOP, g);
  else if (op < 4) chainAdd(K_DEPENDENCE, g);
  else if (op == 4) { Obj* o = have(K_LOOP, g); expectNum(LIB(osl_loop_count((osl_loop_p)o->p)), (long)o->tree.k.size(), "loop_count"); }
  else if (op == 5) { Obj* o = have(K_DEPENDENCE, g); expectNum(LIB(osl_nb_dependences((osl_dependence_p)o->p)), (long)o->tree.k.size(), "nb_dependences"); }
  else if (op == 6) {
    Obj* o = have(K_LOOP, g);
    if (!o->p) return;
    osl_loop_p c;
    { ConstArg ca(o); c = LIB(osl_loop_clone_one((osl_loop_p)o->p)); }
    unchanged(o, "loop_clone_one");
    { ConstArg ca(o); if (!LIB(osl_loop_equal_one((osl_loop_p)o->p, c)) || !LIB(osl_loop_equal_one(c, (osl_loop_p)o->p))) fail("edit-differs", "loop_clone_one is not equal_one to its original"); }
    maybeDrop(adopt(K_LOOP, c, prefix(o->tree, 1), "loop_clone_one"), g, 40);
  } else {
    Obj* o = have(K_REGION, g);
    if (!o->p) return;
    osl_region_t* c;
    { ConstArg ca(o); c = LIB(osl_region_clone_one((osl_region_t*)o->p)); }
    unchanged(o, "region_clone_one");
    { ConstArg ca(o); if (!LIB(osl_region_equal_one((osl_region_t*)o->p, c))) fail("edit-differs", "region_clone_one is not equal_one to its original"); }
    maybeDrop(adopt(K_REGION, c, prefix(o->tree, 1), "region_clone_one"), g, 40);
    expectNum((long)LIB(osl_region_count((osl_region_t*)o->p)), (long)o->tree.k.size(), "region_count");
  }
  say(fmt("edit chain %d", (int)op));
}
static void mArrays(Rng& g) {
  u64 op = g.below(9);
  if (op < 5) {
    Obj* o = have(K_ARRAYS, g, [](Obj* x) { return x->p && x->tree.k.size() < 12; });
    osl_arrays_p a = (osl_arrays_p)o->p;
    Node N = o->tree;
    std::vector<std::pair<int, str>> v;
    for (size_t i = 1; i < N.k.size(); i++) v.push_back({atoi(N.k[i].k[0].val.c_str()), N.k[i].k[1].val});
    int mx = 0; for (auto& x : v) mx = std::max(mx, x.first);
    if (op < 2) {
      int id = g.chance(8) ? -(int)g.below(3) : mx + 1 + (int)g.below(3); str nm = anyName(g); if (nm.empty()) nm = "A";
      int n = LIB(osl_arrays_add(a, id, nm.c_str()));
      expectNum(n, (long)v.size() + 1, "arrays_add");
      Node e("array"); e.add(Node("id", fmt("%d", id))); e.add(Node("name", "'" + nm + "'")); N.add(e);
      N.k[0].val = fmt("%zu", v.size() + 1);
      now_(o, N, "arrays_add");
      if (g.chance(15)) { expectNum(LIB(osl_arrays_add(nullptr, 1, "x")), -1, "arrays_add to nothing"); expectNum(LIB(osl_arrays_add(a, 1, nullptr)), -1, "arrays_add of nothing"); now_(o, N, "arrays_add(NULL)"); }
    } else if (op < 4) {
      std::vector<str> w; for (int i = 1; i <= mx; i++) w.push_back(fmt("Dummy%d", i));
      for (auto& x : v) if (x.first >= 1) w[(size_t)x.first - 1] = x.second.substr(1, x.second.size() - 2);
      osl_strings_p c;
      { ConstArg ca(o); c = LIB(osl_arrays_to_strings(a)); }
      unchanged(o, "arrays_to_strings");
      maybeDrop(adopt(K_STRINGS, c, sNode(w), "arrays_to_strings"), g, mx > 0 ? 30 : 0);
    } else {
      int id = (int)g.below((u64)mx + 2); size_t want = v.size();
      for (size_t i = v.size(); i-- > 0;) if (v[i].first == id) want = i;
      str nm = !v.empty() && g.chance(70) ? v[g.below(v.size())].second : "'nope nope'"; size_t wn = v.size();
      for (size_t i = v.size(); i-- > 0;) if (v[i].second == nm) wn = i;
      ConstArg ca(o);
      expectNum((long)LIB(osl_arrays_get_index_from_id(a, id)), (long)want, "arrays index from id");
      str y = nm.substr(1, nm.size() - 2);
      expectNum((long)LIB(osl_arrays_get_index_from_name(a, y.c_str())), (long)wn, "arrays index from name");
      if (g.chance(15)) { expectNum((long)LIB(osl_arrays_get_index_from_id(nullptr, id)), 0, "arrays index in nothing"); expectNum((long)LIB(osl_arrays_get_index_from_name(nullptr, y.c_str())), 0, "arrays index in nothing"); }
      unchanged(o, "arrays_get_index");
    }
  } else if (op < 7) {
    Obj* o = have(K_EXTBODY, g, [](Obj* x) { return x->p && x->tree.k.size() < 14; });
    Node N = o->tree;
    int a = (int)g.range(-1, 90), b = (int)g.range(-1, 30);
    LIBV(osl_extbody_add((osl_extbody_p)o->p, a, b));
    Node c("coord"); c.add(Node("start", fmt("%d", a))); c.add(Node("length", fmt("%d", b)));
    size_t i = 0; while (i < N.k.size() && N.k[i].tag != "body") i++;
    N.k.insert(N.k.begin() + (long)i, c);
    N.k[0].val = fmt("%zu", i);
    now_(o, N, "extbody_add");
  } else {
    Obj* o = have(K_PLUTO, g, [](Obj* x) { return x->p != nullptr; });
    Node N = o->tree;
    size_t i = g.below(N.k.size());
    osl_pluto_unroll_p u = (osl_pluto_unroll_p)o->p; for (size_t j = 0; j < i; j++) u = u->next;
    bool jam = g.chance(50), keep = g.chance(15); unsigned f = (unsigned)g.below(99); str nm = anyName(g); if (nm.empty()) nm = "i";
    LIBV(osl_pluto_unroll_fill(u, keep ? nullptr : nm.c_str(), jam, f));
    if (!keep) N.k[i].k[0].val = "'" + nm + "'";
    N.k[i].k[1].val = jam ? "1" : "0"; N.k[i].k[2].val = fmt("%u", f);
    now_(o, N, "pluto_unroll_fill");
  }
  say(fmt("edit arrays %d", (int)op));
}
static void addLine(Node& t, int type, const str& text) {
  Node e("line"); e.add(Node("ltype", fmt("%d", type))); e.add(Node("text", "'" + text + "'")); t.add(e);
  t.k[0].val = fmt("%zu", t.k.size() - 1);
}
static void mText(Rng& g) {
  u64 op = g.below(9);
  str s = anyName(g); if (s.empty()) s = "x"; if (g.chance(50)) s += " + " + s;
  int ty = (int)g.below(4);
  if (op < 3) {
    Obj* o = have(K_REGION, g, [](Obj* x) { return x->p != nullptr; });
    Node N = o->tree;
    size_t i = g.below(N.k.size());
    osl_region_t* r = (osl_region_t*)o->p; for (size_t j = 0; j < i; j++) r = r->next;
    u64 w = g.below(4);
    char* t = give(s);
    if (w == 0) LIBV(osl_region_append_prefix(r, ty, t)); else if (w == 1) LIBV(osl_region_append_suffix(r, ty, t)); else if (w == 2) LIBV(osl_region_append_prelude(r, ty, t)); else LIBV(osl_region_append_postlude(r, ty, t));
    addLine(N.k[i].k[1 + w], ty, s);
    now_(o, N, fmt("region_append(%d)", (int)w));
  } else if (op < 5) {
    Obj* o = have(K_ANNOTATION, g, [](Obj* x) { return x->p != nullptr; });
    Node N = o->tree;
    u64 w = g.below(2);
    char* t = give(s);
    if (w == 0) LIBV(osl_annotation_append_prefix((osl_annotation_t*)o->p, ty, t)); else LIBV(osl_annotation_append_suffix((osl_annotation_t*)o->p, ty, t));
    addLine(N.k[w], ty, s);
    now_(o, N, fmt("annotation_append(%d)", (int)w));
  } else {
    Obj* o = have(K_IRREGULAR, g, [](Obj* x) { return x->p && x->tree.k.size() < 14; });
    Node N = o->tree;
    osl_irregular_p r = (osl_irregular_p)o->p, c;
    size_t nc = (size_t)atoi(N.k[0].val.c_str()), ne = (size_t)atoi(N.k[1].val.c_str()), ns = (size_t)atoi(N.k[2].val.c_str());
    int n = (int)g.below(4);
    str what;
    if (op < 8) {
      std::vector<str> its; std::vector<char*> ip;
      for (int i = 0; i < n; i++) its.push_back(fmt("i%d", (int)g.below(50)));
      for (auto& x : its) ip.push_back(&x[0]);
      ip.push_back(nullptr);
      bool ex = op == 7;
      { ConstArg ca(o); c = LIB(ex ? osl_irregular_add_exit(r, ip.data(), n, s.c_str()) : osl_irregular_add_control(r, ip.data(), n, s.c_str())); }
      Node e("pred"); e.add(Node("n", fmt("%d", n)));
      for (auto& x : its) e.add(Node("it", "'" + x + "'"));
      e.add(Node("body", "'" + s + "'"));
      N.k.insert(N.k.begin() + (long)(3 + nc + (ex ? ne : 0)), e);
      if (ex) N.k[1].val = fmt("%zu", ne + 1); else N.k[0].val = fmt("%zu", nc + 1);
      what = ex ? "irregular_add_exit" : "irregular_add_control";
    } else {
      std::vector<int> ps; for (int i = 0; i < n; i++) ps.push_back((int)g.below(9));
      ps.push_back(0);
      { ConstArg ca(o); c = LIB(osl_irregular_add_predicates(r, ps.data(), n)); }
      Node e("stmt"); e.add(Node("n", fmt("%d", n)));
      for (int i = 0; i < n; i++) e.add(Node("p", fmt("%d", ps[(size_t)i])));
      N.add(e);
      N.k[2].val = fmt("%zu", ns + 1);
      what = "irregular_add_predicates";
    }
    unchanged(o, what);
    maybeDrop(adopt(K_IRREGULAR, c, N, what), g, 60);
    cover.ops["edit-" + what]++;
  }
  say(fmt("edit text %d", (int)op));
}
// statements and whole SCoPs
static Node* child(Node& n, const char* tag) { for (auto& c : n.k) if (c.tag == tag) return &c; return nullptr; }
static Node splitUnions(const Node& st) {  // one statement -> the statements without unions
  Node out("statements"), s = st;
  Node D = child(s, "domain")->k[0], S = child(s, "scattering")->k[0];
  size_t nd = std::max((size_t)1, D.k.size()), ns = std::max((size_t)1, S.k.size());
  for (size_t i = 0; i < nd; i++) for (size_t j = 0; j < ns; j++) {
    Node t = s;
    Node d("relation"), c("relation");
    if (i < D.k.size()) d.add(D.k[i]);
    if (j < S.k.size()) c.add(S.k[j]);
    child(t, "domain")->k[0] = d; child(t, "scattering")->k[0] = c;
    out.add(t);
  }
  return out;
}
static void mScop(Rng& g) {
  u64 op = g.below(11);
  if (op < 2) { chainAdd(K_STATEMENT, g); say("edit scop add"); return; }
  if (op < 3) { chainAdd(K_SCOP, g); say("edit scop add"); return; }
  if (op < 6) {
    Obj* o = have(K_STATEMENT, g, [](Obj* x) { return x->p != nullptr; });
    osl_statement_p s = (osl_statement_p)o->p;
    if (op == 3) {
      osl_statement_p c;
      { ConstArg ca(o); c = LIB(osl_statement_remove_unions(s)); }
      unchanged(o, "statement_remove_unions");
      maybeDrop(adopt(K_STATEMENT, c, splitUnions(o->tree.k[0]), "statement_remove_unions"), g, 25);
    } else if (op == 4) {
      ConstArg ca(o);
      osl_body_p b = LIB(osl_statement_get_body(s));
      Node E = *child(o->tree.k[0], "generics");
      Node w("body", "(NULL)");
      long i = at(E, "body"), j = at(E, "extbody");
      if (i >= 0) w = E.k[(size_t)i].k.back(); else if (j >= 0) w = *child(E.k[(size_t)j].k.back(), "body");
      checkSame(see(K_BODY, b), w, "edit-differs", "statement_get_body");
      Rel D = toRel(child(o->tree.k[0], "domain")->k[0]);
      expectNum(LIB(osl_statement_get_nb_iterators(s)), D.empty() ? 0 : D[0].out, "statement_get_nb_iterators");
      expectNum(LIB(osl_statement_number(s)), (long)o->tree.k.size(), "statement_number");
      unchanged(o, "statement_get_body");
    } else {
      int n = (int)g.below(o->tree.k.size() + 3) - 1;
      osl_statement_p c;
      { ConstArg ca(o); c = LIB(osl_statement_nclone(s, n)); }
      unchanged(o, "statement_nclone");
      maybeDrop(adopt(K_STATEMENT, c, n < 0 ? o->tree : prefix(o->tree, (size_t)n), fmt("statement_nclone(%d)", n)), g, 25);
    }
    say(fmt("edit scop %d", (int)op));
    return;
  }
  Obj* o = have(K_SCOP, g, [](Obj* x) { return x->p != nullptr; });
  osl_scop_p s = (osl_scop_p)o->p;
  Node N = o->tree;
  if (op < 8) {
    osl_scop_p c;
    { ConstArg ca(o); c = LIB(osl_scop_remove_unions(s)); }
    unchanged(o, "scop_remove_unions");
    for (auto& sc : N.k) { Node* st = child(sc, "statements"); Node out("statements"); for (auto& x : st->k) for (auto& y : splitUnions(x).k) out.add(y); *st = out; }
    maybeDrop(adopt(K_SCOP, c, N, "scop_remove_unions"), g, 25);
  } else if (op < 10) {
    Node* st = child(N.k[0], "statements");
    int mx = 0;
    for (auto& x : st->k) { Rel S = toRel(child(x, "scattering")->k[0]); if (!S.empty()) mx = std::max(mx, S[0].out); }
    bool over = false;
    for (auto& x : st->k) {
      Rel S = toRel(child(x, "scattering")->k[0]);
      for (auto& p : S) {
        if (p.out > mx) { over = true; break; }
        int off = mx - p.out;
        for (auto& m : p.m) m.insert(m.begin() + p.out + 1, (size_t)off, "0");
        p.cols += off;
        for (int i = 0; i < off; i++) { std::vector<str> row((size_t)p.cols, "0"); row[(size_t)(p.out + 1 + i)] = "-1"; p.m.push_back(row); }
        p.rows += off; p.out = mx;
      }
      child(x, "scattering")->k[0] = toNode(S);
    }
    if (over) return;
    LIBV(osl_scop_normalize_scattering(s));
    now_(o, N, "normalize_scattering");
  } else {
    ConstArg ca(o);
    expectNum((long)LIB(osl_scop_number(s)), (long)N.k.size(), "scop_number");
    Rel C = toRel(child(N.k[0], "context")->k[0]);
    expectNum(LIB(osl_scop_get_nb_parameters(s)), C.empty() ? 0 : C[0].par, "scop_get_nb_parameters");
    unchanged(o, "scop_number");
    if (g.chance(30)) {
      osl_scop_p none = LIB(osl_scop_malloc());
      expectNum(LIB(osl_scop_get_nb_parameters(none)), 0, "scop_get_nb_parameters without a context");
      LIBV(osl_scop_free(none));
    }
  }
  say(fmt("edit scop %d", (int)op));
}

// ------------------------------------------------------- consistency check ----
// What the OpenScop format asks of a structure, on the content tree.
static const int ANY = OSL_UNDEFINED;
static bool arrayIdOf(const Part& p, str* id) {
  if (p.rows < 1 || p.cols < 3) return false;
  const std::vector<str>* row = nullptr;
  for (auto& m : p.m) if (m[1] != "0") { if (row) return false; row = &m; }
  if (!row) return false;
  for (size_t j = 0; j + 1 < row->size(); j++) if (j != 1 && (*row)[j] != "0") return false;
  const str& c = row->back();
  if (c == "0" || dneg(c) == dneg((*row)[1])) return false;
  str q, r;
  decFloorDiv(dmag(c), dmag((*row)[1]), &q, &r);
  if (r != "0" || decCmp(q, "2147483647") > 0) return false;
  *id = q;
  return true;
}
static const char* whyBadRel(const Rel& R, int type, int out, int in, int par) {
  if (R.empty()) return nullptr;
  const Part& f = R[0];
  bool acc = f.type == OSL_TYPE_ACCESS || f.type == OSL_TYPE_READ || f.type == OSL_TYPE_WRITE || f.type == OSL_TYPE_MAY_WRITE;
  if (type == OSL_TYPE_ACCESS ? !acc : f.type != type) return "type";
  if (f.out == ANY || f.in == ANY || f.loc == ANY || f.par == ANY) return "undefined attribute";
  if (f.type == OSL_TYPE_CONTEXT && f.out != 0) return "context output";
  if ((f.type == OSL_TYPE_CONTEXT || f.type == OSL_TYPE_DOMAIN) && f.in != 0) return "input of a set";
  if ((out != ANY && f.out != out) || (in != ANY && f.in != in) || (par != ANY && f.par != par)) return "expectation";
  str id0;
  for (size_t k = 0; k < R.size(); k++) {
    const Part& p = R[k];
    if (p.out != f.out || p.in != f.in || p.par != f.par) return "parts differ";
    if (p.out + p.in + (p.loc == ANY ? 0 : p.loc) + p.par + 2 != p.cols) return "columns";
    if (p.cols > 0) for (auto& m : p.m) if (m[0] != "0" && m[0] != "1") return "first column";
    if (acc) {
      str id;
      if (!arrayIdOf(p, &id)) return "array identifier";
      if (k && id != id0) return "array identifiers differ";
      id0 = id;
    }
  }
  return nullptr;
}
static const char* whyBadList(const Node& L, int in, int par) {
  for (auto& e : L.k) if (const char* w = whyBadRel(toRel(e), OSL_TYPE_ACCESS, ANY, in, par)) return w;
  return nullptr;
}
static const char* whyBadStatements(const Node& N, int par) {
  for (auto& s : N.k) {
    Rel D = toRel(s.k[0].k[0]), S = toRel(s.k[1].k[0]);
    if (const char* w = whyBadRel(D, OSL_TYPE_DOMAIN, ANY, 0, par)) return w;
    int it = D.empty() ? ANY : D[0].out;
    if (const char* w = whyBadRel(S, OSL_TYPE_SCATTERING, ANY, it, par)) return w;
    if (const char* w = whyBadList(s.k[2], it, par)) return w;
    long i = at(s.k[3], "body");
    if (it != ANY && i >= 0) {
      const Node& b = s.k[3].k[(size_t)i].k.back();
      if (!b.k.empty() && b.k[0].k[0].val != "(NULL)" && (int)b.k[0].k[0].k.size() != it) return "iterators";
    }
  }
  return nullptr;
}
static const char* whyBadScop(const Node& N) {
  for (auto& s : N.k) {
    Rel C = toRel(child(const_cast<Node&>(s), "context")->k[0]);
    if (const char* w = whyBadRel(C, OSL_TYPE_CONTEXT, ANY, ANY, ANY)) return w;
    if (const char* w = whyBadStatements(*child(const_cast<Node&>(s), "statements"), C.empty() ? ANY : C[0].par)) return w;
  }
  return nullptr;
}
static void relsOf(int kind, void* p, std::vector<osl_relation_p>* v) {
  auto add = [&](osl_relation_p r) { for (; r; r = r->next) v->push_back(r); };
  auto list = [&](osl_relation_list_p l) { for (; l; l = l->next) add(l->elt); };
  auto stm = [&](osl_statement_p s) { for (; s; s = s->next) { add(s->domain); add(s->scattering); list(s->access); } };
  if (kind == K_RELATION) add((osl_relation_p)p);
  else if (kind == K_RELLIST) list((osl_relation_list_p)p);
  else if (kind == K_STATEMENT) stm((osl_statement_p)p);
  else for (osl_scop_p s = (osl_scop_p)p; s; s = s->next) { add(s->context); stm(s->statement); }
}
// One inconsistency, or a harmless change that only looks like one.
static str disturb(int kind, void* p, Rng& g) {
  std::vector<osl_relation_p> v;
  relsOf(kind, p, &v);
  std::vector<osl_statement_p> sts;
  if (kind == K_STATEMENT) for (osl_statement_p s = (osl_statement_p)p; s; s = s->next) sts.push_back(s);
  if (kind == K_SCOP) for (osl_scop_p c = (osl_scop_p)p; c; c = c->next) for (osl_statement_p s = c->statement; s; s = s->next) sts.push_back(s);
  if (v.empty()) return "nothing";
  osl_relation_p r = v[g.below(v.size())];
  if (g.chance(50)) { std::vector<osl_relation_p> a; for (auto x : v) if (x->type > OSL_TYPE_ACCESS) a.push_back(x); if (!a.empty()) r = a[g.below(a.size())]; }
  auto dims = [&](int k) -> int& { return k == 0 ? r->nb_output_dims : k == 1 ? r->nb_input_dims : k == 2 ? r->nb_local_dims : r->nb_parameters; };
  auto bump = [&](int& d, int by) { if (d + by >= 0) d += by; };
  switch (g.below(13)) {
    case 0: bump(dims((int)g.below(4)), g.chance(50) ? 1 : -1); return "one dimension";
    case 1: { int a = (int)g.below(4), b = (int)g.below(4); if (dims(b) < 1) return "nothing"; dims(b)--; dims(a)++; return "a dimension of another kind"; }
    case 2: { int k = (int)g.below(4); dims(k)++; LIBV(osl_relation_insert_blank_column(r, std::max(0, r->nb_columns - 1))); return "one dimension and its column"; }
    case 3: LIBV(osl_relation_insert_blank_column(r, std::min(r->nb_columns, 1 + (int)g.below((u64)std::max(1, r->nb_columns - 1))))); return "one column";
    case 4: case 5: {
      if (r->nb_rows < 1 || r->nb_columns < 1) return "nothing";
      static const char* val[] = {"2", "-1", "1", "0", "3", "-2"};
      Quiet q; coefSet(r->precision, &r->m[g.below((u64)r->nb_rows)][0], val[g.below(6)]);
      return "a first column";
    }
    case 6: case 7: case 8: {  // the row with the array identifier, or another one
      if (r->nb_rows < 1 || r->nb_columns < 3) return "nothing";
      size_t row = g.chance(70) ? 0 : g.below((u64)r->nb_rows);
      if (g.chance(70)) for (int i = 0; i < r->nb_rows; i++) { Quiet q; if (coefText(r->precision, r->m[i][1]) != "0") row = (size_t)i; }
      Quiet q;
      static const char* one[] = {"1", "-1", "2", "-2", "3", "-3", "0"};
      static const char* cst[] = {"0", "1", "-1", "2", "6", "-6", "12", "2147483647", "2147483648", "-2147483647", "-2147483648", "4294967297", "9223372036854775807", "-9223372036854775808", "6442450941", "6442450944"};
      u64 w = g.below(6);
      if (w < 2) { coefSet(r->precision, &r->m[row][1], one[g.below(7)]); coefSet(r->precision, &r->m[row][r->nb_columns - 1], cst[g.below(16)]); }
      else if (w == 2) coefSet(r->precision, &r->m[row][1], one[g.below(7)]);
      else if (w == 3) coefSet(r->precision, &r->m[row][r->nb_columns - 1], cst[g.below(16)]);
      else coefSet(r->precision, &r->m[row][g.below((u64)r->nb_columns)], one[g.below(6)]);
      return "an array identifier";
    }
    case 9: {
      if (sts.empty()) return "nothing";
      osl_body_p b; { Quiet q; b = (osl_body_p)osl_generic_lookup(sts[g.below(sts.size())]->extension, "body"); }
      if (!b || !b->iterators) return "nothing";
      if (g.chance(50)) LIBV(osl_strings_add(b->iterators, "extra")); else { if (g.chance(30)) { LIBV(osl_strings_free(b->iterators)); b->iterators = nullptr; } else { size_t n = LIB(osl_strings_size(b->iterators)); if (n) { sim_free(b->iterators->string[n - 1]); b->iterators->string[n - 1] = nullptr; } } }
      return "the iterators";
    }
    case 10: {
      osl_relation_p* at_ = nullptr;
      if (!sts.empty() && g.chance(70)) { osl_statement_p s = sts[g.below(sts.size())]; at_ = g.chance(50) ? &s->domain : &s->scattering; }
      else if (kind == K_SCOP) at_ = &((osl_scop_p)p)->context;
      if (!at_ || !*at_) return "nothing";
      osl_relation_p x = *at_; *at_ = nullptr;
      LIBV(osl_relation_free(x));
      return "a relation left out";
    }
    case 11: {  // the first part only, or an attribute not known
      if (g.chance(50)) { std::vector<osl_relation_p> u; for (auto x : v) if (x->next) u.push_back(x->next); if (u.empty()) return "nothing"; r = u[g.below(u.size())]; bump(dims((int)g.below(4)), 1); return "a later part"; }
      bool first = true; for (auto x : v) if (x->next == r) first = false;
      if (!first) return "nothing";
      dims((int)g.below(4)) = OSL_UNDEFINED;
      return "an unknown attribute";
    }
    default: {
      bool first = true; for (auto x : v) if (x->next == r) first = false;
      if (!first) return "nothing";
      static const int ts[] = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_ACCESS};
      int t = ts[g.below(7)];
      for (osl_relation_p x = r; x; x = x->next) x->type = t;
      return "the type";
    }
  }
}
// The largest dimensions found in a structure.
struct Attrs { int v[5] = {ANY, ANY, ANY, ANY, ANY}; bool idKnown = true; };
static void attrsOf(const Rel& R, Attrs* a) {
  auto up = [](int* x, int y) { if (y > *x) *x = y; };
  str first; bool sameId = true; int id = ANY;
  for (size_t k = 0; k < R.size(); k++) {
    const Part& p = R[k];
    bool acc = p.type == OSL_TYPE_ACCESS || p.type == OSL_TYPE_READ || p.type == OSL_TYPE_WRITE || p.type == OSL_TYPE_MAY_WRITE;
    up(&a->v[0], p.par);
    up(&a->v[1], p.type == OSL_TYPE_CONTEXT ? 0 : p.type == OSL_TYPE_DOMAIN ? p.out : p.in);
    up(&a->v[2], acc || p.type == OSL_TYPE_CONTEXT || p.type == OSL_TYPE_DOMAIN ? 0 : p.out);
    up(&a->v[3], p.loc);
    str s; bool ok = acc && arrayIdOf(p, &s);
    if (k == 0) first = s; else if (s != first) sameId = false;
    if (ok) id = atoi(s.c_str());
    if (!acc) id = 0;
  }
  if (sameId) up(&a->v[4], id); else a->idKnown = false;  // which one is reported is not defined
}
static void attrsOf(int kind, const Node& N, Attrs* a) {
  if (kind == K_RELATION) attrsOf(toRel(N), a);
  else if (kind == K_RELLIST) for (auto& e : N.k) attrsOf(toRel(e), a);
  else if (kind == K_STATEMENT) for (auto& s : N.k) { attrsOf(toRel(s.k[0].k[0]), a); attrsOf(toRel(s.k[1].k[0]), a); attrsOf(K_RELLIST, s.k[2], a); }
  else for (auto& s : N.k) { attrsOf(toRel(child(const_cast<Node&>(s), "context")->k[0]), a); attrsOf(K_STATEMENT, *child(const_cast<Node&>(s), "statements"), a); }
}
static void checkAttrs(int kind, void* p, const Node& N, Rng& g) {
  Attrs want;
  attrsOf(kind, N, &want);
  int v[5] = {ANY, ANY, ANY, ANY, ANY};
  if (g.chance(20)) for (int i = 0; i < 5; i++) { v[i] = (int)g.below(5); want.v[i] = std::max(want.v[i], v[i]); }  // kept when larger
  if (kind == K_SCOP) LIBV(osl_scop_get_attributes((osl_scop_p)p, v, v + 1, v + 2, v + 3, v + 4));
  else if (kind == K_STATEMENT) LIBV(osl_statement_get_attributes((osl_statement_p)p, v, v + 1, v + 2, v + 3, v + 4));
  else if (kind == K_RELLIST) LIBV(osl_relation_list_get_attributes((osl_relation_list_p)p, v, v + 1, v + 2, v + 3, v + 4));
  else LIBV(osl_relation_get_attributes((osl_relation_p)p, v, v + 1, v + 2, v + 3, v + 4));
  static const char* nm[] = {"parameters", "iterators", "scattering dimensions", "local dimensions", "array identifier"};
  for (int i = 0; i < (want.idKnown ? 5 : 4); i++) {
    rc->checks++;
    if (v[i] != want.v[i]) fail("attributes-wrong", fmt("the %s of a %s are said to be %d, they are %d", nm[i], kinds[kind].name, v[i], want.v[i]));
  }
}
static void mCheck(Rng& g) {
  static const int ks[] = {K_SCOP, K_SCOP, K_STATEMENT, K_STATEMENT, K_RELLIST, K_RELATION, K_RELATION};
  int kind = ks[g.below(7)];
  Obj* o = have(kind, g, [](Obj* x) { return x->p != nullptr; });
  void* c = LIB(kinds[kind].clone(o->p));
  str did;
  int n = (int)g.below(4); if (n == 3) n = 1;
  Obj* x = newObj(kind, c, see(kind, c));
  x->odd = x->edited = true;
  for (int i = 0; i < n; i++) did += (did.empty() ? "" : ", ") + disturb(kind, c, g);
  x->tree = see(kind, c);
  const Node& N = x->tree;
  {  // unions of relations of different types are outside the format: no verdict is asked for
    std::vector<osl_relation_p> v; relsOf(kind, c, &v);
    for (auto r : v) if (r->next && r->next->type != r->type) { say("edit check mixed"); freeObj(x); return; }
  }
  size_t mark = cur->res.err.size();
  const char* why = nullptr;
  int got = 0, type = ANY, out = ANY, in = ANY, par = ANY;
  auto guess = [&](int v) { u64 w = g.below(10); return w < 5 ? ANY : w < 9 ? v : std::max(0, v + (g.chance(50) ? 1 : -1)); };
  {
    ConstArg ca(x);
    if (kind == K_SCOP) { why = whyBadScop(N); got = LIB(osl_scop_integrity_check((osl_scop_p)c)); }
    else if (kind == K_STATEMENT) {
      Rel D = N.k.empty() ? Rel() : toRel(N.k[0].k[0].k[0]);
      if (!D.empty()) par = guess(D[0].par);
      why = whyBadStatements(N, par); got = LIB(osl_statement_integrity_check((osl_statement_p)c, par));
    } else if (kind == K_RELLIST) {
      Rel D = N.k.empty() ? Rel() : toRel(N.k[0]);
      if (!D.empty()) { in = guess(D[0].in); par = guess(D[0].par); }
      why = whyBadList(N, in, par); got = LIB(osl_relation_list_integrity_check((osl_relation_list_p)c, OSL_TYPE_ACCESS, OSL_UNDEFINED, in, par));
    } else {
      Rel D = toRel(N);
      if (!D.empty()) {
        out = guess(D[0].out); in = guess(D[0].in); par = guess(D[0].par);
        type = D[0].type >= OSL_TYPE_ACCESS && g.chance(60) ? OSL_TYPE_ACCESS : D[0].type;
        if (g.chance(8)) type = g.chance(50) ? OSL_TYPE_DOMAIN : OSL_TYPE_READ;
      }
      why = whyBadRel(D, type, out, in, par); got = LIB(osl_relation_integrity_check((osl_relation_p)c, type, out, in, par));
    }
  }
  const char* name = kinds[kind].name;
  bool warned = cur->res.err.find("arning", mark) != str::npos;
  rc->checks += 2;
  cover.probes[str("check:") + name + (why ? str(" refused for ") + why : str(" accepted"))]++;
  if (why && got) fail("check-accepted", fmt("the integrity check of a %s accepted a structure that is inconsistent (%s) after changing: %s", name, why, did.c_str()));
  if (!why && !got) fail("check-refused", fmt("the integrity check of a %s refused a consistent structure (changed: %s; expected type %d output %d input %d parameters %d): %s", name, did.c_str(), type, out, in, par, cur->res.err.substr(mark, 300).c_str()));
  if (why && !warned) fail("check-silent", fmt("the integrity check of a %s refused it (%s) without saying so", name, why));
  if (!why && warned) fail("check-noise", fmt("the integrity check of a %s accepted it with a warning: %s", name, cur->res.err.substr(mark, 300).c_str()));
  { ConstArg ca(x); checkAttrs(kind, c, N, g); }
  unchanged(x, "integrity_check");
  say(fmt("edit check %s %d", name, got));
  freeObj(x);
}

// ------------------------------------------------------------ SCoPLib export ----
// A reader of the older format, as far as exported SCoPs need one.
struct OldReader {
  std::vector<str> t; size_t i = 0; const str& text;
  OldReader(const str& s) : text(s) {
    str w; bool com = false;
    for (char c : s + "\n") {
      if (com) { if (c == '\n') com = false; continue; }
      if (c == '#') com = true;
      if (c == '#' || c == ' ' || c == '\n' || c == '\t') { if (!w.empty()) t.push_back(w); w.clear(); } else w += c;
    }
  }
  void want(const str& w, const str& what) {
    str got = i < t.size() ? t[i] : "(end)"; i++;
    rc->checks++;
    if (got != w) fail("scoplib-differs", fmt("the SCoPLib text has '%s' instead of '%s' for %s\n%s", got.c_str(), w.c_str(), what.c_str(), text.substr(0, 3000).c_str()));
  }
  void matrix(const std::vector<std::vector<str>>& m, int cols, const str& what) {
    want(fmt("%zu", m.size()), "the rows of " + what);
    if (m.empty()) i++; else want(fmt("%d", cols), "the columns of " + what);
    for (size_t r = 0; r < m.size(); r++) for (size_t c = 0; c < m[r].size(); c++) want(m[r][c], fmt("row %zu column %zu of ", r, c) + what);
  }
};
static osl_relation_p relOf(int type, int pr, int out, int in, int loc, int par, const std::vector<std::vector<str>>& m) {
  osl_relation_p r = osl_relation_pmalloc(pr, (int)m.size(), out + in + loc + par + 2);
  r->type = type; r->nb_output_dims = out; r->nb_input_dims = in; r->nb_local_dims = loc; r->nb_parameters = par;
  for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[i].size(); j++) coefSet(pr, &r->m[i][j], m[i][j]);
  return r;
}
static osl_strings_p stringsOf(const std::vector<str>& v) { osl_strings_p s = osl_strings_malloc(); for (auto& x : v) osl_strings_add(s, x.c_str()); return s; }
static osl_generic_p genericOf(void* d, osl_interface_p i) { return osl_generic_shell(d, i); }
void oldComments(const str& text, osl_scop_p scop);  // names.cpp
static void mScoplib(Rng& g) {
  typedef std::vector<std::vector<str>> M;
  const int pr = prec();
  auto zeros = [](size_t n) { return std::vector<str>(n, "0"); };
  auto num = [&]() -> str { return g.chance(40) ? "0" : g.chance(70) ? fmt("%d", (int)g.below(21) - 10) : coef(g); };
  auto cut = [](std::vector<str> r, size_t from, size_t n) { r.erase(r.begin() + (long)from, r.begin() + (long)(from + n)); return r; };
  int par = (int)g.below(4), ns = (int)g.below(4);
  u64 wrong = g.chance(4) ? 1 + g.below(6) : 0;  // something the older format can not say
  bool wronged = false;
  struct Want { M dom, sca; M rd, wr; int cols; bool body; std::vector<str> its, expr; };
  std::vector<Want> W;
  M ctx;
  osl_scop_p s;
  bool pnames = par > 0 && g.chance(70), arr = g.chance(50);
  std::vector<str> pn; std::vector<std::pair<int, str>> an;
  {
    Quiet q;
    s = osl_scop_malloc();
    s->version = 1;
    s->language = sim_strdup("C");
    for (u64 i = g.below(3); i > 0; i--) { auto r = zeros((size_t)par + 2); r[0] = g.chance(50) ? "1" : "0"; for (size_t j = 1; j < r.size(); j++) r[j] = num(); ctx.push_back(r); }
    s->context = relOf(OSL_TYPE_CONTEXT, pr, 0, 0, 0, par, ctx);
    if (pnames) { for (int i = 0; i < par; i++) pn.push_back(fmt("%c%d", (char)('N' + i), (int)g.below(20))); s->parameters = genericOf(stringsOf(pn), osl_strings_interface()); }
    osl_statement_p* tail = &s->statement;
    for (int k = 0; k < ns; k++) {
      Want w;
      int it = (int)g.below(4), fake = it == 0;
      w.cols = it + fake + par + 2;
      auto faked = [&](std::vector<str> r) { if (fake) r.insert(r.begin() + 1, "0"); return r; };
      osl_statement_p x = osl_statement_malloc();
      M d;
      for (u64 i = g.below(4); i > 0; i--) { auto r = zeros((size_t)(it + par) + 2); r[0] = g.chance(70) ? "1" : "0"; for (size_t j = 1; j < r.size(); j++) r[j] = num(); d.push_back(r); }
      int dl = wrong == 1 ? 1 : 0;
      M dd = d; if (dl) { for (auto& r : dd) r.insert(r.begin() + 1 + it, "1"); wronged = true; }
      x->domain = relOf(OSL_TYPE_DOMAIN, pr, it, 0, dl, par, dd);
      if (fake) { auto r = zeros((size_t)w.cols); r[1] = "1"; w.dom.push_back(r); }
      for (auto& r : d) w.dom.push_back(faked(r));
      int sc = g.chance(60) ? 2 * it + 1 : 1 + (int)g.below(5), sl = wrong == 2 ? 1 : 0;
      if (sl) wronged = true;
      M sm;
      for (int i = 0; i < sc; i++) {
        auto r = zeros((size_t)(sc + it + sl + par) + 2);
        r[(size_t)i + 1] = "-1";
        for (size_t j = (size_t)sc + 1; j < r.size(); j++) r[j] = num();
        auto e = cut(r, 1, (size_t)sc);
        w.sca.push_back(faked(e));
        sm.push_back(r);
      }
      if (fake && sc == 1) { auto r = zeros((size_t)w.cols); w.sca.push_back(r); w.sca.push_back(r); w.sca[1][1] = "1"; }
      if (wrong == 3) { size_t i = g.below((u64)sc), j = g.below((u64)sc); sm[i][j + 1] = sm[i][j + 1] == "-1" ? (g.chance(50) ? "1" : "0") : "1"; wronged = true; }
      x->scattering = relOf(OSL_TYPE_SCATTERING, pr, sc, it, sl, par, sm);
      osl_relation_list_p* at_ = &x->access;
      for (u64 i = g.below(4); i > 0; i--) {
        bool wr = g.chance(40);
        int id = 1 + (int)g.below(6), sub = (int)g.below(4);
        M am; auto r = zeros((size_t)(1 + sub + it + par) + 2);
        r[1] = "-1"; r.back() = fmt("%d", id);
        am.push_back(r);
        M& to = wr ? w.wr : w.rd;
        if (!sub) { auto e = zeros((size_t)w.cols); e[0] = fmt("%d", id); to.push_back(e); }
        for (int u = 0; u < sub; u++) {
          auto a = zeros(r.size());
          a[(size_t)u + 2] = "-1";
          for (size_t j = (size_t)sub + 2; j < a.size(); j++) a[j] = num();
          am.push_back(a);
          auto e = cut(a, 1, (size_t)sub + 1);
          e = faked(e);
          e[0] = u ? "0" : fmt("%d", id);
          to.push_back(e);
        }
        *at_ = osl_relation_list_malloc();
        (*at_)->elt = relOf(wr ? OSL_TYPE_WRITE : OSL_TYPE_READ, pr, 1 + sub, it, 0, par, am);
        at_ = &(*at_)->next;
      }
      w.body = g.chance(75);
      if (w.body) {
        osl_body_p b = osl_body_malloc();
        for (int i = 0; i < it; i++) w.its.push_back(fmt("%c%d", (char)('i' + i), (int)g.below(9)));
        w.expr = {fmt("A[%d]", k), "=", "f(x);"};
        b->iterators = stringsOf(w.its); b->expression = stringsOf({fmt("A[%d] = f(x);", k)});
        x->extension = genericOf(b, osl_body_interface());
        if (!it) w.its = {"fakeiter"};
      }
      if (wrong == 4) { osl_relation_free(x->scattering); x->scattering = nullptr; wronged = true; }
      if (wrong == 5) { osl_relation_free(x->domain); x->domain = nullptr; wronged = true; }
      *tail = x; tail = &x->next;
      W.push_back(w);
    }
    if (arr) {
      osl_arrays_p a = osl_arrays_malloc();
      for (int i = 1; i <= 6; i++) if (g.chance(70)) an.push_back({i, fmt("arr%d", i)});
      a->nb_names = (int)an.size();
      a->id = (int*)sim_malloc(sizeof(int) * (an.size() + 1)); a->names = (char**)sim_malloc(sizeof(char*) * (an.size() + 1));
      for (size_t i = 0; i < an.size(); i++) { a->id[i] = an[i].first; a->names[i] = sim_strdup(an[i].second.c_str()); }
      s->extension = genericOf(a, osl_arrays_interface());
    }
    if (wrong == 6) { s->next = osl_scop_clone(s); wronged = ns > 0; }
  }
  Obj* o = newObj(K_SCOP, s, see(K_SCOP, s));
  o->odd = o->edited = true;
  if (wronged) refused("the SCoPLib export of what it can not represent", [&] { withFile([&](FILE* f) { osl_scop_print_scoplib(f, s); }); });
  if (wrong) { freeObj(o); return; }
  str text;
  { ConstArg ca(o); text = withFile([&](FILE* f) { LIBV(osl_scop_print_scoplib(f, s)); }); }
  unchanged(o, "print_scoplib");
  oldComments(text, s);
  OldReader R(text);
  R.want("SCoP", "the header"); R.want("C", "the language");
  R.matrix(ctx, par + 2, "the context");
  R.want(pnames ? "1" : "0", "the parameter flag");
  for (auto& n : pn) R.want(n, "a parameter name");
  R.want(fmt("%d", ns), "the number of statements");
  for (auto& w : W) {
    R.want("1", "the domain count"); R.matrix(w.dom, w.cols, "the domain");
    R.want("1", "the scattering flag"); R.matrix(w.sca, w.cols, "the scattering");
    R.want("1", "the access flag"); R.matrix(w.rd, w.cols, "the reads"); R.matrix(w.wr, w.cols, "the writes");
    R.want(w.body ? "1" : "0", "the body flag");
    for (auto& n : w.its) R.want(n, "an iterator");
    for (auto& n : w.expr) R.want(n, "the body");
  }
  if (arr) {
    R.want("<arrays>", "the options"); R.want(fmt("%zu", an.size()), "the number of arrays");
    for (auto& a : an) { R.want(fmt("%d", a.first), "an array identifier"); R.want(a.second, "an array name"); }
    R.want("</arrays>", "the options");
  }
  R.want("(end)", "the end");
  cover.ops["edit-scoplib"]++;
  say("edit scoplib " + fmt("%d", ns));
  maybeDrop(o, g, 30);
}

void mTexts(Rng& g);  // texts.cpp
void mNames(Rng& g);  // names.cpp
void mFormat(Rng& g, int only);  // format.cpp
void opEdit(const OpLine& l) {
  Rng g(H((u64)l.get("k"), 91));
  me().opSeed = H((u64)l.get("os"), 92); me().built = 0;
  if (me().objs.size() > 24) {  // keep the history bounded
    auto v = pool((int)g.below(K_COUNT));
    if (!v.empty()) freeObj(v[g.below(v.size())]);
  }
  switch (l.get("m") % 18) {
    case 0: mMatrix(g); break;
    case 1: mUnion(g); break;
    case 2: mList(g); break;
    case 3: mVector(g); break;
    case 4: mStrings(g); break;
    case 5: mGeneric(g); break;
    case 6: mInterface(g); break;
    case 7: mSymbols(g); break;
    case 8: mLoopDep(g); break;
    case 9: mArrays(g); break;
    case 10: mText(g); break;
    case 11: mScop(g); break;
    case 12: intStep(g, (int)l.get("ov")); break;
    case 13: mCheck(g); break;
    case 14: mScoplib(g); break;
    case 15: mTexts(g); break;
    case 16: mNames(g); break;
    case 17: mFormat(g, (int)l.get("only")); break;
  }
}
void editFree() { intFree(); }
}  // namespace sim
