#include "model.h"
#include <algorithm>
#include <climits>
#include <osl/extensions/annotation.h>
#include <osl/extensions/region.h>

namespace sim {
// ---------------------------------------------------------------- trees ----
str Node::text(int ind) const {
  str s((size_t)ind * 2, ' ');
  s += tag;
  if (!val.empty()) s += "=" + val;
  s += "\n";
  for (auto& c : k) s += c.text(ind + 1);
  return s;
}
static u64 hs(const str& s) { u64 h = 14695981039346656037ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
u64 Node::hash() const { u64 h = H(hs(tag), hs(val), k.size()); for (auto& c : k) h = H(h, c.hash()); return h; }
size_t Node::count() const { size_t n = 1; for (auto& c : k) n += c.count(); return n; }
bool same(const Node& a, const Node& b) {
  if (a.tag != b.tag || a.val != b.val || a.k.size() != b.k.size()) return false;
  for (size_t i = 0; i < a.k.size(); i++) if (!same(a.k[i], b.k[i])) return false;
  return true;
}
str diff(const Node& a, const Node& b, const str& path) {
  str p = path + "/" + a.tag;
  if (a.tag != b.tag) return p + ": '" + a.tag + "' vs '" + b.tag + "'";
  if (a.val != b.val) return p + ": " + a.val + " vs " + b.val;
  for (size_t i = 0; i < a.k.size() && i < b.k.size(); i++) {
    str d = diff(a.k[i], b.k[i], p + fmt("[%zu]", i));
    if (!d.empty()) return d;
  }
  if (a.k.size() != b.k.size()) return p + fmt(": %zu vs %zu elements", a.k.size(), b.k.size());
  return "";
}
Node prefix(const Node& n, size_t k) { Node m = n; if (m.k.size() > k) m.k.resize(k); return m; }

// -------------------------------------------------------------- helpers ----
char* dupz(const str& s) { char* p = (char*)sim_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static Node nI(const char* t, int& v, Leaves* L) { if (L) L->push_back({Leaf::INT, &v, 0, t, nullptr}); return Node(t, fmt("%d", v)); }
static Node nZ(const char* t, size_t v) { return Node(t, fmt("%zu", v)); }
static Node nS(const char* t, char*& s, Leaves* L) {
  if (!s) return Node(t, "(NULL)");
  if (L && *s) L->push_back({Leaf::STR, s, 0, t, nullptr});
  return Node(t, str("'") + s + "'");
}
str coefText(int prec, const osl_int_t& v) {
  if (prec == OSL_PRECISION_SP) return fmt("%ld", v.sp);
  if (prec == OSL_PRECISION_DP) return fmt("%lld", v.dp);
  if (!v.mp) return "(null mp)";
  size_t n = mpz_sizeinbase(*v.mp, 10) + 3;
  str s(n, 0);
  mpz_get_str(&s[0], 10, *v.mp);
  s.resize(strlen(s.c_str()));
  return s;
}
void coefSet(int prec, osl_int_t* p, const str& d) {
  if (prec == OSL_PRECISION_SP) p->sp = strtol(d.c_str(), nullptr, 10);
  else if (prec == OSL_PRECISION_DP) p->dp = strtoll(d.c_str(), nullptr, 10);
  else mpz_set_str(*p->mp, d.c_str(), 10);
}
str genCoef(G& g) {
  int m = g.magnitude;
  u64 x = g.r.below(100);
  if (x < 45) return "0";
  if (x < 70) return g.r.chance(50) ? "1" : "-1";
  if (x < 88 || m < 2) return fmt("%ld", g.r.range(-20, 20));
  if (x < 94 || m < 3) return fmt("%ld", g.r.range(-2000000, 2000000));
  if (x < 97) {
    static const char* edge[] = {"2147483647", "-2147483648", "2147483648", "-2147483649", "4294967296", "9223372036854775807", "-9223372036854775807", "1000000000000", "-9223372036854775808"};
    return edge[g.r.below(9)];
  }
  if (g.prec == OSL_PRECISION_MP && m >= 4) {
    int n = (int)g.r.range(20, 45);
    str s = g.r.chance(50) ? "-" : "";
    s += (char)('1' + g.r.below(9));
    for (int i = 1; i < n; i++) s += (char)('0' + g.r.below(10));
    return s;
  }
  return fmt("%ld", (long)(g.r.next() >> (1 + g.r.below(40))) * (g.r.chance(50) ? 1 : -1));
}
str genName(G& g, int maxlen) {
  static const char* first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
  static const char* rest = "abcdefghijklmnopqrstuvwxyz0123456789_ABC";
  int n = 1 + (int)g.r.below((u64)maxlen);
  if (g.r.chance(2)) n = 30 + (int)g.r.below(60);
  if (g.r.below(150) == 0) n = 200 + (int)g.r.below(1800);
  str s; s += first[g.r.below(53)];
  while ((int)s.size() < n) s += rest[g.r.below(40)];
  return s;
}
// one line of text without '#', newline, leading blanks; does not look like a tag
static str genLine(G& g, int maxlen, bool spaces = true) {
  static const char* cs = "abcdefghijklmnop0123456789+-*/=()[]{}&|!,;:._%^~?ABC";
  int n = 1 + (int)g.r.below((u64)maxlen);
  if (g.r.below(80) == 0) n = 1900 + (int)g.r.below(3000);  // beyond OSL_MAX_STRING
  str s;
  for (int i = 0; i < n; i++) {
    if (spaces && i > 0 && i + 1 < n && g.r.chance(12)) s += g.r.chance(90) ? ' ' : '\t';
    else s += cs[g.r.below(52)];
  }
  if (spaces && g.r.chance(10) && n > 3) s[(size_t)n / 2] = "<>\"'"[g.r.below(4)];
  if (s == "(null)") s = "x";
  return s;
}

// -------------------------------------------------------------- relation ----
static Node walkPart(osl_relation_p r, Leaves* L) {
  Node n("part");
  n.add(nI("type", r->type, L && r->type >= OSL_TYPE_READ ? L : nullptr));
  n.add(Node("precision", fmt("%d", r->precision)));
  n.add(Node("rows", fmt("%d", r->nb_rows)));
  n.add(Node("columns", fmt("%d", r->nb_columns)));
  n.add(Node("output", fmt("%d", r->nb_output_dims)));
  n.add(Node("input", fmt("%d", r->nb_input_dims)));
  n.add(Node("local", fmt("%d", r->nb_local_dims)));
  n.add(Node("params", fmt("%d", r->nb_parameters)));
  if (L) {
    L->push_back({Leaf::INT, &r->nb_output_dims, 0, "output", nullptr});
    L->push_back({Leaf::INT, &r->nb_input_dims, 0, "input", nullptr});
    L->push_back({Leaf::INT, &r->nb_local_dims, 0, "local", nullptr});
    L->push_back({Leaf::INT, &r->nb_parameters, 0, "params", nullptr});
  }
  if (r->nb_rows > 0 && r->m == nullptr) { n.add(Node("m", "(NULL)")); return n; }
  for (int i = 0; i < r->nb_rows; i++) {
    str row;
    for (int j = 0; j < r->nb_columns; j++) {
      row += (j ? " " : "") + coefText(r->precision, r->m[i][j]);
      if (L) L->push_back({Leaf::COEF, &r->m[i][j], r->precision, "coef", nullptr});
    }
    n.add(Node("row", "[" + row + "]"));
  }
  if (L && r->nb_rows > 1) L->push_back({Leaf::CUT, r, 0, "cut-row", [r] {
    osl_relation_p t = r->next; r->next = nullptr; osl_relation_remove_row(r, r->nb_rows - 1); r->next = t; }});
  return n;
}
Node walkRelation(osl_relation_p r, Leaves* L) {
  Node n("relation");
  for (; r; r = r->next) {
    n.add(walkPart(r, L));
    if (L && r->next) { osl_relation_p q = r; L->push_back({Leaf::CUT, q, 0, "cut-part", [q] { osl_relation_p t = q->next; q->next = nullptr; osl_relation_free(t); }}); }
  }
  return n;
}
// Rarely, a list is a long one: counts of two and three digits.
static int many(G& g, int n, int odds = 60) { return g.size < 2 || g.r.below((u64)odds) ? n : n + 8 + (int)g.r.below(g.r.chance(20) ? 120 : 20); }
static int more(G& g, int n, int odds = 120) { return g.size < 2 || g.r.below((u64)odds) ? n : n + 8 + (int)g.r.below(5); }
osl_relation_p genRelation(G& g, int type, int out, int in, int loc, int par, int rows, int parts, int arrayId) {
  osl_relation_p head = nullptr, tail = nullptr;
  for (int p = 0; p < parts; p++) {
    int rr = rows < 0 ? many(g, (int)g.r.below((u64)(2 + g.size * 2)), 150) : rows;
    int ll = loc < 0 ? (int)g.r.below(g.size > 1 ? 3 : 1) : loc;
    bool acc = type >= OSL_TYPE_ACCESS;
    if (acc && rr < 1) rr = 1;
    int cols = out + in + ll + par + 2;
    osl_relation_p r = osl_relation_pmalloc(g.prec, rr, cols);
    r->type = type; r->nb_output_dims = out; r->nb_input_dims = in; r->nb_local_dims = ll; r->nb_parameters = par;
    r->usr = nullptr;
    for (int i = 0; i < rr; i++) {
      for (int j = 0; j < cols; j++) {
        str v = j == 0 ? (g.r.chance(60) ? "1" : "0") : genCoef(g);
        if (acc) {
          if (i == 0) v = j == 1 ? "-1" : j == cols - 1 ? fmt("%d", arrayId) : "0";
          else if (j == 1) v = "0";
        }
        coefSet(g.prec, &r->m[i][j], v);
      }
    }
    if (tail) tail->next = r; else head = r;
    tail = r;
  }
  return head;
}
static void* gRelation(G& g) {
  static const int types[] = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
  int t = types[g.r.below(6)];
  int par = more(g, (int)g.r.below((u64)g.size + 1), 60);
  if (g.size >= 3 && g.r.below(150) == 0) return genRelation(g, OSL_TYPE_CONTEXT, 0, 0, 0, 200 + (int)g.r.below(500), 1 + (int)g.r.below(2), 1, 0);  // rows longer than OSL_MAX_STRING
  int parts = g.r.chance(70) ? 1 : more(g, 2 + (int)g.r.below(2), 12);
  int out, in;
  if (t == OSL_TYPE_CONTEXT) { out = 0; in = 0; return genRelation(g, t, 0, 0, g.r.chance(80) ? 0 : -1, par, -1, parts, 0); }
  out = more(g, (int)g.r.below((u64)g.size + 2), 50);
  in = t == OSL_TYPE_DOMAIN ? 0 : more(g, (int)g.r.below((u64)g.size + 1), 50);
  if (t >= OSL_TYPE_ACCESS) out = std::max(out, 1);
  int rows = g.size >= 2 && g.r.below(40) == 0 ? 10 + (int)g.r.below(150) : -1;
  return genRelation(g, t, out, in, -1, par, rows, rows < 0 ? parts : 1, 1 + (int)g.r.below(6));
}
static void* gRelDomain(G& g) { return genRelation(g, OSL_TYPE_DOMAIN, 1 + (int)g.r.below(3), 0, -1, (int)g.r.below(3), -1, 1, 0); }

// --------------------------------------------------------------- strings ----
static Node wStrings(osl_strings_p s, Leaves* L) {
  if (!s) return Node("strings", "(NULL)");
  Node n("strings");
  if (!s->string) return n;
  for (int i = 0; s->string[i]; i++) {
    n.add(nS("s", s->string[i], L));
    if (L) { char** q = &s->string[i]; if (!s->string[i + 1]) L->push_back({Leaf::CUT, q, 0, "cut-string", [q] { sim_free(*q); *q = nullptr; }}); }
  }
  return n;
}
static osl_strings_p mkStrings(const std::vector<str>& v) {
  osl_strings_p s = (osl_strings_p)sim_malloc(sizeof(osl_strings_t));
  s->string = (char**)sim_malloc((v.size() + 1) * sizeof(char*));
  for (size_t i = 0; i < v.size(); i++) s->string[i] = dupz(v[i]);
  s->string[v.size()] = nullptr;
  return s;
}
static std::vector<str> names(G& g, size_t n, const char* pfx = nullptr) {
  std::vector<str> v;
  for (size_t i = 0; i < n; i++) v.push_back(pfx && g.r.chance(50) ? fmt("%s%zu", pfx, i) : genName(g));
  return v;
}
static void* gStrings(G& g) { return mkStrings(names(g, (size_t)many(g, 1 + (int)g.r.below((u64)g.size * 2 + 1), 30))); }

// ------------------------------------------------------------------ body ----
static Node wBody(osl_body_p b, Leaves* L) {
  if (!b) return Node("body", "(NULL)");
  Node n("body");
  Node it("iterators"); it.add(wStrings(b->iterators, L)); n.add(it);
  Node ex("expression"); ex.add(wStrings(b->expression, L)); n.add(ex);
  return n;
}
static osl_body_p mkBody(G& g, int nit) {
  osl_body_p b = osl_body_malloc();
  if (b->iterators) { osl_strings_free(b->iterators); }
  if (b->expression) { osl_strings_free(b->expression); }
  if (g.r.chance(10)) nit = (int)g.r.below((u64)nit + 2);  // may not name every dimension
  b->iterators = mkStrings(names(g, (size_t)nit, "i"));
  b->expression = mkStrings({genLine(g, g.r.chance(5) ? 400 : 40)});
  return b;
}
static void* gBody(G& g) { return mkBody(g, (int)g.r.below((u64)g.size + 1)); }

// ------------------------------------------------------------ extensions ----
static Node wArrays(osl_arrays_p a, Leaves* L) {
  if (!a) return Node("arrays", "(NULL)");
  Node n("arrays");
  n.add(nZ("nb", (size_t)a->nb_names));
  for (int i = 0; i < a->nb_names; i++) { Node e("array"); e.add(nI("id", a->id[i], L)); e.add(nS("name", a->names[i], L)); n.add(e); }
  if (L && a->nb_names > 0) L->push_back({Leaf::CUT, a, 0, "cut-array", [a] { --a->nb_names; sim_free(a->names[a->nb_names]); a->names[a->nb_names] = nullptr; }});
  return n;
}
static osl_arrays_p mkArrays(G& g, int maxId) {
  osl_arrays_p a = osl_arrays_malloc();
  std::vector<int> ids;
  for (int i = 1; i <= maxId; i++) ids.push_back(i);
  for (size_t i = ids.size(); i > 1; i--) if (g.r.chance(30)) std::swap(ids[i - 1], ids[g.r.below(i)]);
  if (!ids.empty() && g.r.chance(20)) ids.erase(ids.begin() + (long)g.r.below(ids.size()));
  a->nb_names = (int)ids.size();
  a->id = (int*)sim_malloc(ids.size() * sizeof(int) + 1);
  a->names = (char**)sim_malloc(ids.size() * sizeof(char*) + 1);
  for (size_t i = 0; i < ids.size(); i++) { a->id[i] = ids[i]; a->names[i] = dupz(genName(g)); }
  return a;
}
static void* gArrays(G& g) { return mkArrays(g, many(g, (int)g.r.below((u64)g.size * 2 + 2), 30)); }

static str genText(G& g, int maxlines) {
  str s; int n = 1 + (int)g.r.below((u64)maxlines);
  for (int i = 0; i < n; i++) { s += genLine(g, 50); s += "\n"; if (g.r.chance(10)) s += "\n"; }
  if (g.r.chance(20)) s.pop_back();
  return s;
}
static Node wClay(osl_clay_p c, Leaves* L) { if (!c) return Node("clay", "(NULL)"); Node n("clay"); n.add(nS("script", c->script, L)); return n; }
static void* gClay(G& g) { osl_clay_p c = osl_clay_malloc(); c->script = dupz(genText(g, 1 + g.size)); return c; }
static Node wComment(osl_comment_p c, Leaves* L) { if (!c) return Node("comment", "(NULL)"); Node n("comment"); n.add(nS("comment", c->comment, L)); return n; }
static void* gComment(G& g) { osl_comment_p c = osl_comment_malloc(); c->comment = dupz(genText(g, 1 + g.size)); return c; }
static Node wTextual(osl_textual_p c, Leaves* L) { if (!c) return Node("textual", "(NULL)"); Node n("textual"); n.add(nS("textual", c->textual, L)); return n; }
static void* gTextual(G& g) { osl_textual_p c = osl_textual_malloc(); c->textual = dupz(genText(g, 1 + g.size)); return c; }
static Node wNull(osl_null_p c, Leaves*) { return Node("null", c ? "" : "(NULL)"); }
static void* gNull(G&) { return osl_null_malloc(); }
static Node wCoord(osl_coordinates_p c, Leaves* L) {
  if (!c) return Node("coordinates", "(NULL)");
  Node n("coordinates");
  if (L && c->name) L->push_back({Leaf::CUT, c, 0, "null-name", [c] { sim_free(c->name); c->name = nullptr; }});
  n.add(nS("name", c->name, L)); n.add(nI("line_start", c->line_start, L)); n.add(nI("line_end", c->line_end, L));
  n.add(nI("column_start", c->column_start, L)); n.add(nI("column_end", c->column_end, L)); n.add(nI("indent", c->indent, L));
  return n;
}
static void* gCoord(G& g) {
  osl_coordinates_p c = osl_coordinates_malloc();
  c->name = dupz("dir/" + genName(g) + (g.r.chance(30) ? " a b.c" : ".c"));
  c->line_start = (int)g.r.range(-1, 5000); c->line_end = (int)g.r.range(-1, 5000); c->column_start = (int)g.r.range(-1, 200);
  c->column_end = (int)g.r.range(-1, 200); c->indent = (int)g.r.range(-1, 80);
  return c;
}
static Node wDep(osl_dependence_p d, Leaves* L) {
  Node n("dependence");
  for (; d; d = d->next) {
    Node e("dep");
    e.add(nI("label_source", d->label_source, L)); e.add(nI("label_target", d->label_target, L));
    e.add(nI("ref_source", d->ref_source, L)); e.add(nI("ref_target", d->ref_target, L));
    e.add(nI("depth", d->depth, L)); e.add(nI("dtype", d->type, L));
    e.add(nI("son", d->source_nb_output_dims_domain, L)); e.add(nI("soa", d->source_nb_output_dims_access, L));
    e.add(nI("ton", d->target_nb_output_dims_domain, L)); e.add(nI("toa", d->target_nb_output_dims_access, L));
    e.add(nI("sln", d->source_nb_local_dims_domain, L)); e.add(nI("sla", d->source_nb_local_dims_access, L));
    e.add(nI("tln", d->target_nb_local_dims_domain, L)); e.add(nI("tla", d->target_nb_local_dims_access, L));
    e.add(walkRelation(d->domain, L));
    if (L && d->domain) L->push_back({Leaf::CUT, d, 0, "null-depdomain", [d] { osl_relation_free(d->domain); d->domain = nullptr; }});
    n.add(e);
    if (L && d->next) { osl_dependence_p q = d; L->push_back({Leaf::CUT, q, 0, "cut-dep", [q] { osl_dependence_p t = q->next; q->next = nullptr; osl_dependence_free(t); }}); }
  }
  return n;
}
static osl_dependence_p mkDep1(G& g) {
  static const int types[] = {OSL_UNDEFINED, OSL_DEPENDENCE_RAW, OSL_DEPENDENCE_WAR, OSL_DEPENDENCE_WAW, OSL_DEPENDENCE_RAR, OSL_DEPENDENCE_RAW_SCALPRIV};
  osl_dependence_p d = osl_dependence_malloc();
  d->label_source = (int)g.r.below(5); d->label_target = (int)g.r.below(5); d->ref_source = (int)g.r.range(-1, 4); d->ref_target = (int)g.r.range(-1, 4);
  d->depth = (int)g.r.range(-1, 6); d->type = types[g.r.below(6)];
  d->source_nb_output_dims_domain = (int)g.r.below(4); d->source_nb_output_dims_access = (int)g.r.below(4);
  d->target_nb_output_dims_domain = (int)g.r.below(4); d->target_nb_output_dims_access = (int)g.r.below(4);
  d->source_nb_local_dims_domain = (int)g.r.below(3); d->source_nb_local_dims_access = (int)g.r.below(3);
  d->target_nb_local_dims_domain = (int)g.r.below(3); d->target_nb_local_dims_access = (int)g.r.below(3);
  d->domain = (osl_relation_p)gRelDomain(g);
  d->usr = nullptr;
  return d;
}
static void* gDep(G& g) {
  osl_dependence_p h = nullptr, t = nullptr; int n = more(g, 1 + (int)g.r.below((u64)g.size + 1), 40);
  for (int i = 0; i < n; i++) { osl_dependence_p d = mkDep1(g); if (t) t->next = d; else h = d; t = d; }
  return h;
}
static Node wExtbody(osl_extbody_p e, Leaves* L) {
  if (!e) return Node("extbody", "(NULL)");
  Node n("extbody");
  n.add(nZ("nb_access", e->nb_access));
  for (size_t i = 0; i < e->nb_access; i++) { Node c("coord"); c.add(nI("start", e->start[i], L)); c.add(nI("length", e->length[i], L)); n.add(c); }
  n.add(wBody(e->body, L));
  return n;
}
static osl_extbody_p mkExtbody(G& g, int nit) {
  osl_extbody_p e = osl_extbody_malloc();
  size_t n = (size_t)many(g, (int)g.r.below((u64)g.size + 2), 30);
  e->nb_access = n;
  e->start = (int*)sim_malloc(n * sizeof(int) + 1); e->length = (int*)sim_malloc(n * sizeof(int) + 1);
  for (size_t i = 0; i < n; i++) { e->start[i] = (int)g.r.range(-1, 60); e->length[i] = (int)g.r.range(-1, 20); }
  if (e->body) osl_body_free(e->body);
  e->body = mkBody(g, nit);
  return e;
}
static void* gExtbody(G& g) { return mkExtbody(g, (int)g.r.below((u64)g.size + 1)); }
static Node wIrregular(osl_irregular_p r, Leaves* L) {
  if (!r) return Node("irregular", "(NULL)");
  Node n("irregular");
  n.add(nZ("nb_control", (size_t)r->nb_control)); n.add(nZ("nb_exit", (size_t)r->nb_exit)); n.add(nZ("nb_statements", (size_t)r->nb_statements));
  for (int i = 0; i < r->nb_control + r->nb_exit; i++) {
    Node e("pred"); e.add(nZ("n", (size_t)r->nb_iterators[i]));
    for (int j = 0; j < r->nb_iterators[i]; j++) e.add(nS("it", r->iterators[i][j], L));
    e.add(nS("body", r->body[i], L)); n.add(e);
  }
  for (int i = 0; i < r->nb_statements; i++) {
    Node e("stmt"); e.add(nZ("n", (size_t)r->nb_predicates[i]));
    for (int j = 0; j < r->nb_predicates[i]; j++) e.add(nI("p", r->predicates[i][j], L));
    n.add(e);
    if (L && r->nb_predicates[i] > 0) L->push_back({Leaf::CUT, r, 0, "cut-predicate", [r, i] { r->nb_predicates[i]--; }});
  }
  if (L) {
    int np = r->nb_control + r->nb_exit;
    for (int i = 0; i < np; i++) if (r->nb_iterators[i] > 0) L->push_back({Leaf::CUT, r, 0, "cut-iterator", [r, i] { char*& q = r->iterators[i][--r->nb_iterators[i]]; sim_free(q); q = nullptr; }});
    if (r->nb_statements > 0) L->push_back({Leaf::CUT, r, 0, "cut-stmt", [r] { auto& q = r->predicates[--r->nb_statements]; sim_free(q); q = nullptr; }});
    if (np > 0) L->push_back({Leaf::CUT, r, 0, "cut-pred", [r, np] {
      for (int j = 0; j < r->nb_iterators[np - 1]; j++) sim_free(r->iterators[np - 1][j]);
      sim_free(r->iterators[np - 1]); sim_free(r->body[np - 1]); r->iterators[np - 1] = nullptr; r->body[np - 1] = nullptr;
      if (r->nb_exit > 0) r->nb_exit--; else r->nb_control--; }});
    if (r->nb_control > 0) L->push_back({Leaf::CUT, r, 0, "control-to-exit", [r] { r->nb_control--; r->nb_exit++; }});
  }
  return n;
}
static void* gIrregular(G& g) {
  osl_irregular_p r = osl_irregular_malloc();
  int nc = more(g, (int)g.r.below((u64)g.size + 1), 30), ne = more(g, (int)g.r.below((u64)g.size), 30), ns = more(g, (int)g.r.below((u64)g.size + 1), 30), np = nc + ne;
  r->nb_control = nc; r->nb_exit = ne; r->nb_statements = ns;
  r->nb_iterators = (int*)sim_malloc((size_t)np * sizeof(int) + 1); r->iterators = (char***)sim_malloc((size_t)np * sizeof(char**) + 1);
  r->body = (char**)sim_malloc((size_t)np * sizeof(char*) + 1);
  for (int i = 0; i < np; i++) {
    int k = (int)g.r.below(3);
    r->nb_iterators[i] = k; r->iterators[i] = (char**)sim_malloc((size_t)k * sizeof(char*) + 1);
    for (int j = 0; j < k; j++) r->iterators[i][j] = dupz(genName(g));
    r->body[i] = dupz(genLine(g, g.r.chance(15) ? 1200 : 20));
  }
  r->nb_predicates = (int*)sim_malloc((size_t)ns * sizeof(int) + 1); r->predicates = (int**)sim_malloc((size_t)ns * sizeof(int*) + 1);
  for (int i = 0; i < ns; i++) {
    int k = (int)g.r.below(3); r->nb_predicates[i] = k; r->predicates[i] = (int*)sim_malloc((size_t)k * sizeof(int) + 1);
    for (int j = 0; j < k; j++) r->predicates[i][j] = (int)g.r.below(9);
  }
  return r;
}
static Node wLoop(osl_loop_p l, Leaves* L) {
  Node n("loop");
  for (; l; l = l->next) {
    Node e("l");
    e.add(nS("iter", l->iter, L)); e.add(nZ("nb_stmts", l->nb_stmts));
    for (size_t i = 0; i < l->nb_stmts; i++) e.add(nI("id", l->stmt_ids[i], L));
    if (L && l->nb_stmts > 0) L->push_back({Leaf::CUT, l, 0, "cut-id", [l] { l->nb_stmts--; }});
    if (L && l->iter) L->push_back({Leaf::CUT, l, 0, "null-iter", [l] { sim_free(l->iter); l->iter = nullptr; }});
    if (L && l->private_vars) L->push_back({Leaf::CUT, l, 0, "null-private", [l] { sim_free(l->private_vars); l->private_vars = nullptr; }});
    if (L && l->user) L->push_back({Leaf::CUT, l, 0, "null-user", [l] { sim_free(l->user); l->user = nullptr; }});
    e.add(nS("private", l->private_vars, L)); e.add(nI("directive", l->directive, L)); e.add(nS("user", l->user, L));
    n.add(e);
    if (L && l->next) { osl_loop_p q = l; L->push_back({Leaf::CUT, q, 0, "cut-loop", [q] { osl_loop_p t = q->next; q->next = nullptr; osl_loop_free(t); }}); }
  }
  return n;
}
static osl_loop_p mkLoop1(G& g) {
  osl_loop_p l = osl_loop_malloc();
  l->iter = dupz(genName(g));
  l->nb_stmts = (size_t)many(g, (int)g.r.below((u64)g.size + 2), 40);
  l->stmt_ids = (int*)sim_malloc(l->nb_stmts * sizeof(int) + 1);
  for (size_t i = 0; i < l->nb_stmts; i++) l->stmt_ids[i] = (int)(g.r.below(4) + i * 4);
  l->private_vars = g.r.chance(40) ? nullptr : dupz(genLine(g, 20));
  l->directive = (int)g.r.below(16);
  l->user = (l->directive & OSL_LOOP_DIRECTIVE_USER) && g.r.chance(80) ? dupz(genLine(g, 20)) : nullptr;
  return l;
}
static void* gLoop(G& g) {
  osl_loop_p h = nullptr, t = nullptr; int n = many(g, 1 + (int)g.r.below((u64)g.size + 1), 40);
  for (int i = 0; i < n; i++) { osl_loop_p d = mkLoop1(g); if (t) t->next = d; else h = d; t = d; }
  return h;
}
static Node wPluto(osl_pluto_unroll_p l, Leaves* L) {
  Node n("pluto_unroll");
  for (; l; l = l->next) {
    Node e("u"); e.add(nS("iter", l->iter, L)); e.add(Node("jam", l->jam ? "1" : "0")); e.add(Node("factor", fmt("%u", l->factor)));
    if (L) { L->push_back({Leaf::BOOL, &l->jam, 0, "jam", nullptr}); L->push_back({Leaf::UINT, &l->factor, 0, "factor", nullptr}); }
    n.add(e);
    if (L && l->iter) L->push_back({Leaf::CUT, l, 0, "null-iter", [l] { sim_free(l->iter); l->iter = nullptr; }});
    if (L && l->next) { osl_pluto_unroll_p q = l; L->push_back({Leaf::CUT, q, 0, "cut-unroll", [q] { osl_pluto_unroll_p t = q->next; q->next = nullptr; osl_pluto_unroll_free(t); }}); }
  }
  return n;
}
static void* gPluto(G& g) {
  osl_pluto_unroll_p h = nullptr, t = nullptr; int n = many(g, 1 + (int)g.r.below((u64)g.size + 2), 30);
  for (int i = 0; i < n; i++) {
    osl_pluto_unroll_p d = osl_pluto_unroll_malloc();
    osl_pluto_unroll_fill(d, genName(g).c_str(), g.r.chance(50), (unsigned)g.r.below(64));
    if (t) t->next = d; else h = d; t = d;
  }
  return h;
}
template <class T> static Node wText(const char* tag, T& t, Leaves* L) {
  Node n(tag);
  n.add(nZ("count", t.count));
  for (size_t i = 0; i < t.count; i++) { Node e("line"); e.add(nI("ltype", t.types[i], L)); e.add(nS("text", t.lines[i], L)); n.add(e); }
  if (L && t.count > 0) { T* q = &t; L->push_back({Leaf::CUT, q, 0, "cut-line", [q] { auto& x = q->lines[--q->count]; sim_free(x); x = nullptr; }}); }
  return n;
}
template <class T> static void gText(G& g, T& t) {
  size_t n = (size_t)more(g, (int)g.r.below((u64)g.size + 1), 60);
  if (n == 0) return;
  t.types = (int*)sim_malloc(n * sizeof(int)); t.lines = (char**)sim_malloc(n * sizeof(char*)); t.count = n;
  for (size_t i = 0; i < n; i++) { t.types[i] = (int)g.r.below(4); t.lines[i] = dupz(genLine(g, 30)); }
}
static Node wRegion(osl_region_t* r, Leaves* L) {
  Node n("region");
  for (; r; r = r->next) {
    Node e("r"); e.add(nI("location", r->location, L));
    e.add(wText("prefix", r->prefix, L)); e.add(wText("suffix", r->suffix, L)); e.add(wText("prelude", r->prelude, L)); e.add(wText("postlude", r->postlude, L));
    n.add(e);
    if (L && r->next) { osl_region_t* q = r; L->push_back({Leaf::CUT, q, 0, "cut-region", [q] { osl_region_t* t = q->next; q->next = nullptr; osl_region_free(t); }}); }
  }
  return n;
}
static void* gRegion(G& g) {
  osl_region_t *h = nullptr, *t = nullptr; int n = more(g, 1 + (int)g.r.below((u64)g.size + 1), 40);
  for (int i = 0; i < n; i++) {
    osl_region_t* d = osl_region_malloc(); d->location = (int)g.r.below(9);
    gText(g, d->prefix); gText(g, d->suffix); gText(g, d->prelude); gText(g, d->postlude);
    if (t) t->next = d; else h = d; t = d;
  }
  return h;
}
static Node wAnnotation(osl_annotation_t* r, Leaves* L) {
  if (!r) return Node("annotation", "(NULL)");
  Node n("annotation"); n.add(wText("prefix", r->prefix, L)); n.add(wText("suffix", r->suffix, L)); return n;
}
static void* gAnnotation(G& g) { osl_annotation_t* d = osl_annotation_malloc(); gText(g, d->prefix); gText(g, d->suffix); return d; }
static Node wScatinfos(osl_scatinfos_p s, Leaves* L) {
  if (!s) return Node("scatinfos", "(NULL)");
  Node n("scatinfos"); n.add(nZ("nb", s->nb_scatdims));
  for (size_t i = 0; i < s->nb_scatdims; i++) { Node e("dim"); e.add(nI("parallel", s->parallel[i], L)); e.add(nI("permutable", s->permutable[i], L)); e.add(nI("stype", s->type[i], L)); n.add(e); }
  if (L && s->nb_scatdims > 0) L->push_back({Leaf::CUT, s, 0, "cut-scatdim", [s] { s->nb_scatdims--; }});
  return n;
}
static void* gScatinfos(G& g) {
  osl_scatinfos_p s = osl_scatinfos_malloc(); size_t n = (size_t)many(g, (int)g.r.below((u64)g.size * 2 + 2), 30); s->nb_scatdims = n;
  s->parallel = (int*)sim_malloc(n * sizeof(int) + 1); s->permutable = (int*)sim_malloc(n * sizeof(int) + 1); s->type = (int*)sim_malloc(n * sizeof(int) + 1);
  for (size_t i = 0; i < n; i++) { s->parallel[i] = (int)g.r.below(2); s->permutable[i] = (int)g.r.below(5); s->type[i] = (int)g.r.below(2); }
  return s;
}
static Node wScatnames(osl_scatnames_p s, Leaves* L) { if (!s) return Node("scatnames", "(NULL)"); Node n("scatnames"); n.add(wStrings(s->names, L)); return n; }
static void* gScatnames(G& g) { osl_scatnames_p s = osl_scatnames_malloc(); s->names = mkStrings(names(g, (size_t)many(g, 1 + (int)g.r.below((u64)g.size * 2 + 1), 30), "b")); return s; }

static Node wGeneric(osl_generic_p g, Leaves* L);
static Node wSymbols(osl_symbols_p s, Leaves* L) {
  Node n("symbols");
  for (; s; s = s->next) {
    Node e("sym");
    e.add(nI("type", s->type, L)); e.add(nI("generated", s->generated, L)); e.add(nI("nb_dims", s->nb_dims, L));
    Node a("identifier"); a.add(wGeneric(s->identifier, L)); e.add(a);
    Node b("datatype"); b.add(wGeneric(s->datatype, L)); e.add(b);
    Node c("scope"); c.add(wGeneric(s->scope, L)); e.add(c);
    Node d("extent"); d.add(wGeneric(s->extent, L)); e.add(d);
    n.add(e);
    if (L) for (osl_generic_p* f : {&s->identifier, &s->datatype, &s->scope, &s->extent}) if (*f) L->push_back({Leaf::CUT, f, 0, "null-symdata", [f] { osl_generic_free(*f); *f = nullptr; }});
    if (L && s->next) { osl_symbols_p q = s; L->push_back({Leaf::CUT, q, 0, "cut-symbol", [q] { osl_symbols_p t = q->next; q->next = nullptr; osl_symbols_free(t); }}); }
  }
  return n;
}
osl_generic_p wrapGeneric(int kind, void* data);
static osl_generic_p stringsGeneric(const std::vector<str>& v) { return osl_generic_shell(mkStrings(v), osl_strings_interface()); }
static osl_symbols_p mkSym1(G& g) {
  static const int types[] = {OSL_UNDEFINED, OSL_SYMBOL_TYPE_ITERATOR, OSL_SYMBOL_TYPE_PARAMETER, OSL_SYMBOL_TYPE_ARRAY, OSL_SYMBOL_TYPE_FUNCTION};
  osl_symbols_p s = osl_symbols_malloc();
  s->type = types[g.r.below(5)]; s->generated = (int)g.r.below(2); s->nb_dims = (int)g.r.below(4); s->usr = nullptr;
  s->identifier = stringsGeneric({genName(g)}); s->datatype = stringsGeneric({genName(g)});
  s->scope = stringsGeneric({genName(g)}); s->extent = stringsGeneric(names(g, 1 + g.r.below(3)));
  if (g.r.chance(20)) {  // any known type of data may describe a symbol
    static const int ks[] = {K_BODY, K_RELATION, K_COORDINATES, K_ARRAYS, K_SCATNAMES};
    osl_generic_p* f = g.r.chance(50) ? &s->datatype : g.r.chance(50) ? &s->scope : &s->extent;
    int k = ks[g.r.below(5)];
    osl_generic_free(*f);
    *f = wrapGeneric(k, kinds[k].gen(g));
  }
  return s;
}
static void* gSymbols(G& g) {
  osl_symbols_p h = nullptr, t = nullptr; int n = more(g, 1 + (int)g.r.below((u64)std::min(g.size, 3) + 1), 40);
  for (int i = 0; i < n; i++) { osl_symbols_p d = mkSym1(g); if (t) t->next = d; else h = d; t = d; }
  return h;
}

// -------------------------------------------------------------- vector etc ----
static Node wVector(osl_vector_p v, Leaves* L) {
  if (!v) return Node("vector", "(NULL)");
  Node n("vector"); n.add(Node("precision", fmt("%d", v->precision))); n.add(nZ("size", (size_t)v->size));
  for (int i = 0; i < v->size; i++) { n.add(Node("v", coefText(v->precision, v->v[i]))); if (L) L->push_back({Leaf::COEF, &v->v[i], v->precision, "coef", nullptr}); }
  return n;
}
static void* gVector(G& g) {
  osl_vector_p v = osl_vector_pmalloc(g.prec, many(g, 1 + (int)g.r.below((u64)g.size * 3 + 1), 40));
  for (int i = 0; i < v->size; i++) coefSet(g.prec, &v->v[i], genCoef(g));
  return v;
}
static Node wNames(osl_names_p v, Leaves* L) {
  if (!v) return Node("names", "(NULL)");
  Node n("names"); n.add(wStrings(v->parameters, L)); n.add(wStrings(v->iterators, L)); n.add(wStrings(v->scatt_dims, L)); n.add(wStrings(v->local_dims, L)); n.add(wStrings(v->arrays, L));
  return n;
}
static void* gNames(G& g) {
  osl_names_p v = osl_names_malloc();
  v->parameters = mkStrings(names(g, g.r.below(4))); v->iterators = mkStrings(names(g, g.r.below(4))); v->scatt_dims = mkStrings(names(g, g.r.below(4)));
  v->local_dims = mkStrings(names(g, g.r.below(4))); v->arrays = mkStrings(names(g, g.r.below(4)));
  return v;
}
static Node wInterface(osl_interface_p i, Leaves*) {
  Node n("registry");
  for (; i; i = i->next) {
    Node e("interface", i->URI ? i->URI : "(NULL)");
    e.add(Node("idump", i->idump ? "set" : "null")); e.add(Node("sprint", i->sprint ? "set" : "null")); e.add(Node("sread", i->sread ? "set" : "null"));
    e.add(Node("malloc", i->malloc ? "set" : "null")); e.add(Node("free", i->free ? "set" : "null")); e.add(Node("clone", i->clone ? "set" : "null")); e.add(Node("equal", i->equal ? "set" : "null"));
    n.add(e);
  }
  return n;
}
osl_interface_t* (*const ifaceOf[])(void) = {
    nullptr, nullptr, osl_relation_interface, nullptr, osl_strings_interface, osl_body_interface, nullptr, nullptr, nullptr, nullptr,
    osl_arrays_interface, osl_clay_interface, osl_comment_interface, osl_coordinates_interface, osl_dependence_interface, osl_extbody_interface,
    osl_irregular_interface, osl_loop_interface, osl_null_interface, osl_pluto_unroll_interface, osl_region_interface, osl_annotation_interface,
    osl_scatinfos_interface, osl_scatnames_interface, osl_symbols_interface, osl_textual_interface};
static void* gInterface(G& g) {
  osl_interface_p h = nullptr, t = nullptr;
  std::vector<int> ks;
  for (int k = 0; k < K_COUNT; k++) if (ifaceOf[k] && g.r.chance(50)) ks.push_back(k);
  if (ks.empty()) ks.push_back(K_BODY);
  for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[g.r.below(i)]);
  for (int k : ks) { osl_interface_p i = ifaceOf[k](); if (t) t->next = i; else h = i; t = i; }
  return h;
}

// --------------------------------------------------------------- generic ----
int kindOfURI(const str& u) {
  static const std::map<str, int> m = {{"strings", K_STRINGS}, {"body", K_BODY}, {"relation", K_RELATION}, {"comment", K_COMMENT}, {"arrays", K_ARRAYS},
    {"clay", K_CLAY}, {"coordinates", K_COORDINATES}, {"dependence", K_DEPENDENCE}, {"extbody", K_EXTBODY}, {"loop", K_LOOP}, {"null", K_NULL},
    {"pluto_unroll", K_PLUTO}, {"region", K_REGION}, {"annotation", K_ANNOTATION}, {"scatinfos", K_SCATINFOS}, {"scatnames", K_SCATNAMES},
    {"symbols", K_SYMBOLS}, {"textual", K_TEXTUAL}, {"irregular", K_IRREGULAR}};
  auto i = m.find(u); return i == m.end() ? -1 : i->second;
}
static Node wGeneric(osl_generic_p g, Leaves* L) {
  Node n("generics");
  for (; g; g = g->next) {
    Node e("generic");
    if (!g->interface) e.add(Node("interface", "(NULL)"));
    else {
      Node i = wInterface(g->interface, nullptr);
      if (i.k.size() != 1) e.add(Node("interface", "not exactly one"));
      e.val = g->interface->URI ? g->interface->URI : "(NULL)";
      e.add(i);
      int k = g->interface->URI ? kindOfURI(g->interface->URI) : -1;
      if (!g->data) e.add(Node("data", "(NULL)"));
      else if (k >= 0) e.add(kinds[k].walk(g->data, L));
      else e.add(Node("data", "(opaque)"));
    }
    n.add(e);
    if (L && g->next) { osl_generic_p q = g; L->push_back({Leaf::CUT, q, 0, "cut-generic", [q] { osl_generic_p t = q->next; q->next = nullptr; osl_generic_free(t); }}); }
  }
  return n;
}
osl_generic_p wrapGeneric(int kind, void* data) { return osl_generic_shell(data, ifaceOf[kind]()); }
static const int scopExtKinds[] = {K_COMMENT, K_SCATNAMES, K_ARRAYS, K_COORDINATES, K_CLAY, K_DEPENDENCE, K_LOOP, K_PLUTO, K_REGION, K_SYMBOLS, K_SCATINFOS, K_ANNOTATION, K_NULL, K_STRINGS, K_RELATION, K_BODY, K_EXTBODY};
static const int nScopExt = 17;
static void gAppend(osl_generic_p* h, osl_generic_p n) { while (*h) h = &(*h)->next; *h = n; }
static osl_generic_p genExts(G& g, int pct, int maxArray, bool arraysOk) {
  osl_generic_p h = nullptr;
  if (pct && g.size >= 2 && g.r.below(40) == 0) pct = 95;
  std::vector<int> ks(scopExtKinds, scopExtKinds + nScopExt);
  for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[g.r.below(i)]);
  for (int k : ks) {
    if (!g.r.chance(pct)) continue;
    if (k == K_ARRAYS) { if (arraysOk) gAppend(&h, wrapGeneric(k, mkArrays(g, maxArray + (int)g.r.below(2)))); continue; }
    if (g.exts >= 0 && !((g.exts >> k) & 1)) continue;
    gAppend(&h, wrapGeneric(k, kinds[k].gen(g)));
  }
  return h;
}
static void* gGeneric(G& g) {
  osl_generic_p h = genExts(g, 10 + g.size * 8, 3, true);
  if (!h) h = wrapGeneric(K_STRINGS, gStrings(g));
  return h;
}

// ------------------------------------------------------- relation list ----
static Node wRellist(osl_relation_list_p l, Leaves* L) {
  Node n("access");
  for (; l; l = l->next) {
    if (!l->elt) continue;  // an empty node carries nothing
    n.add(walkRelation(l->elt, L));
    if (L && l->next) { osl_relation_list_p q = l; L->push_back({Leaf::CUT, q, 0, "cut-access", [q] { osl_relation_list_p t = q->next; q->next = nullptr; osl_relation_list_free(t); }}); }
  }
  return n;
}
static osl_relation_list_p mkAccess(G& g, int n, int in, int par, int maxArray) {
  static const int types[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
  osl_relation_list_p h = nullptr, t = nullptr;
  for (int i = 0; i < n; i++) {
    osl_relation_list_p e = osl_relation_list_malloc();
    int dims = (int)g.r.below(3);
    int parts = g.r.chance(85) ? 1 : 2;
    e->elt = genRelation(g, types[g.r.below(3)], 1 + dims, in, g.r.chance(80) ? 0 : -1, par, g.r.chance(85) ? 1 + dims : -1, parts, 1 + (int)g.r.below((u64)maxArray));
    if (t) t->next = e; else h = e; t = e;
  }
  return h;
}
static void* gRellist(G& g) { return mkAccess(g, more(g, 1 + (int)g.r.below((u64)g.size + 1), 30), (int)g.r.below(3), (int)g.r.below(3), 5); }

// ------------------------------------------------------------ statements ----
static Node wStatement(osl_statement_p s, Leaves* L) {
  Node n("statements");
  for (; s; s = s->next) {
    Node e("statement");
    Node d("domain"); d.add(walkRelation(s->domain, L)); e.add(d);
    Node c("scattering"); c.add(walkRelation(s->scattering, L)); e.add(c);
    e.add(wRellist(s->access, L));
    if (L && s->domain) L->push_back({Leaf::CUT, s, 0, "null-domain", [s] { osl_relation_free(s->domain); s->domain = nullptr; }});
    if (L && s->scattering) L->push_back({Leaf::CUT, s, 0, "null-scattering", [s] { osl_relation_free(s->scattering); s->scattering = nullptr; }});
    if (L && s->access) L->push_back({Leaf::CUT, s, 0, "null-access", [s] { osl_relation_list_free(s->access); s->access = nullptr; }});
    if (L && s->extension) L->push_back({Leaf::CUT, s, 0, "null-extension", [s] { osl_generic_free(s->extension); s->extension = nullptr; }});
    e.add(wGeneric(s->extension, L));
    n.add(e);
    if (L && s->next) { osl_statement_p q = s; L->push_back({Leaf::CUT, q, 0, "cut-statement", [q] { osl_statement_p t = q->next; q->next = nullptr; osl_statement_free(t); }}); }
  }
  return n;
}
static osl_statement_p mkStatement(G& g, int par, int maxArray) {
  osl_statement_p s = osl_statement_malloc();
  s->usr = nullptr;
  int nit = more(g, (int)g.r.below((u64)std::min(g.size, 4) + 1), 80);
  int ndp = g.r.chance(80) ? 1 : 2;
  s->domain = genRelation(g, OSL_TYPE_DOMAIN, nit, 0, g.r.chance(70) ? 0 : -1, par, -1, ndp, 0);
  int sc = g.r.chance(70) ? 2 * nit + 1 : 1 + (int)g.r.below(4);
  int nsp = g.r.chance(85) ? 1 : 2;
  s->scattering = genRelation(g, OSL_TYPE_SCATTERING, sc, nit, g.r.chance(80) ? 0 : -1, par, g.r.chance(85) ? sc : -1, nsp, 0);
  int na = more(g, (int)g.r.below((u64)g.size + 1), 80);
  s->access = mkAccess(g, na, nit, par, maxArray);
  int b = (int)g.r.below(100);
  if (b < 70) gAppend(&s->extension, wrapGeneric(K_BODY, mkBody(g, nit)));
  else if (b < 85) gAppend(&s->extension, wrapGeneric(K_EXTBODY, mkExtbody(g, nit)));
  if (!g.plain && g.size > 0) {
    static const int ek[] = {K_COMMENT, K_ANNOTATION, K_NULL, K_LOOP, K_STRINGS, K_SYMBOLS, K_COORDINATES, K_SCATINFOS};
    for (int k : ek) if (g.r.chance(7)) gAppend(&s->extension, wrapGeneric(k, kinds[k].gen(g)));
  }
  return s;
}
static void* gStatement(G& g) {
  osl_statement_p h = nullptr, t = nullptr; int n = more(g, 1 + (int)g.r.below((u64)std::min(g.size, 3)), 40), par = more(g, (int)g.r.below(3), 60);
  for (int i = 0; i < n; i++) { osl_statement_p d = mkStatement(g, par, 4); if (t) t->next = d; else h = d; t = d; }
  return h;
}
static Node wScop(osl_scop_p s, Leaves* L) {
  Node n("scops");
  for (; s; s = s->next) {
    Node e("scop");
    e.add(nI("version", s->version, L));
    if (L && s->language) L->push_back({Leaf::CUT, s, 0, "null-language", [s] { sim_free(s->language); s->language = nullptr; }});
    e.add(nS("language", s->language, L));
    Node c("context"); c.add(walkRelation(s->context, L)); e.add(c);
    Node p("parameters"); p.add(wGeneric(s->parameters, L)); e.add(p);
    e.add(wStatement(s->statement, L));
    e.add(wGeneric(s->extension, L));
    n.add(e);
    if (L && s->context) L->push_back({Leaf::CUT, s, 0, "null-context", [s] { osl_relation_free(s->context); s->context = nullptr; }});
    if (L && s->parameters) L->push_back({Leaf::CUT, s, 0, "null-parameters", [s] { osl_generic_free(s->parameters); s->parameters = nullptr; }});
    if (L && s->extension) L->push_back({Leaf::CUT, s, 0, "null-extension", [s] { osl_generic_free(s->extension); s->extension = nullptr; }});
    if (L && s->statement) L->push_back({Leaf::CUT, s, 0, "null-statement", [s] { osl_statement_free(s->statement); s->statement = nullptr; }});
    if (L && s->next) { osl_scop_p q = s; L->push_back({Leaf::CUT, q, 0, "cut-scop", [q] { osl_scop_p t = q->next; q->next = nullptr; osl_scop_free(t); }}); }
  }
  return n;
}
static osl_scop_p mkScop(G& g) {
  osl_scop_p s = osl_scop_malloc();
  int par = more(g, (int)g.r.below((u64)std::min(g.size, 4) + 1), 40);
  int maxArray = 1 + (int)g.r.below((u64)g.size + 2);
  s->version = 1;
  s->language = dupz(g.r.chance(60) ? "C" : g.r.chance(50) ? "FORTRAN" : genName(g));
  s->registry = osl_interface_get_default_registry();
  s->context = genRelation(g, OSL_TYPE_CONTEXT, 0, 0, g.r.chance(90) ? 0 : -1, par, -1, g.r.chance(85) ? 1 : 2, 0);
  if (par > 0 && !g.r.chance(15)) s->parameters = stringsGeneric(names(g, g.r.chance(10) ? 1 + g.r.below((u64)par + 1) : (size_t)par, "N"));
  int ns = more(g, (int)g.r.below((u64)g.size + 1), 40);
  osl_statement_p t = nullptr;
  for (int i = 0; i < ns; i++) { osl_statement_p d = mkStatement(g, par, maxArray); if (t) t->next = d; else s->statement = d; t = d; }
  if (!g.plain) s->extension = genExts(g, g.r.chance(50) ? 8 : 35, maxArray, true);
  return s;
}
static void* gScop(G& g) {
  osl_scop_p h = nullptr, t = nullptr; int n = g.r.chance(65) ? 1 : more(g, 2 + (int)g.r.below(2), 40);
  for (int i = 0; i < n; i++) { osl_scop_p d = mkScop(g); if (t) t->next = d; else h = d; t = d; }
  return h;
}

// ------------------------------------------------------------- the table ----
#define WALK(F, T) [](void* p, Leaves* L) -> Node { return F((T)p, L); }
#define FREE(F, T) [](void* p) { F((T)p); }
#define CLONE(F, T) [](void* p) -> void* { return F((T)p); }
#define EQUAL(F, T) [](void* a, void* b) -> bool { return F((T)a, (T)b) != 0; }
#define SPRINT(F, T) [](void* p) -> char* { return F((T)p); }
#define SREAD(F) [](char** s) -> void* { return F(s); }
#define PRINT(F, T) [](FILE* f, void* p) { F(f, (T)p); }
#define READ(F) [](FILE* f) -> void* { return F(f); }
#define IDUMP(F, T) [](FILE* f, void* p, int l) { F(f, (T)p, l); }
#define DUMP(F, T) [](FILE* f, void* p) { F(f, (T)p); }
#define NCLONE(F, T) [](void* p, int n) -> void* { return F((T)p, n); }
#define MALLOC(F) []() -> void* { return F(); }
static osl_generic_p readGenericAll(char** s) { osl_interface_p r = osl_interface_get_default_registry(); osl_generic_p g = osl_generic_sread(s, r); osl_interface_free(r); return g; }
#define EXT(name, n, T, gen, walk) \
  {name, gen, WALK(walk, T), FREE(osl_##n##_free, T), CLONE(osl_##n##_clone, T), EQUAL(osl_##n##_equal, T), SPRINT(osl_##n##_sprint, T), \
   SREAD(osl_##n##_sread), nullptr, nullptr, IDUMP(osl_##n##_idump, T), nullptr, osl_##n##_interface, MALLOC(osl_##n##_malloc), DUMP(osl_##n##_dump, T)}
const Kind kinds[K_COUNT] = {
  {"scop", gScop, WALK(wScop, osl_scop_p), FREE(osl_scop_free, osl_scop_p), CLONE(osl_scop_clone, osl_scop_p), EQUAL(osl_scop_equal, osl_scop_p), nullptr, nullptr,
   PRINT(osl_scop_print, osl_scop_p), READ(osl_scop_read), IDUMP(osl_scop_idump, osl_scop_p), nullptr, nullptr, MALLOC(osl_scop_malloc), DUMP(osl_scop_dump, osl_scop_p)},
  {"statement", gStatement, WALK(wStatement, osl_statement_p), FREE(osl_statement_free, osl_statement_p), CLONE(osl_statement_clone, osl_statement_p),
   EQUAL(osl_statement_equal, osl_statement_p), nullptr, nullptr, PRINT(osl_statement_print, osl_statement_p), nullptr, IDUMP(osl_statement_idump, osl_statement_p),
   NCLONE(osl_statement_nclone, osl_statement_p), nullptr, MALLOC(osl_statement_malloc), DUMP(osl_statement_dump, osl_statement_p)},
  {"relation", gRelation, WALK(walkRelation, osl_relation_p), FREE(osl_relation_free, osl_relation_p), CLONE(osl_relation_clone, osl_relation_p),
   EQUAL(osl_relation_equal, osl_relation_p), SPRINT(osl_relation_sprint, osl_relation_p), SREAD(osl_relation_sread), PRINT(osl_relation_print, osl_relation_p),
   READ(osl_relation_read), IDUMP(osl_relation_idump, osl_relation_p), NCLONE(osl_relation_nclone, osl_relation_p), osl_relation_interface, MALLOC(osl_relation_interface_malloc), DUMP(osl_relation_dump, osl_relation_p)},
  {"relation_list", gRellist, WALK(wRellist, osl_relation_list_p), FREE(osl_relation_list_free, osl_relation_list_p), CLONE(osl_relation_list_clone, osl_relation_list_p),
   EQUAL(osl_relation_list_equal, osl_relation_list_p), nullptr, nullptr, PRINT(osl_relation_list_print, osl_relation_list_p), READ(osl_relation_list_read),
   IDUMP(osl_relation_list_idump, osl_relation_list_p), nullptr, nullptr, MALLOC(osl_relation_list_malloc), DUMP(osl_relation_list_dump, osl_relation_list_p)},
  {"strings", gStrings, WALK(wStrings, osl_strings_p), FREE(osl_strings_free, osl_strings_p), CLONE(osl_strings_clone, osl_strings_p), EQUAL(osl_strings_equal, osl_strings_p),
   SPRINT(osl_strings_sprint, osl_strings_p), SREAD(osl_strings_sread), PRINT(osl_strings_print, osl_strings_p), READ(osl_strings_read),
   IDUMP(osl_strings_idump, osl_strings_p), nullptr, osl_strings_interface, MALLOC(osl_strings_malloc), DUMP(osl_strings_dump, osl_strings_p)},
  {"body", gBody, WALK(wBody, osl_body_p), FREE(osl_body_free, osl_body_p), CLONE(osl_body_clone, osl_body_p), EQUAL(osl_body_equal, osl_body_p), SPRINT(osl_body_sprint, osl_body_p),
   SREAD(osl_body_sread), PRINT(osl_body_print, osl_body_p), nullptr, IDUMP(osl_body_idump, osl_body_p), nullptr, osl_body_interface, MALLOC(osl_body_malloc), DUMP(osl_body_dump, osl_body_p)},
  {"generic", gGeneric, WALK(wGeneric, osl_generic_p), FREE(osl_generic_free, osl_generic_p), CLONE(osl_generic_clone, osl_generic_p), EQUAL(osl_generic_equal, osl_generic_p),
   SPRINT(osl_generic_sprint, osl_generic_p), SREAD(readGenericAll), PRINT(osl_generic_print, osl_generic_p), nullptr, IDUMP(osl_generic_idump, osl_generic_p),
   NCLONE(osl_generic_nclone, osl_generic_p), nullptr, MALLOC(osl_generic_malloc), DUMP(osl_generic_dump, osl_generic_p)},
  {"names", gNames, WALK(wNames, osl_names_p), FREE(osl_names_free, osl_names_p), CLONE(osl_names_clone, osl_names_p), nullptr, nullptr, nullptr, nullptr, nullptr,
   IDUMP(osl_names_idump, osl_names_p), nullptr, nullptr, MALLOC(osl_names_malloc), DUMP(osl_names_dump, osl_names_p)},
  {"vector", gVector, WALK(wVector, osl_vector_p), FREE(osl_vector_free, osl_vector_p), nullptr, EQUAL(osl_vector_equal, osl_vector_p), nullptr, nullptr, nullptr, nullptr,
   IDUMP(osl_vector_idump, osl_vector_p), nullptr, nullptr, nullptr, DUMP(osl_vector_dump, osl_vector_p)},
  {"interface", gInterface, WALK(wInterface, osl_interface_p), FREE(osl_interface_free, osl_interface_p), CLONE(osl_interface_clone, osl_interface_p),
   EQUAL(osl_interface_equal, osl_interface_p), nullptr, nullptr, nullptr, nullptr, IDUMP(osl_interface_idump, osl_interface_p), NCLONE(osl_interface_nclone, osl_interface_p), nullptr, MALLOC(osl_interface_malloc), DUMP(osl_interface_dump, osl_interface_p)},
  EXT("arrays", arrays, osl_arrays_p, gArrays, wArrays),
  EXT("clay", clay, osl_clay_p, gClay, wClay),
  EXT("comment", comment, osl_comment_p, gComment, wComment),
  EXT("coordinates", coordinates, osl_coordinates_p, gCoord, wCoord),
  EXT("dependence", dependence, osl_dependence_p, gDep, wDep),
  EXT("extbody", extbody, osl_extbody_p, gExtbody, wExtbody),
  EXT("irregular", irregular, osl_irregular_p, gIrregular, wIrregular),
  EXT("loop", loop, osl_loop_p, gLoop, wLoop),
  EXT("null", null, osl_null_p, gNull, wNull),
  EXT("pluto_unroll", pluto_unroll, osl_pluto_unroll_p, gPluto, wPluto),
  EXT("region", region, osl_region_t*, gRegion, wRegion),
  EXT("annotation", annotation, osl_annotation_t*, gAnnotation, wAnnotation),
  EXT("scatinfos", scatinfos, osl_scatinfos_p, gScatinfos, wScatinfos),
  EXT("scatnames", scatnames, osl_scatnames_p, gScatnames, wScatnames),
  EXT("symbols", symbols, osl_symbols_p, gSymbols, wSymbols),
  EXT("textual", textual, osl_textual_p, gTextual, wTextual),
};
int kindByName(const str& s) { for (int k = 0; k < K_COUNT; k++) if (s == kinds[k].name) return k; return -1; }
bool selfDelimited(int k) {
  switch (k) {
    case K_RELATION: case K_STRINGS: case K_BODY: case K_ARRAYS: case K_COORDINATES: case K_DEPENDENCE: case K_EXTBODY: case K_LOOP: case K_PLUTO:
    case K_REGION: case K_ANNOTATION: case K_SCATINFOS: case K_SCATNAMES: case K_SYMBOLS: case K_IRREGULAR: return true;
    default: return false;
  }
}

// -------------------------------------------------- comparison semantics ----
static void strip(Node& n) {
  if (n.tag == "comment" && n.val != "(NULL)") { n.k.clear(); n.val = ""; return; }
  if (n.tag == "textual" && n.val != "(NULL)") { n.k.clear(); n.val = ""; return; }
  for (auto& c : n.k) strip(c);
  if (n.tag == "registry" && n.k.size() > 1) n.k.resize(1);  // an interface is compared, not the list it is in
  auto byText = [](const Node& a, const Node& b) { return a.text() < b.text(); };
  if (n.tag == "generics") std::sort(n.k.begin(), n.k.end(), byText);
  if (n.tag == "arrays") std::sort(n.k.begin(), n.k.end(), byText);
  if (n.tag == "loop") std::sort(n.k.begin(), n.k.end(), byText);
  if (n.tag == "extbody" || n.tag == "l") {  // unordered sub-lists between fixed fields
    const char* t = n.tag == "l" ? "id" : "coord";
    size_t a = 0; while (a < n.k.size() && n.k[a].tag != t) a++;
    size_t b = a; while (b < n.k.size() && n.k[b].tag == t) b++;
    std::sort(n.k.begin() + (long)a, n.k.begin() + (long)b, byText);
  }
}
Node canon(const Node& n) { Node m = n; strip(m); return m; }

const Leaf& pickLeaf(const Leaves& L, Rng& r) {
  if (r.chance(50)) return L[r.below(L.size())];
  std::vector<str> tags;  // first the field, then one of its occurrences
  for (auto& l : L) if (std::find(tags.begin(), tags.end(), str(l.tag)) == tags.end()) tags.push_back(l.tag);
  str t = tags[r.below(tags.size())];
  std::vector<size_t> at;
  for (size_t i = 0; i < L.size(); i++) if (t == L[i].tag) at.push_back(i);
  return L[at[r.below(at.size())]];
}
// wide: also changes that are far apart, of the sign only or of the length (for objects that are only compared)
bool mutateLeaf(const Leaf& l, Rng& r, bool wide) {
  if (wide && r.chance(50)) {
    int m = (int)r.below(3);
    if (l.kind == Leaf::INT) {
      int* p = (int*)l.p, v = *p;
      v = m == 0 ? -v : m == 1 ? v ^ (1 << r.below(31)) : (int)r.range(-1000, 1000);
      if (v == *p) v++;
      *p = v; return true;
    }
    if (l.kind == Leaf::UINT) { unsigned* p = (unsigned*)l.p; *p ^= 1u << r.below(32); return true; }
    if (l.kind == Leaf::STR) { char* s = (char*)l.p; size_t n = strlen(s); if (n < 2) return false; s[m ? n - 1 : 1 + r.below(n - 1)] = 0; return true; }
    if (l.kind == Leaf::COEF) {
      osl_int_t* p = (osl_int_t*)l.p;
      u64 bit = 1ull << r.below(63);
      if (l.prec == OSL_PRECISION_SP) p->sp = (long)((u64)p->sp ^ bit);
      else if (l.prec == OSL_PRECISION_DP) p->dp = (long long)((u64)p->dp ^ bit);
      else if (m && mpz_sgn(*p->mp)) mpz_neg(*p->mp, *p->mp);
      else { mpz_t t; mpz_init_set_ui(t, 1); mpz_mul_2exp(t, t, r.below(130)); mpz_add(*p->mp, *p->mp, t); mpz_clear(t); }
      return true;
    }
  }
  switch (l.kind) {
    case Leaf::INT: { int* p = (int*)l.p; int d = r.chance(50) ? 1 : -1; *p += d; return true; }
    case Leaf::SIZE: return false;
    case Leaf::BOOL: { bool* p = (bool*)l.p; *p = !*p; return true; }
    case Leaf::UINT: { unsigned* p = (unsigned*)l.p; *p += 1; return true; }
    case Leaf::STR: {
      char* s = (char*)l.p; size_t n = strlen(s); if (!n) return false;
      size_t i = r.chance(40) ? n - 1 : r.below(n);
      char c = s[i];
      if (c == '\n' || c == ' ' || c == '\t') return false;
      s[i] = c == 'z' ? 'y' : (c >= 'a' && c < 'z') ? (char)(c + 1) : 'q';
      return true;
    }
    case Leaf::COEF: {
      osl_int_t* p = (osl_int_t*)l.p;
      bool up = r.chance(50);
      if (l.prec == OSL_PRECISION_SP) p->sp += (p->sp >= LONG_MAX - 1) ? -1 : (p->sp <= LONG_MIN + 2) ? 1 : up ? 1 : -1;
      else if (l.prec == OSL_PRECISION_DP) p->dp += (p->dp >= LLONG_MAX - 1) ? -1 : (p->dp <= LLONG_MIN + 2) ? 1 : up ? 1 : -1;
      else if (up) mpz_add_ui(*p->mp, *p->mp, 1); else mpz_sub_ui(*p->mp, *p->mp, 1);
      return true;
    }
    case Leaf::CUT: l.cut(); return true;
  }
  return false;
}
}  // namespace sim
