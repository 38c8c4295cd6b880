// What a reader of a printed text is told besides the data: generated names,
// expressions, the comment of every row and the header of its columns. They
// are parsed back and compared with the rows they stand for.
#include "ops.h"
#include <algorithm>

namespace sim {
str withFile(const std::function<void(FILE*)>& f);
str decAdd(const str&, const str&);
str decNeg(const str&);
int decCmp(const str&, const str&);
void decFloorDiv(const str&, const str&, str*, str*);

namespace {
typedef std::map<str, str> Lin;  // name -> coefficient, "" for the constant
struct Lists {
  struct L { bool has = false; std::vector<str> v; };
  L par, it, sc, loc, arr;
  bool gen = false;  // every name is a generated one
};
struct Job { osl_relation_p r; Lists L; bool scop = false; };  // scop: the first one of its document

bool tokenChar(char c) { return isalnum((unsigned char)c) || c == '_' || c == '[' || c == ']'; }
bool token(const str& s) { if (s.empty() || isdigit((unsigned char)s[0])) return false; for (char c : s) if (!tokenChar(c)) return false; return true; }
void put(Lin& l, const str& n, const str& c) {
  auto i = l.find(n);
  str v = i == l.end() ? c : decAdd(i->second, c);
  if (v == "0" || v == "-0") { if (i != l.end()) l.erase(i); } else l[n] = v;
}
Lin minus(const Lin& a, const Lin& b) { Lin r = a; for (auto& x : b) put(r, x.first, decNeg(x.second)); return r; }
Lin opposite(const Lin& a) { return minus(Lin(), a); }
str linText(const Lin& l) { str s; for (auto& x : l) s += (s.empty() ? "" : " ") + x.second + (x.first.empty() ? "" : "*" + x.first); return s.empty() ? "0" : s; }
bool parseLin(const str& s, const std::set<str>& names, Lin& out, str* why) {
  size_t i = 0;
  bool first = true;
  auto blank = [&] { while (i < s.size() && s[i] == ' ') i++; };
  for (blank(); i < s.size(); blank()) {
    bool neg = false, sign = false;
    while (i < s.size() && (s[i] == '+' || s[i] == '-')) { if (s[i] == '-') neg = !neg; sign = true; i++; blank(); }
    if (!first && !sign) { *why = "two terms without a sign"; return false; }
    str num, name;
    while (i < s.size() && isdigit((unsigned char)s[i])) num += s[i++];
    blank();
    bool star = false;
    if (!num.empty() && i < s.size() && s[i] == '*') { star = true; i++; blank(); }
    if (num.empty() || star) {
      while (i < s.size() && tokenChar(s[i])) name += s[i++];
      if (!names.count(name)) { *why = "unknown name '" + name + "'"; return false; }
    }
    if (num.empty()) num = "1";
    size_t z = 0; while (z + 1 < num.size() && num[z] == '0') z++;
    num = num.substr(z);
    put(out, name, neg ? decNeg(num) : num);
    first = false;
  }
  if (first) { *why = "nothing"; return false; }
  return true;
}
str nm(const Lists& L, const Lists::L& l, int i, const char* prefix) {
  return !L.gen && l.has && (size_t)i < l.v.size() ? l.v[(size_t)i] : fmt("%s%d", prefix, i + 1);
}
bool isAccess(osl_relation_p r) { return r->type == OSL_TYPE_ACCESS || r->type == OSL_TYPE_READ || r->type == OSL_TYPE_WRITE || r->type == OSL_TYPE_MAY_WRITE; }
std::vector<str> columns(osl_relation_p r, const Lists& L) {
  std::vector<str> c{"e/i"};
  for (int i = 0; i < r->nb_output_dims; i++) {
    if (isAccess(r)) c.push_back(i ? fmt("[%d]", i) : "Arr");
    else if (r->type == OSL_TYPE_DOMAIN || r->type == OSL_TYPE_CONTEXT) c.push_back(nm(L, L.it, i, "i"));
    else c.push_back(nm(L, L.sc, i, "c"));
  }
  for (int i = 0; i < r->nb_input_dims; i++) c.push_back(nm(L, L.it, i, "i"));
  for (int i = 0; i < r->nb_local_dims; i++) c.push_back(nm(L, L.loc, i, "l"));
  for (int i = 0; i < r->nb_parameters; i++) c.push_back(nm(L, L.par, i, "P"));
  c.push_back("1");
  return c;
}
Lin rowForm(osl_relation_p r, int row, const std::vector<str>& c) {
  Lin f;
  for (int j = 1; j < r->nb_columns; j++) put(f, j == r->nb_columns - 1 ? "" : c[(size_t)j], coefText(r->precision, r->m[row][j]));
  return f;
}
// The identifier a row gives to the array, "" if it gives none.
str rowId(osl_relation_p r, int row) {
  str a, k = coefText(r->precision, r->m[row][r->nb_columns - 1]);
  for (int j = 0; j < r->nb_columns - 1; j++) {
    str v = coefText(r->precision, r->m[row][j]);
    if (j == 1) a = v; else if (v != "0") return "";
  }
  if (a == "0" || k == "0") return "";
  str q, rem;
  decFloorDiv(decNeg(k), a, &q, &rem);
  return rem == "0" && decCmp(q, "0") > 0 ? q : "";
}
str unionId(osl_relation_p r) {  // the one every part from here on agrees on
  str id;
  for (; r; r = r->next) {
    int at = -1;
    for (int i = 0; i < r->nb_rows; i++) if (coefText(r->precision, r->m[i][1]) != "0") { if (at >= 0) return ""; at = i; }
    if (at < 0) return "";
    str x = rowId(r, at);
    if (x.empty() || (!id.empty() && x != id)) return "";
    id = x;
  }
  return id;
}
str arrayName(const Lists& L, const str& id) {
  if (id.empty() || id.size() > 9) return "";
  long n = atol(id.c_str());
  if (L.gen) return fmt("A%ld", n);
  return L.arr.has && n >= 1 && (size_t)n <= L.arr.v.size() ? L.arr.v[(size_t)n - 1] : "";
}
str trimmed(const str& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == str::npos ? "" : s.substr(a, b - a + 1); }
void checkComment(const str& line, osl_relation_p r, int row, const std::vector<str>& c, const Lists& L, const str& what) {
  str where = fmt("row %d of %s", row, what.c_str());
  rc->checks++;
  size_t h = line.find("##");
  if (h == str::npos) fail("comment-missing", where + " has no comment: '" + shortText(line) + "'");
  str t = trimmed(line.substr(h + 2));
  bool eq = coefText(r->precision, r->m[row][0]) == "0";
  size_t e = t.find(" == "), ge = t.find(" >= ");
  if ((e == str::npos) == (ge == str::npos)) fail("comment-wrong", where + " is commented '" + shortText(t) + "'");
  if (eq != (ge == str::npos)) fail("comment-wrong", where + (eq ? " is an equality" : " is an inequality") + " and commented '" + shortText(t) + "'");
  size_t cut = eq ? e : ge;
  str lhs = trimmed(t.substr(0, cut)), rhs = trimmed(t.substr(cut + 4)), why;
  std::set<str> names(c.begin() + 1, c.end() - 1);
  Lin f = rowForm(r, row, c), a, b;
  if (!parseLin(lhs, names, a, &why)) fail("comment-wrong", where + " is commented '" + shortText(t) + "': " + why);
  if (isAccess(r) && eq && r->nb_output_dims > 0) {
    str own = arrayName(L, rowId(r, row)), must = own;
    if (unionId(r).empty()) must = "";
    str k = coefText(r->precision, r->m[row][1]);
    if (k != "1" && k != "-1") must = own = "";
    cover.probes[must.empty() ? own.empty() ? "names:row without an array" : "names:array not agreed on" : "names:array row"]++;
    if (!must.empty() && rhs != must) fail("comment-wrong", where + " gives the array '" + must + "' and is commented '" + shortText(t) + "'");
    if (!own.empty() && rhs == own && a == Lin{{"Arr", "1"}}) return;
  }
  if (!parseLin(rhs, names, b, &why)) fail("comment-wrong", where + " is commented '" + shortText(t) + "': " + why);
  Lin d = minus(a, b);
  cover.probes[eq ? rhs == "0" ? "names:equality" : "names:output given" : "names:inequality"]++;
  if (d == f || (eq && opposite(d) == f)) return;
  fail("comment-wrong", where + " is " + linText(f) + (eq ? " == 0" : " >= 0") + " and commented '" + shortText(t) + "'");
}
void checkHeader(const str& line, osl_relation_p r, const std::vector<str>& c, const str& what, bool barsToo = true) {
  rc->checks++;
  const int n_ = (int)c.size();
  if (line.empty() || line[0] != '#') fail("header-wrong", what + " has no column names but '" + shortText(line) + "'");
  std::set<int> bars{1, 1 + r->nb_output_dims, 1 + r->nb_output_dims + r->nb_input_dims, 1 + r->nb_output_dims + r->nb_input_dims + r->nb_local_dims, r->nb_columns - 1};
  size_t i = 1;
  for (int k = 0; k <= n_; k++) {
    bool bar = false;
    while (i < line.size() && (line[i] == ' ' || line[i] == '|')) bar |= line[i++] == '|';
    str t; while (i < line.size() && line[i] != ' ' && line[i] != '|') t += line[i++];
    if (k == n_) { if (!t.empty()) fail("header-wrong", what + " has more column names than columns: '" + shortText(line) + "'"); break; }
    if (barsToo && k && bar != (bars.count(k) > 0)) fail("header-wrong", fmt("%s: columns %d and %d are %sseparated in '%s'", what.c_str(), k - 1, k, bar ? "" : "not ", shortText(line).c_str()));
    const str& n = c[(size_t)k];
    bool ok = t == n || (t.size() > 1 && t.back() == '.' && n.size() >= t.size() && n.compare(0, t.size() - 1, t, 0, t.size() - 1) == 0);
    if (!ok) fail("header-wrong", fmt("column %d of %s is named '%s' instead of '%s' in '%s'", k, what.c_str(), shortText(t).c_str(), shortText(n).c_str(), shortText(line).c_str()));
  }
}
bool speakable(const std::vector<str>& c) { for (size_t i = 1; i + 1 < c.size(); i++) if (!token(c[i])) return false; return true; }
std::vector<str> linesOf(const str& t) { std::vector<str> v; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == str::npos) e = t.size(); v.push_back(t.substr(i, e - i)); i = e + 1; } return v; }
void checkText(const str& text, const std::vector<Job>& jobs, const str& what, bool scops = false) {
  auto v = linesOf(text);
  size_t at = 0;
  for (size_t j = 0; j < jobs.size(); j++) {
    int part = 0;
    if (jobs[j].scop) { while (at < v.size() && v[at] != "<OpenScop>") at++; if (at >= v.size()) fail("comment-missing", "a scop is missing in " + what); }
    for (osl_relation_p r = jobs[j].r; r; r = r->next, part++) {
      str h = fmt("%d %d %d %d %d %d", r->nb_rows, r->nb_columns, r->nb_output_dims, r->nb_input_dims, r->nb_local_dims, r->nb_parameters);
      while (at < v.size() && trimmed(v[at]) != h) {
        const str& l = v[at++];  // an extension may hold relations of its own
        if (!scops || l.size() < 3 || l[0] != '<' || l.back() != '>' || l[1] == '/' || l == "<OpenScop>") continue;
        str close = "</" + l.substr(1);
        size_t end = at; while (end < v.size() && v[end].find(close) == str::npos) end++;
        if (end < v.size()) at = end;
      }
      str w = fmt("relation %zu part %d of ", j, part) + what;
      if (at >= v.size()) fail("comment-missing", w + " is not in the text");
      at++;
      auto c = columns(r, jobs[j].L);
      bool can = speakable(c);
      if (!can) cover.probes["names:not parsable"]++;
      if (r->nb_rows > 0) {
        if (at >= v.size()) fail("header-wrong", w + " has no column names");
        if (can) checkHeader(v[at], r, c, w);
        at++;
      }
      for (int i = 0; i < r->nb_rows; i++, at++) {
        if (at >= v.size()) fail("comment-missing", w + " is cut");
        if (can) checkComment(v[at], r, i, c, jobs[j].L, w);
      }
    }
  }
}

// A text in the older format: rows lose columns there, their comments do not.
struct Old {
  std::vector<str> rows, heads; size_t r = 0, h = 0;
  explicit Old(const str& t) {
    for (auto& l : linesOf(t)) {
      if (l.find("##") != str::npos) { if (l.find("## fakeiter == 0") == str::npos) rows.push_back(l); }
      else if (!l.empty() && l[0] == '#' && l.find(" e/i") != str::npos) heads.push_back(l);
    }
  }
  void part(osl_relation_p p, const Lists& L, const str& what) {
    auto c = columns(p, L);
    bool can = speakable(c), access = p->type == OSL_TYPE_READ || p->type == OSL_TYPE_WRITE;
    if (!access && p->nb_rows > 0) {
      if (h >= heads.size()) fail("header-wrong", what + " has no column names");
      std::vector<str> cc;
      for (int i = 0; i < p->nb_columns; i++) {
        int in = 1 + p->nb_output_dims, loc = in + p->nb_input_dims;
        if (i && p->type == OSL_TYPE_DOMAIN && i >= in && i < loc + p->nb_local_dims) continue;
        if (i && p->type != OSL_TYPE_DOMAIN && i < in) continue;
        cc.push_back(c[(size_t)i]);
      }
      if (can) checkHeader(heads[h], p, cc, what, false);
      h++;
    }
    for (int i = access && p->nb_rows != 1 ? 1 : 0; i < p->nb_rows; i++, r++) {
      if (r >= rows.size()) fail("comment-missing", fmt("%s: the text has %zu row comments only", what.c_str(), rows.size()));
      if (can) checkComment(rows[r], p, i, c, L, what);
    }
  }
  void done(const str& what) { if (r != rows.size() || h != heads.size()) fail("comment-wrong", fmt("%s has %zu row comments and %zu headers instead of %zu and %zu", what.c_str(), rows.size(), heads.size(), r, h)); }
};

// ------------------------------------------------------------ construction --
str ident(Rng& g) {
  static const char* few[] = {"i", "j", "k", "N", "M", "ii", "x_1", "T", "P1", "i1", "c1", "Arr", "l2"};
  if (g.chance(50)) return few[g.below(13)];
  str s(1, "abcxyzABCN_"[g.below(11)]);
  size_t n = g.chance(96) ? g.below(9) : g.chance(50) ? 60 : 2000 + g.below(200);
  for (size_t i = 0; i < n; i++) s += "abcxyzABC019_"[g.below(13)];
  return s;
}
Lists::L someList(Rng& g, const char* own, int upto) {
  Lists::L l;
  if (g.chance(12)) return l;
  l.has = true;
  int n = g.chance(70) ? upto : (int)g.below((u64)upto + 3);
  bool ids = g.chance(60);
  for (int i = 0; i < n; i++) l.v.push_back(ids ? ident(g) : fmt("%s%d", own, i + 1));
  return l;
}
osl_strings_p stringsOf(const std::vector<str>& v) { osl_strings_p s = osl_strings_malloc(); for (auto& x : v) osl_strings_add(s, x.c_str()); return s; }
Lists someLists(Rng& g) {
  Lists L;
  L.par = someList(g, "P", 3); L.it = someList(g, "i", 4); L.sc = someList(g, "c", 4); L.loc = someList(g, "l", 2); L.arr = someList(g, "A", 7);
  return L;
}
osl_names_p namesOf(const Lists& L) {
  Quiet q;
  osl_names_p n = osl_names_malloc();
  auto one = [](const Lists::L& l) { return l.has ? stringsOf(l.v) : nullptr; };
  n->parameters = one(L.par); n->iterators = one(L.it); n->scatt_dims = one(L.sc); n->local_dims = one(L.loc); n->arrays = one(L.arr);
  return n;
}
str namesText(osl_names_p n) {
  Quiet q;
  str t;
  for (osl_strings_p s : {n->parameters, n->iterators, n->scatt_dims, n->local_dims, n->arrays}) {
    if (!s) { t += "NULL;"; continue; }
    for (size_t i = 0; s->string && s->string[i]; i++) t += str(s->string[i]) + ",";
    t += ";";
  }
  return t;
}
// A relation whose rows have the shapes comments distinguish.
osl_relation_p someRelation(Rng& g) {
  Quiet q;
  static const int types[] = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_ACCESS, OSL_TYPE_GENERIC};
  int type = types[g.below(11)];
  bool acc = type == OSL_TYPE_ACCESS || type == OSL_TYPE_READ || type == OSL_TYPE_WRITE || type == OSL_TYPE_MAY_WRITE;
  int pr = clientPrec(*rc->plan, cur->id);
  G gg(g.next(), 3, pr);
  gg.magnitude = (int)g.below(pr == OSL_PRECISION_MP ? 5 : 4);
  int parts = g.chance(75) ? 1 : 2 + (int)g.below(2);
  int out = type == OSL_TYPE_CONTEXT ? 0 : (int)g.below(5), in = type == OSL_TYPE_DOMAIN || type == OSL_TYPE_CONTEXT ? 0 : (int)g.below(4), par = (int)g.below(4);
  if (acc && out < 1) out = 1;
  int id = 1 + (int)g.below(7);
  osl_relation_p head = nullptr, *tail = &head;
  for (int p = 0; p < parts; p++) {
    int loc = g.chance(60) ? 0 : 1 + (int)g.below(2), rows = (int)g.below(6), cols = out + in + loc + par + 2;
    if (acc && rows < 1) rows = 1;
    osl_relation_p r = osl_relation_pmalloc(pr, rows, cols);
    r->type = type; r->nb_output_dims = out; r->nb_input_dims = in; r->nb_local_dims = loc; r->nb_parameters = par;
    int idRow = acc && g.chance(85) ? (int)g.below((u64)rows) : -1;
    if (idRow >= 0 && g.chance(80)) idRow = 0;
    for (int i = 0; i < rows; i++) {
      std::vector<str> v((size_t)cols, "0");
      for (int j = 0; j < cols; j++) v[(size_t)j] = j ? genCoef(gg) : g.chance(50) ? "1" : "0";
      u64 shape = g.below(5);
      if (out > 0 && shape < 3) {  // one output, alone on its side
        v[0] = "0";
        for (int j = 1; j <= out; j++) v[(size_t)j] = "0";
        v[1 + g.below((u64)out)] = shape == 0 ? "1" : shape == 1 ? "-1" : g.chance(50) ? "2" : "-3";
      }
      if (g.chance(5)) for (int j = 1; j < cols; j++) v[(size_t)j] = "0";
      if (acc && i != idRow && g.chance(85)) v[1] = "0";
      if (i == idRow) {
        std::fill(v.begin(), v.end(), "0");
        int k = g.chance(80) ? 1 : (int)g.below(4);
        int x = g.chance(90) ? id : (int)g.below(10);
        if (g.chance(30)) { v[1] = fmt("%d", k); v.back() = fmt("%d", -k * x); } else { v[1] = fmt("%d", -k); v.back() = fmt("%d", k * x); }
        if (g.chance(4)) v[0] = "1";
        if (g.chance(8)) v.back() = genCoef(gg);
        if (g.chance(4)) v[g.below((u64)cols)] = genCoef(gg);
      }
      for (int j = 0; j < cols; j++) coefSet(pr, &r->m[i][j], v[(size_t)j]);
    }
    *tail = r; tail = &r->next;
  }
  return head;
}
// Generated names reach the largest identifier: keep it small.
bool fewArrays(osl_relation_p r) { for (; r; r = r->next) if (isAccess(r)) { str x = unionId(r); if (x.size() > 3) return false; } return true; }
str own(char* t) { str s = t ? t : "(NULL)"; if (t) LIBV(sim_free(t)); return s; }
Node see(int kind, void* p) { Quiet q; return kinds[kind].walk(p, nullptr); }
Obj* track(int kind, void* p) { Obj* o = newObj(kind, p, see(kind, p)); o->odd = o->edited = true; return o; }

void opGenerate(Rng& g) {
  static const char* pre[] = {"P", "i", "c", "l", "A", "", "x_", "Dummy", "very_long_prefix_of_a_name"};
  const char* p[5]; int n[5];
  for (int i = 0; i < 5; i++) { p[i] = pre[g.below(9)]; n[i] = g.chance(10) ? -1 : g.chance(90) ? (int)g.below(9) : (int)g.below(1200); }
  osl_names_p x = LIB(osl_names_generate(p[0], n[0], p[1], n[1], p[2], n[2], p[3], n[3], p[4], n[4]));
  auto check = [&](osl_strings_p s, int i, const char* pr, const str& what) {
    rc->checks++;
    if (!s) fail("names-wrong", what + " is missing");
    int k = 0;
    for (; s->string && s->string[k]; k++) if (str(s->string[k]) != fmt("%s%d", pr, k + 1)) fail("names-wrong", fmt("name %d of %s is '%s' instead of '%s%d'", k, what.c_str(), s->string[k], pr, k + 1));
    if (k != std::max(i, 0)) fail("names-wrong", fmt("%s has %d names instead of %d", what.c_str(), k, std::max(i, 0)));
    if (LIB(osl_strings_size(s)) != (size_t)k) fail("names-wrong", what + " has another size than its names");
  };
  check(x->parameters, n[0], p[0], "the parameters"); check(x->iterators, n[1], p[1], "the iterators"); check(x->scatt_dims, n[2], p[2], "the scattering dimensions");
  check(x->local_dims, n[3], p[3], "the local dimensions"); check(x->arrays, n[4], p[4], "the arrays");
  osl_names_p y = LIB(osl_names_clone(x));
  str a = namesText(x), b = namesText(y);
  rc->checks++;
  if (a != b) fail("names-wrong", "the copy of names is '" + shortText(b) + "' instead of '" + shortText(a) + "'");
  if (g.chance(50)) { LIBV(osl_names_free(x)); x = y; } else LIBV(osl_names_free(y));
  b = namesText(x);
  if (a != b) fail("names-wrong", "names changed when their copy was freed");
  LIBV(osl_names_free(x));
  osl_strings_p s = LIB(osl_strings_generate(p[0], n[0]));
  check(s, n[0], p[0], "a generated list");
  LIBV(osl_strings_free(s));
}
void opExpression(Rng& g) {
  osl_relation_p r = someRelation(g);
  Obj* o = track(K_RELATION, r);
  ConstArg ca(o);
  for (osl_relation_p p = r; p; p = p->next) {
    std::vector<str> c; std::vector<char*> v;
    for (int j = 0; j < p->nb_columns; j++) c.push_back(j == 0 ? "e/i" : j == p->nb_columns - 1 ? "1" : ident(g));
    for (auto& s : c) v.push_back(const_cast<char*>(s.c_str()));
    v.push_back(nullptr);
    std::set<str> names(c.begin() + 1, c.end() - 1);
    for (int i = 0; i < p->nb_rows; i++) {
      str t = own(LIB(osl_relation_expression(p, i, v.data()))), why;
      Lin f = rowForm(p, i, c), d;
      rc->checks++; cover.probes["names:expression"]++;
      if (!parseLin(t, names, d, &why)) fail("expression-wrong", "the expression '" + shortText(t) + "' of " + linText(f) + " has " + why);
      if (d != f) fail("expression-wrong", "the expression of " + linText(f) + " is '" + shortText(t) + "'");
    }
  }
  checkUnchanged(o, "edit-changed-operand", "operand of an expression");
  freeObj(o);
}
void attributes(osl_relation_p r, Rng& g) {
  auto idOf = [](osl_relation_p p) -> int { str x = unionId(p); return x.empty() || decCmp(x, "2147483647") > 0 ? OSL_UNDEFINED : (int)atol(x.c_str()); };
  if (isAccess(r)) {
    int id = LIB(osl_relation_get_array_id(r)), want = idOf(r);
    rc->checks++; cover.probes[want == OSL_UNDEFINED ? "names:no array identifier" : "names:array identifier"]++;
    if (id != want) fail("attributes-wrong", fmt("the array identifier of a relation is %d instead of %d", id, want));
  }
  int got[5], want[5];
  for (int i = 0; i < 5; i++) got[i] = want[i] = g.chance(70) ? OSL_UNDEFINED : (int)g.below(6);
  LIBV(osl_relation_get_attributes(r, &got[0], &got[1], &got[2], &got[3], &got[4]));
  bool sure = true;
  for (osl_relation_p p = r; p; p = p->next) {
    bool ctx = p->type == OSL_TYPE_CONTEXT, dom = p->type == OSL_TYPE_DOMAIN, acc = isAccess(p);
    int a[5] = {p->nb_parameters, ctx ? 0 : dom ? p->nb_output_dims : p->nb_input_dims, ctx || dom || acc ? 0 : p->nb_output_dims, p->nb_local_dims, acc ? idOf(p) : 0};
    if (acc && a[4] == OSL_UNDEFINED) sure = false;  // the parts do not agree on it
    for (int i = 0; i < 5; i++) want[i] = std::max(want[i], a[i]);
  }
  static const char* nm[] = {"parameters", "iterators", "scattering dimensions", "local dimensions", "array identifier"};
  for (int i = 0; i < (sure ? 5 : 4); i++) { rc->checks++; if (got[i] != want[i]) fail("attributes-wrong", fmt("the %s of a relation of type %d are %d instead of %d", nm[i], r->type, got[i], want[i])); }
}
void opRelation(Rng& g) {
  osl_relation_p r = someRelation(g);
  Obj* o = track(K_RELATION, r);
  if (g.chance(30)) { ConstArg ca(o); attributes(r, g); }
  Lists L;
  L.gen = g.chance(25) && fewArrays(r);
  if (!L.gen) L = someLists(g);
  osl_names_p n = L.gen ? nullptr : namesOf(L);
  str before = n ? namesText(n) : "";
  str t, what;
  {
    ConstArg ca(o);
    switch (g.below(L.gen ? 6 : 4)) {
      case 0: what = "a printed relation"; t = withFile([&](FILE* f) { LIBV(osl_relation_pprint(f, r, n)); }); break;
      case 1: what = "a relation text"; t = own(LIB(osl_relation_spprint(r, n))); break;
      case 2: what = "a PolyLib relation text"; t = own(LIB(osl_relation_spprint_polylib(r, n))); break;
      case 3: {
        what = "a SCoPLib relation text";
        int fake = (int)g.below(2), nth = (int)g.below(2);
        t = g.chance(50) ? own(LIB(osl_relation_spprint_scoplib(r, n, nth, fake))) : withFile([&](FILE* f) { LIBV(osl_relation_pprint_scoplib(f, r, n, nth, fake)); });
        break;
      }
      case 4: what = "a relation printed without names"; t = withFile([&](FILE* f) { LIBV(osl_relation_print(f, r)); }); break;
      default: what = "a relation text without names"; t = own(LIB(osl_relation_sprint(r))); break;
    }
  }
  if (what == "a SCoPLib relation text") {
    Old T(t);
    int part = 0;
    for (osl_relation_p p = r; p; p = p->next, part++) T.part(p, L, fmt("part %d of ", part) + what);
    T.done(what);
  } else checkText(t, {{r, L}}, what);
  if (n) {
    rc->checks++;
    if (namesText(n) != before) fail("edit-changed-operand", "the names given to print " + what + " changed to '" + shortText(namesText(n)) + "'");
    LIBV(osl_names_free(n));
  }
  checkUnchanged(o, "edit-changed-operand", what);
  freeObj(o);
}
// The names a statement's relations are printed with.
Lists forStatement(Lists L, osl_statement_p s) {
  for (osl_generic_p e = s->extension; e; e = e->next) if (e->interface && e->interface->URI && !strcmp(e->interface->URI, "body")) {
    osl_body_p b = (osl_body_p)e->data;
    if (b && b->iterators) {
      if (L.gen) return [&] { Lists M; M.gen = false; M.it.has = true; for (int i = 0; b->iterators->string && b->iterators->string[i]; i++) M.it.v.push_back(b->iterators->string[i]); M.arr = L.arr; M.par = L.par; return M; }();
      L.it.has = true; L.it.v.clear();
      for (int i = 0; b->iterators->string && b->iterators->string[i]; i++) L.it.v.push_back(b->iterators->string[i]);
    }
    break;
  }
  return L;
}
// Generated names: lists are empty, the array names known are listed.
Lists generated() {
  Lists L;
  L.arr.has = true;
  for (int i = 1; i <= 400; i++) L.arr.v.push_back(fmt("A%d", i));
  return L;
}
void statementJobs(osl_statement_p s, const Lists& L, std::vector<Job>& v) {
  for (; s; s = s->next) {
    Lists M = forStatement(L, s);
    if (s->domain) v.push_back({s->domain, M});
    if (s->scattering) v.push_back({s->scattering, M});
    for (osl_relation_list_p a = s->access; a; a = a->next) if (a->elt) v.push_back({a->elt, M});
  }
}
void scopNames(osl_scop_p s, Lists& L) {
  if (s->parameters && s->parameters->interface && !strcmp(s->parameters->interface->URI, "strings") && s->parameters->data) {
    auto ps = (osl_strings_p)s->parameters->data;
    L.par.has = true;
    for (int i = 0; ps->string && ps->string[i]; i++) L.par.v.push_back(ps->string[i]);
  }
  for (osl_generic_p e = s->extension; e; e = e->next) if (e->interface && !strcmp(e->interface->URI, "arrays") && e->data) {
    auto a = (osl_arrays_p)e->data;
    int max = 0; for (int i = 0; i < a->nb_names; i++) max = std::max(max, a->id[i]);
    L.arr.v.clear();
    for (int i = 1; i <= max && max < 100000; i++) L.arr.v.push_back(fmt("Dummy%d", i));
    for (int i = 0; i < a->nb_names; i++) if (a->id[i] >= 1 && a->id[i] <= (int)L.arr.v.size()) L.arr.v[(size_t)a->id[i] - 1] = a->names[i];
    break;
  }
}
void opDocument(Rng& g) {
  static const int ks[] = {K_RELLIST, K_STATEMENT, K_STATEMENT, K_SCOP, K_SCOP, K_SCOP, K_DEPENDENCE};
  int kind = ks[g.below(7)];
  int pr = clientPrec(*rc->plan, cur->id);
  G gg(g.next(), 1 + (int)g.below(4), pr);
  gg.magnitude = (int)g.below(pr == OSL_PRECISION_MP ? 5 : 4);
  void* p; { Quiet q; p = kinds[kind].gen(gg); }
  Obj* o = track(kind, p);
  bool given = (kind == K_RELLIST || kind == K_STATEMENT) && g.chance(60);
  Lists L = given ? someLists(g) : generated();
  osl_names_p n = given ? namesOf(L) : nullptr;
  str before = n ? namesText(n) : "", t, what = str("a printed ") + kinds[kind].name;
  std::vector<Job> jobs;
  {
    ConstArg ca(o);
    if (kind == K_RELLIST) {
      auto l = (osl_relation_list_p)p;
      bool elts = g.chance(30);
      t = withFile([&](FILE* f) { if (elts) LIBV(osl_relation_list_pprint_elts(f, l, n)); else if (n || g.chance(50)) LIBV(osl_relation_list_pprint(f, l, n)); else LIBV(osl_relation_list_print(f, l)); });
    } else if (kind == K_STATEMENT) {
      auto s = (osl_statement_p)p;
      t = withFile([&](FILE* f) { if (n || g.chance(50)) LIBV(osl_statement_pprint(f, s, n)); else LIBV(osl_statement_print(f, s)); });
    } else t = kinds[kind].print ? printText(kind, p) : own(LIB(kinds[kind].sprint(p)));
  }
  {
    Quiet q;
    if (kind == K_RELLIST) for (auto l = (osl_relation_list_p)p; l; l = l->next) { if (l->elt) jobs.push_back({l->elt, L}); }
    if (kind == K_STATEMENT) statementJobs((osl_statement_p)p, L, jobs);
    if (kind == K_DEPENDENCE) for (auto d = (osl_dependence_p)p; d; d = d->next) if (d->domain) jobs.push_back({d->domain, L});
    if (kind == K_SCOP) for (auto s = (osl_scop_p)p; s; s = s->next) {
      Lists M = L;
      scopNames(s, M);
      size_t from = jobs.size();
      if (s->context) jobs.push_back({s->context, M});
      statementJobs(s->statement, M, jobs);
      if (jobs.size() > from) jobs[from].scop = true;
    }
  }
  checkText(t, jobs, what, kind == K_SCOP || kind == K_STATEMENT);
  cover.probes[str("names:document ") + kinds[kind].name]++;
  if (n) {
    rc->checks++;
    if (namesText(n) != before) fail("edit-changed-operand", "the names given to print " + what + " changed to '" + shortText(namesText(n)) + "'");
    LIBV(osl_names_free(n));
  }
  checkUnchanged(o, "edit-changed-operand", what);
  freeObj(o);
}
// A dump shows every value the structure holds (types are shown by their
// names, undefined values by words).
str dense(const str& t) { str o; for (char c : t) if (!isspace((unsigned char)c) && c != '|' && c != '@') o += c; return o; }
void opDump(Rng& g) {
  int kind;
  do kind = (int)g.below(K_COUNT); while (!kinds[kind].idump);
  int pr = clientPrec(*rc->plan, cur->id);
  G gg(g.next(), 1 + (int)g.below(3), pr);
  gg.magnitude = (int)g.below(pr == OSL_PRECISION_MP ? 5 : 4);
  void* p; { Quiet q; p = kinds[kind].gen(gg); }
  Obj* o = track(kind, p);
  str t;
  int level = (int)g.below(4);
  { ConstArg ca(o); t = withFile([&](FILE* f) { if (kinds[kind].dump && g.chance(30)) LIBV(kinds[kind].dump(f, p)); else LIBV(kinds[kind].idump(f, p, level)); }); }
  checkUnchanged(o, "edit-changed-operand", "a dump");
  Leaves leaves; { Quiet q; kinds[kind].walk(p, &leaves); }
  std::map<str, long> seen;
  for (size_t i = 0; i < t.size();) {
    if (!isdigit((unsigned char)t[i]) && t[i] != '-') { i++; continue; }
    size_t j = i + 1; while (j < t.size() && isdigit((unsigned char)t[j])) j++;
    if (j > i + 1 || t[i] != '-') seen[t.substr(i, j - i)]++;
    i = j;
  }
  str tight = dense(t);
  for (auto& l : leaves) {
    str v; bool text = false;
    if (!strcmp(l.tag, "type") || !strcmp(l.tag, "dtype") || (l.kind == Leaf::INT && *(int*)l.p == -1)) continue;
    switch (l.kind) {
      case Leaf::INT: v = fmt("%d", *(int*)l.p); break;
      case Leaf::SIZE: v = fmt("%zu", *(size_t*)l.p); break;
      case Leaf::UINT: v = fmt("%u", *(unsigned*)l.p); break;
      case Leaf::COEF: v = coefText(l.prec, *(osl_int_t*)l.p); break;
      case Leaf::STR: v = (char*)l.p; text = true; break;
      default: continue;
    }
    rc->checks++;
    if (!strcmp(l.tag, "textual") && v.size() > 40) {  // abbreviated
      if (tight.find(dense(v.substr(0, 20))) == str::npos || tight.find(dense(v.substr(v.size() - 20))) == str::npos) fail("dump-wrong", "the dump of a textual does not show the ends of '" + shortText(v) + "'");
      continue;
    }
    if (text ? tight.find(dense(v)) == str::npos : --seen[v] < 0) fail("dump-wrong", fmt("the dump of %s does not show %s '%s'", kinds[kind].name, l.tag, shortText(v).c_str()));
  }
  cover.probes[str("names:dump of ") + kinds[kind].name]++;
  freeObj(o);
}
}  // namespace

// The comments of a SCoP exported in the older format.
void oldComments(const str& text, osl_scop_p scop) {
  Old T(text);
  Lists L = generated();
  scopNames(scop, L);
  if (scop->context) T.part(scop->context, L, "the exported context");
  for (osl_statement_p s = scop->statement; s; s = s->next) {
    Lists M = forStatement(L, s);
    if (s->domain) T.part(s->domain, M, "an exported domain");
    if (s->scattering) T.part(s->scattering, M, "an exported scattering");
    for (int type : {OSL_TYPE_READ, OSL_TYPE_WRITE})
      for (osl_relation_list_p a = s->access; a; a = a->next) if (a->elt && a->elt->type == type) T.part(a->elt, M, "an exported access");
  }
  cover.probes["names:exported scop"]++;
}
void mNames(Rng& g) {
  u64 what = g.below(11);
  if (what == 10) opDump(g); else if (what < 1) opGenerate(g); else if (what < 3) opExpression(g); else if (what < 7) opRelation(g); else opDocument(g);
  cover.ops["edit-names"]++;
  say(fmt("edit names %d", (int)what));
}
}  // namespace sim
