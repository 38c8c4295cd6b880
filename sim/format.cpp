// The text format, written and read by the simulator: an independent writer
// turns reference content into text, whatever the library has to say about it.
// The library's own texts must carry the same data in the same order, and its
// readers must rebuild the content from every legal way of writing it.
#include <sstream>
#include "ops.h"
#include <osl/extensions/annotation.h>
#include <osl/extensions/region.h>

namespace sim {
str withFile(const std::function<void(FILE*)>& f);
FILE* textReader(const str& data, int chunk, int buf, const IoFault* fault, Stream** out);
void textDone(FILE* f, Stream* s);
str dataOnly(const str& t);

namespace {
// How the tokens are laid out: line by line, or in any other way the format allows.
struct Out {
  str s;
  Rng* g = nullptr;  // null: one token per line, nothing else
  bool extra = false;  // words nobody asked for were added where the readers ignore them
  str more() { if (!g || !g->chance(2)) return ""; extra = true; return g->chance(50) ? " and" : " 4 more words"; }
  void sep() {
    if (!g || g->chance(40)) { s += "\n"; return; }
    static const char* seps[] = {" ", "  ", "\t", "\n\n", " # note\n", "\n# a note\n", "\n  ", "\n# 12\n\n#\n", " \n"};
    s += seps[g->below(9)];
  }
  std::vector<size_t> items;  // where numbers and words begin
  void endl() { if (s.empty() || s.back() != '\n') s += "\n"; }
  void tok(const str& t) { items.push_back(s.size()); s += t; sep(); }
  void line(const str& t) { s += t; s += "\n"; if (g && g->chance(15)) s += g->chance(50) ? "# a note\n" : "\n"; }
  void words(const std::vector<str>& v) {  // one line
    endl();
    if (!v.empty()) items.push_back(s.size());
    for (size_t i = 0; i < v.size(); i++) { if (i) s += g && g->chance(20) ? g->chance(50) ? "\t" : "   " : " "; s += v[i]; }
    s += g && g->chance(10) ? " # a note\n" : "\n";
  }
};
str un(const Node& n) { return n.val == "(NULL)" ? "(null)" : n.val.substr(1, n.val.size() - 2); }
const Node& sub(const Node& n, const char* tag) {
  for (auto& c : n.k) if (c.tag == tag) return c;
  static const Node none("(none)");
  return none;
}
str val(const Node& n, const char* tag) { return sub(n, tag).val; }
const char* relType(int t) {
  switch (t) {
    case OSL_TYPE_CONTEXT: return "CONTEXT"; case OSL_TYPE_DOMAIN: return "DOMAIN"; case OSL_TYPE_SCATTERING: return "SCATTERING";
    case OSL_TYPE_READ: return "READ"; case OSL_TYPE_WRITE: return "WRITE"; case OSL_TYPE_MAY_WRITE: return "MAY_WRITE";
    default: return "UNDEFINED";
  }
}
void wRel(const Node& n, Out& o) {
  if (n.k.empty()) return;
  o.words({relType(atoi(val(n.k[0], "type").c_str())) + o.more()});
  if (n.k.size() > 1 || (o.g && o.g->chance(15))) o.words({fmt("%zu", n.k.size())});
  for (auto& p : n.k) {
    o.words({val(p, "rows"), val(p, "columns"), val(p, "output"), val(p, "input"), val(p, "local"), val(p, "params")});
    for (auto& r : p.k) if (r.tag == "row") { std::istringstream in(r.val.substr(1, r.val.size() - 2)); std::vector<str> w; str x; while (in >> x) w.push_back(x); o.words(w); }
  }
}
void wWords(const Node& n, Out& o) { std::vector<str> w; for (auto& c : n.k) w.push_back(un(c)); o.words(w); }
void wNode(const Node& n, Out& o);
void wExts(const Node& n, Out& o) {
  for (auto& e : n.k) {
    const Node* d = nullptr;
    for (auto& c : e.k) if (c.tag != "registry") d = &c;
    o.endl();
    o.s += "<" + e.val + ">\n";
    if (d) wNode(*d, o);
    if (e.val != "clay" && e.val != "comment") o.endl();
    o.s += "</" + e.val + ">\n";
  }
}
void wLines(const Node& n, Out& o) {
  o.tok(val(n, "count"));
  for (auto& l : n.k) if (l.tag == "line") { o.tok(val(l, "ltype")); o.line(un(sub(l, "text"))); }
}
void wBodyN(const Node& n, Out& o) {
  const Node& it = n.k[0].k[0];
  o.tok(fmt("%zu", it.k.size()));
  if (!it.k.empty()) wWords(it, o);
  o.line(un(n.k[1].k[0].k[0]));
}
void wStmt(const Node& n, Out& o) {
  std::vector<const Node*> r;
  const Node &d = n.k[0].k[0], &s = n.k[1].k[0], &a = n.k[2], &x = n.k[3];
  if (!d.k.empty()) r.push_back(&d);
  if (!s.k.empty()) r.push_back(&s);
  size_t fixed = r.size();
  for (auto& c : a.k) r.push_back(&c);
  if (o.g && o.g->chance(40)) {  // in any order, but the accesses among themselves
    std::vector<const Node*> acc(r.begin() + (long)fixed, r.end()), all(acc);
    for (size_t i = 0; i < fixed; i++) all.insert(all.begin() + (long)o.g->below(all.size() + 1), r[i]);
    r = all;
  }
  o.words({fmt("%zu", r.size())});
  for (auto* p : r) wRel(*p, o);
  o.words({fmt("%zu", x.k.size())});
  wExts(x, o);
}
void wNode(const Node& n, Out& o) {
  const str& t = n.tag;
  if (t == "relation") wRel(n, o);
  else if (t == "strings") wWords(n, o);
  else if (t == "generics") wExts(n, o);
  else if (t == "access") { o.words({fmt("%zu", n.k.size())}); for (auto& c : n.k) wRel(c, o); }
  else if (t == "body") wBodyN(n, o);
  else if (t == "arrays") { o.tok(val(n, "nb")); for (auto& c : n.k) if (c.tag == "array") { o.tok(val(c, "id")); o.tok(un(sub(c, "name"))); } }
  else if (t == "clay") o.s += un(n.k[0]);
  else if (t == "comment") o.s += un(n.k[0]);
  else if (t == "null" || t == "data") {}
  else if (t == "coordinates") { o.line(un(sub(n, "name"))); for (const char* k : {"line_start", "column_start", "line_end", "column_end", "indent"}) o.tok(val(n, k)); }
  else if (t == "dependence") {
    o.tok(fmt("%zu", n.k.size()));
    for (auto& d : n.k) {
      int ty = atoi(val(d, "dtype").c_str());
      o.tok(ty == OSL_DEPENDENCE_RAW ? "RAW" : ty == OSL_DEPENDENCE_WAR ? "WAR" : ty == OSL_DEPENDENCE_WAW ? "WAW" : ty == OSL_DEPENDENCE_RAR ? "RAR" : ty == OSL_DEPENDENCE_RAW_SCALPRIV ? "RAW_SCALPRIV" : "UNSET");
      for (const char* k : {"label_source", "label_target", "depth", "ref_source", "ref_target"}) o.tok(val(d, k));
      std::vector<str> w; for (const char* k : {"son", "soa", "ton", "toa", "sln", "sla", "tln", "tla"}) w.push_back(val(d, k));
      o.words(w);
      wRel(sub(d, "relation"), o);
    }
  }
  else if (t == "extbody") {
    o.tok(val(n, "nb_access"));
    for (auto& c : n.k) if (c.tag == "coord") { o.tok(val(c, "start")); o.tok(val(c, "length")); }
    wBodyN(sub(n, "body"), o);
  }
  else if (t == "irregular") {
    o.tok(val(n, "nb_statements"));
    for (auto& c : n.k) if (c.tag == "stmt") for (auto& x : c.k) o.tok(x.val);
    o.tok(val(n, "nb_control")); o.tok(val(n, "nb_exit"));
    for (auto& c : n.k) if (c.tag == "pred") for (auto& x : c.k) if (x.tag == "n") o.tok(x.val); else if (x.tag == "it") o.tok(un(x)); else o.line(un(x));
  }
  else if (t == "loop") {
    o.tok(fmt("%zu", n.k.size()));
    for (auto& l : n.k) {
      o.tok(un(sub(l, "iter"))); o.tok(val(l, "nb_stmts"));
      for (auto& c : l.k) if (c.tag == "id") o.tok(c.val);
      o.line(un(sub(l, "private")));
      o.tok(val(l, "directive"));
      if (atoi(val(l, "directive").c_str()) & OSL_LOOP_DIRECTIVE_USER) o.line(un(sub(l, "user")));
    }
  }
  else if (t == "pluto_unroll") {
    o.tok(n.k.empty() ? "0" : "1");
    for (size_t i = 0; i < n.k.size(); i++) { o.line(un(sub(n.k[i], "iter"))); o.tok(val(n.k[i], "jam")); o.tok(val(n.k[i], "factor")); o.tok(i + 1 < n.k.size() ? "1" : "0"); }
  }
  else if (t == "region") { o.tok(fmt("%zu", n.k.size())); for (auto& r : n.k) { o.tok(val(r, "location")); for (const char* k : {"prefix", "suffix", "prelude", "postlude"}) wLines(sub(r, k), o); } }
  else if (t == "annotation") { wLines(sub(n, "prefix"), o); wLines(sub(n, "suffix"), o); }
  else if (t == "scatinfos") { o.tok(val(n, "nb")); for (const char* k : {"parallel", "permutable", "stype"}) for (auto& d : n.k) if (d.tag == "dim") o.tok(val(d, k)); }
  else if (t == "scatnames") wWords(n.k[0], o);
  else if (t == "symbols") {
    o.tok(fmt("%zu", n.k.size()));
    for (auto& s : n.k) {
      int ty = atoi(val(s, "type").c_str());
      o.tok(ty == OSL_SYMBOL_TYPE_ITERATOR ? "Iterator" : ty == OSL_SYMBOL_TYPE_PARAMETER ? "Parameter" : ty == OSL_SYMBOL_TYPE_ARRAY ? "Array" : ty == OSL_SYMBOL_TYPE_FUNCTION ? "Function" : "Undefined");
      o.tok(val(s, "generated")); o.tok(val(s, "nb_dims"));
      for (const char* k : {"identifier", "datatype", "scope", "extent"}) wExts(sub(s, k).k[0], o);
    }
  }
  else if (t == "statements") for (auto& s : n.k) wStmt(s, o);
  else if (t == "scops") for (auto& s : n.k) {
    o.endl();
    if (o.g && o.g->chance(30)) o.s += o.g->chance(50) ? "# a document\n\n" : "# | <- a page > header\n#\n   \nany text, 3 < 4 </ OpenScop> <OpenScope>\n";
    o.s += "<OpenScop>\n";
    o.words({un(sub(s, "language")) + o.more()});
    wRel(sub(s, "context").k[0], o);
    const Node& p = sub(s, "parameters").k[0];
    o.words({p.k.empty() ? "0" : "1"});
    wExts(p, o);
    const Node& st = sub(s, "statements");
    o.words({fmt("%zu", st.k.size())});
    wNode(st, o);
    wExts(sub(s, "generics"), o);
    o.endl();
    o.s += "</OpenScop>\n";
  }
  else fail("simulator-error", "no format for " + t);
}
// Lists that are printed from an empty line have no text of their own.
str writeText(const Node& n, Rng* g, bool* extra = nullptr) { Out o; o.g = g; wNode(n, o); if (extra) *extra = o.extra; if (!o.s.empty() && o.s[0] == '\n') o.s.erase(0, 1); return o.s; }
// The words of a text. A part count of one may be given or not.
str tokens(const str& t) {
  std::istringstream in(dataOnly(t)); str l, o; bool type = false;
  while (std::getline(in, l)) {
    std::istringstream li(l); std::vector<str> w; str x;
    while (li >> x) w.push_back(x);
    if (w.empty()) continue;
    if (type && w.size() == 1 && w[0] == "1") { type = false; continue; }
    type = false;
    if (w.size() == 1) for (int k : {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_UNDEFINED}) if (w[0] == relType(k)) type = true;
    for (auto& y : w) { o += y; o += '\n'; }
  }
  return o;
}

int myPrecision() { return clientPrec(*rc->plan, cur->id); }
Node look(int kind, void* p) { Quiet q; return kinds[kind].walk(p, nullptr); }
bool onStream(int k) { return k == K_SCOP || k == K_STATEMENT || k == K_RELATION || k == K_RELLIST || k == K_STRINGS || k == K_GENERIC; }
bool inString(int k) { return kinds[k].sread != nullptr; }

void* readString(int kind, const str& t) {
  char* b = (char*)malloc(t.size() + 1);
  memcpy(b, t.c_str(), t.size() + 1);
  char* q = b;
  int pr = myPrecision();
  void* r = kind == K_RELATION && decide("fmtread", 2) ? (void*)LIB(osl_relation_psread(&q, pr))
          : kind == K_DEPENDENCE && decide("fmtread", 2) ? (void*)LIB(osl_dependence_psread(&q, pr)) : LIB(kinds[kind].sread(&q));
  rc->checks++;
  if (q < b || q > b + t.size()) fail("pointer-wrong", fmt("%s: input pointer left outside the text", kinds[kind].name));
  if (selfDelimited(kind)) for (char* z = q; *z; z++) if (*z == '#') { while (z[1] && z[1] != '\n') z++; } else if (!isspace((unsigned char)*z)) fail("pointer-wrong", fmt("%s: data left unread: '%s'", kinds[kind].name, shortText(z).c_str()));
  free(b);
  return r;
}
void* readStream(int kind, const str& t, int count, Rng& g) {
  static const int bufs[] = {-1, -1, 0, 1, 3, 16, 64, 4096};
  Stream* st = nullptr;
  FILE* f = textReader(t, (int)g.below(g.chance(50) ? 5 : 300), bufs[g.below(8)], nullptr, &st);
  void* r = readObj(kind, f, myPrecision(), -1, count);
  textDone(f, st);
  return r;
}
void sameTokens(const str& lib, const str& own, const str& what) {
  rc->checks++;
  str a = tokens(lib), b = tokens(own);
  if (a == b) return;
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = i > 60 ? i - 60 : 0;
  auto cut = [&](const str& x) { str y = shortText(x.substr(std::min(s, x.size()), 120)); for (auto& c : y) if (c == '\n') c = ' '; return y; };
  fail("format-differs", what + ": the text says '" + cut(a) + "' where the format has '" + cut(b) + "'");
}
// The texts the library writes for an object.
void checkPrints(int kind, void* p, const Node& n, const str& what) {
  const Kind& K = kinds[kind];
  str own = writeText(n, nullptr);
  if (K.print) sameTokens(printText(kind, p), own, what + " printed");
  if (K.sprint) { char* t = LIB(K.sprint(p)); if (!t) fail("format-differs", what + ": no text"); str x = t; LIBV(sim_free(t)); sameTokens(x, own, what + " printed to a string"); }
  cover.probes[str("format:print ") + K.name]++;
}
void release(int kind, void* p) { LIBV(kinds[kind].free_(p)); }
int itemsOf(int kind, const Node& n) { return kind == K_STATEMENT || kind == K_GENERIC ? (int)n.k.size() : 1; }

// Documents the generators of objects do not make, but the format allows.
void vary(int kind, Node& n, Rng& g) {
  if (kind == K_SCOP || kind == K_STATEMENT || kind == K_GENERIC) {  // a list of strings may be void
    std::function<void(Node&)> f = [&](Node& x) { if (x.tag == "generic" && x.val == "strings") { for (auto& c : x.k) if (c.tag == "strings" && g.chance(20)) c = Node("data", "(NULL)"); return; } for (auto& c : x.k) f(c); };
    f(n);
  }
  if (kind == K_RELATION && g.chance(15)) for (auto& p : n.k) for (auto& f : p.k) if (f.tag == "type") f.val = fmt("%d", OSL_UNDEFINED);
  if (kind == K_STATEMENT || kind == K_SCOP) {
    std::function<void(Node&)> f = [&](Node& x) {
      if (x.tag == "statement") {
        if (g.chance(12)) x.k[1].k[0].k.clear();
        if (g.chance(12)) x.k[2].k.clear();
        if (g.chance(12)) x.k[3].k.clear();
        if (g.chance(6)) x.k[0].k[0].k.clear();
        return;
      }
      for (auto& c : x.k) f(c);
    };
    f(n);
  }
}
void oneObject(Rng& g) {
  static const int ks[] = {K_SCOP, K_SCOP, K_SCOP, K_STATEMENT, K_STATEMENT, K_RELATION, K_RELATION, K_RELLIST, K_STRINGS, K_BODY, K_GENERIC, K_GENERIC, K_ARRAYS, K_CLAY, K_COMMENT, K_COORDINATES, K_DEPENDENCE,
    K_EXTBODY, K_IRREGULAR, K_LOOP, K_PLUTO, K_REGION, K_ANNOTATION, K_SCATINFOS, K_SCATNAMES, K_SYMBOLS};
  int kind = ks[g.below(sizeof ks / sizeof *ks)];
  Recipe rec; rec.os = g.next(); rec.size = (int)g.below(5); rec.prec = myPrecision(); rec.mag = 4; rec.valid = true;
  void* p = buildObj(kind, rec);
  Node n = look(kind, p);
  checkPrints(kind, p, n, kinds[kind].name);
  Node m = forPrecision(n, myPrecision());
  bool varied = g.chance(40);
  if (varied) vary(kind, m, g);
  Rng lay(g.next());
  bool extra = false;
  str t = writeText(m, g.chance(80) ? &lay : nullptr, &extra);
  bool str_ = inString(kind) && (!onStream(kind) || g.chance(50));
  bool deco = g.chance(25);
  if (deco) t = decorate(t, g.next(), kind, str_);
  if (str_ && kind != K_CLAY && kind != K_COMMENT && g.chance(15)) while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
  size_t mark = cur->res.err.size();
  void* r = str_ ? readString(kind, t) : readStream(kind, t, itemsOf(kind, m), g);
  str said = cur->res.err.substr(mark);
  rc->checks++;
  if (extra && said.find("arning") == str::npos) fail("format-silent", fmt("%s: words without a meaning were dropped without a warning", kinds[kind].name));
  if (!extra && said.find("arning") != str::npos && said.find("OSL_PRECISION") == str::npos && (kind != K_SCOP || LIB(osl_scop_integrity_check((osl_scop_p)r)))) fail("format-noise", fmt("%s which follows the format was read with a warning: %s", kinds[kind].name, said.substr(0, 200).c_str()));
  if (extra) cover.probes["format:extra words"]++;
  checkSame(look(kind, r), m, "format-read-differs", fmt("%s written by hand and read from a %s", kinds[kind].name, str_ ? "string" : "stream"));
  if (r) checkPrints(kind, r, m, str(kinds[kind].name) + " written by hand");
  if (!varied && kinds[kind].equal && same(n, m)) { rc->checks++; if (!LIB(kinds[kind].equal(p, r)) || !LIB(kinds[kind].equal(r, p))) fail("equal-wrong", fmt("%s written by hand is not equal to the original", kinds[kind].name)); }
  cover.probes[fmt("format:read %s%s", kinds[kind].name, varied ? " varied" : "")]++;
  if (r) release(kind, r);
  release(kind, p);
  say(fmt("edit format %s %016llx", kinds[kind].name, (unsigned long long)m.hash()));
}
// Announced as empty: nothing there, or an object without elements.
void empties(Rng& g) {
  static const struct { int kind; const char* text; const char* tree; } E[] = {
    {K_DEPENDENCE, "0", nullptr}, {K_LOOP, "0", nullptr}, {K_REGION, "0", nullptr}, {K_SYMBOLS, "0", nullptr}, {K_PLUTO, "0", nullptr},
    {K_ARRAYS, "0", "arrays"}, {K_SCATINFOS, "0", "scatinfos"}, {K_EXTBODY, "0\n0\nx = 1;", "extbody"}, {K_IRREGULAR, "0\n0\n0", "irregular"}, {K_ANNOTATION, "0\n0", "annotation"}, {K_BODY, "0\nx = 1;", "body"}};
  auto& e = E[g.below(11)];
  str t = str(g.chance(30) ? "# nothing\n\n" : "") + e.text + (g.chance(80) ? "\n" : "");
  void* r = readString(e.kind, t);
  rc->checks++;
  if (!e.tree) { if (r) fail("format-read-differs", fmt("%s: no element was announced, some object was read", kinds[e.kind].name)); }
  else {
    if (!r) fail("format-read-differs", fmt("%s without elements was not read", kinds[e.kind].name));
    Node n = look(e.kind, r);
    std::function<bool(const Node&)> bare = [&](const Node& x) { if (x.tag == "array" || x.tag == "dim" || x.tag == "coord" || x.tag == "line" || x.tag == "pred" || x.tag == "stmt") return false; for (auto& c : x.k) if (!bare(c)) return false; return true; };
    rc->checks++;
    if (!bare(n)) fail("format-read-differs", fmt("%s without elements has some", kinds[e.kind].name));
    checkPrints(e.kind, r, n, str(kinds[e.kind].name) + " without elements");
    release(e.kind, r);
  }
  cover.probes["format:empty"]++;
  say(fmt("edit format empty %s", kinds[e.kind].name));
}
std::vector<str> linesOf(const str& t) { std::vector<str> v; std::istringstream in(t); str l; while (std::getline(in, l)) v.push_back(l); return v; }
str join(const std::vector<str>& v) { str o; for (auto& l : v) o += l + "\n"; return o; }
str anyRel(Rng& g, int kind = K_RELATION) { Recipe r; r.os = g.next(); r.size = (int)g.below(4); r.prec = myPrecision(); r.mag = 3; r.valid = true; void* p = buildObj(kind, r); Node n = look(kind, p); { Quiet q; kinds[kind].free_(p); } return writeText(n, nullptr); }
str relOf(int type, Rng& g) { G x(g.next(), 2, myPrecision()); osl_relation_p r; Node n; { Quiet q; r = genRelation(x, type, 2, type == OSL_TYPE_DOMAIN || type == OSL_TYPE_CONTEXT ? 0 : 1, 0, 1, 1 + (int)g.below(2), 1, 1); n = walkRelation(r, nullptr); osl_relation_free(r); } return writeText(n, nullptr); }
// Texts that break the format: never taken for something else.
void refusals(Rng& g, bool cut_) {
  str what, t; int kind = K_RELATION; bool stream = g.chance(50); int count = 1;
  switch (cut_ ? 5 : g.below(8)) {
    case 5: case 6: {  // texts that end before a number or a word which has to follow
      static const int ks[] = {K_RELATION, K_BODY, K_ARRAYS, K_COORDINATES, K_DEPENDENCE, K_EXTBODY, K_LOOP, K_PLUTO, K_REGION, K_ANNOTATION, K_SCATINFOS, K_SYMBOLS, K_IRREGULAR};
      kind = ks[g.below(13)]; stream = kind == K_RELATION && g.chance(50);
      Recipe r; r.os = g.next(); r.size = 1 + (int)g.below(4); r.prec = myPrecision(); r.mag = 3; r.valid = true;
      void* p = buildObj(kind, r); Node n = look(kind, p); { Quiet q; kinds[kind].free_(p); }
      Rng lay(g.next());
      Out o; o.g = g.chance(50) ? &lay : nullptr; wNode(n, o);
      size_t first = 0; while (first < o.s.size() && isspace((unsigned char)o.s[first])) first++;
      std::vector<size_t> cut; for (size_t x : o.items) if (x > first) cut.push_back(x);
      if (cut.empty()) return;
      t = o.s.substr(0, cut[g.below(cut.size())]);
      what = str(kinds[kind].name) + " that ends early";
      break;
    }
    case 7: {  // a body that lists other than the announced number of iterators
      kind = g.chance(70) ? K_BODY : K_EXTBODY; stream = false;
      int n = (int)g.below(5), d = n == 0 || g.chance(50) ? 1 + (int)g.below(2) : -1;
      if (n + d < 1) d = 1;
      t = kind == K_EXTBODY ? "1\n0 1\n" : "";
      t += fmt("%d\n", n + d);
      for (int i = 0; i < n; i++) t += fmt("%sv%d", i ? " " : "", i);
      if (n) t += "\n"; else return;
      t += g.chance(80) ? "A = 1;\n" : "";
      what = str(kinds[kind].name) + " with another number of iterators than announced";
      break;
    }
    case 0: case 1: {  // relations
      Recipe r; r.os = g.next(); r.size = 1 + (int)g.below(3); r.prec = myPrecision(); r.mag = 3; r.valid = true;
      void* p = buildObj(K_RELATION, r); Node n = look(K_RELATION, p); { Quiet q; kinds[K_RELATION].free_(p); }
      std::vector<str> v = linesOf(writeText(n, nullptr));
      size_t at = n.k.size() > 1 ? 2 : 1;  // the first attribute line
      bool lastRow = val(n.k.back(), "rows") != "0";
      u64 how = g.below(8);
      if (how < 2 && !lastRow) how = 2;
      auto dropWord = [](str& l) { size_t b = l.find_last_of(' '); l = b == str::npos ? "" : l.substr(0, b); };
      switch (how) {
        case 0: v.pop_back(); what = "a relation that lacks its last row"; break;
        case 1: dropWord(v.back()); what = "a row that lacks its last coefficient"; break;
        case 2: { int k = 1 + (int)g.below(4); for (int i = 0; i < k; i++) dropWord(v[at]); what = fmt("%d attributes of a relation", 6 - k); break; }
        case 3: if (at == 2) v[1] = g.chance(50) ? "0" : "-2"; else v.insert(v.begin() + 1, g.chance(50) ? "0" : "-1"); what = "a relation of no or fewer parts"; break;
        case 4: v.insert(v.begin() + 1, "2"); if (at == 1) v.insert(v.begin() + 1, "2"); what = "two numbers of parts"; break;
        case 5: { static const char* w[] = {"DOMAINS", "read", "TYPE", "MAY", "0", "CONTEX"}; v[0] = w[g.below(6)]; what = "an unknown type of relation"; break; }
        case 6: v.erase(v.begin()); what = "a relation without a type"; break;
        case 7: if (at == 2) v[1] = fmt("%zu", n.k.size() + 1); else v.insert(v.begin() + 1, "2"); what = "a relation that lacks a part"; break;
      }
      t = join(v);
      break;
    }
    case 2: {  // statements
      kind = K_STATEMENT; stream = true;
      std::vector<str> rel{relOf(OSL_TYPE_DOMAIN, g), relOf(OSL_TYPE_SCATTERING, g), relOf(OSL_TYPE_READ, g)};
      switch (g.below(4)) {
        case 0: rel.push_back(relOf(OSL_TYPE_DOMAIN, g)); what = "a statement with two domains"; break;
        case 1: rel.push_back(relOf(OSL_TYPE_SCATTERING, g)); what = "a statement with two scatterings"; break;
        case 2: rel.push_back(relOf(OSL_TYPE_CONTEXT, g)); what = "a statement with a context"; break;
        case 3: rel.push_back(relOf(OSL_UNDEFINED, g)); what = "a statement with an undefined relation"; break;
      }
      std::swap(rel[3], rel[g.below(4)]);
      t = "4\n"; for (auto& x : rel) t += x;
      t += "0\n";
      break;
    }
    case 3: {  // counts below zero, or no numbers at all
      static const int ks[] = {K_ARRAYS, K_DEPENDENCE, K_EXTBODY, K_IRREGULAR, K_LOOP, K_REGION, K_SCATINFOS, K_SYMBOLS, K_ANNOTATION, K_BODY, K_RELLIST};
      kind = ks[g.below(11)]; stream = kind == K_RELLIST;
      what = str(kinds[kind].name) + " with a count that is none";
      static const char* bad[] = {"-1", "-1", "-7", "x", "-2147483648"};
      t = str(bad[g.below(5)]) + "\n0\n0\n0\n0\n0\n0\n";
      break;
    }
    case 4: {  // documents
      kind = K_SCOP; stream = true;
      str ctx = relOf(OSL_TYPE_DOMAIN, g); ctx = "CONTEXT" + ctx.substr(6);
      str stm = "3\n" + relOf(OSL_TYPE_DOMAIN, g) + relOf(OSL_TYPE_SCATTERING, g) + relOf(OSL_TYPE_WRITE, g) + "0\n";
      str bare = "<OpenScop>\nC\n" + ctx + "0\n0\n", ext = g.chance(50) ? "<comment>\na\n</comment>\n" : "<body>\n0\nx = 1;\n</body>\n";
      switch (g.below(8)) {
        case 5: t = bare + ext + (g.chance(50) ? "<clay>\nq();\n</clay>\n" : "") + ext + "</OpenScop>\n"; what = "a document with two extensions of one kind"; break;
        case 6: t = bare + (g.chance(50) ? ext : "") + (g.chance(50) ? "word\n" : "12\n") + (g.chance(50) ? ext : "") + "</OpenScop>\n"; what = "a document with something else than extensions at its end"; break;
        case 7: t = bare + ext.substr(0, ext.find("</")) + (g.chance(50) ? "<clay>\nq();\n</clay>\n" : "") + "</OpenScop>\n"; what = "a document with an extension that does not end"; break;
        case 0: t = "<OpenScop>\n"; what = "a document without a language"; break;
        case 1: t = "<OpenScop>\nC\n" + ctx + "0\n2\n" + stm + "</OpenScop>\n"; what = "a document that lacks a statement"; break;
        case 2: t = "<OpenScop>\nC\n" + ctx + "1\n"; what = "a document that lacks its parameters"; break;
        case 3: t = "<OpenScop>\nC\n" + ctx + "0\n1\n" + stm.substr(0, stm.size() - 2) + "1\n"; what = "a document that lacks a statement extension"; break;
        case 4: t = "<OpenScop>\nC\n" + ctx + "0\n1\n" + stm.substr(0, stm.size() - 2) + "1\n<body>\n0\nx = 1;\n"; what = "a document that lacks an end tag"; break;
      }
      break;
    }
  }
  cover.probes["format:refused"]++; cover.probes["format:refused " + what.substr(0, what.find(" with a count"))]++;
  me().exitOk = true; me().exitWhy = what;
  if (stream) readStream(kind, t, count, g); else readString(kind, t);
  me().exitOk = false;
  fail("format-accepted", what + " was read: '" + shortText(t) + "'");
}
}  // namespace

// only: 1 just texts that end early
void mFormat(Rng& g, int only) {
  if (only == 1) { refusals(g, true); return; }
  u64 x = g.below(200);
  if (x < 5) refusals(g, false);
  else if (x < 16) empties(g);
  else oneObject(g);
}
}  // namespace sim
