#include "ops.h"
#include <algorithm>
#include <osl/extensions/annotation.h>
#include <osl/extensions/region.h>

namespace sim {
bool decSmall(const str& a);
RunCtx* rc = nullptr;
Cover cover;
std::function<void(const Plan&)> aboutToRun;
ClientCtx& me() { return rc->c[(size_t)cur->id]; }

// ------------------------------------------------------------- helpers ----
str shortText(const str& s, size_t n) {
  str o;
  for (char c : s) { if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += fmt("\\x%02x", (unsigned char)c); else o += c; }
  if (o.size() > n) o = o.substr(0, n / 2) + " ... " + o.substr(o.size() - n / 2);
  return o;
}
void say(const str& s) { if (cur) cur->res.transcript.push_back(s); }
Arm::Arm() { old = cur ? cur->armed : false; if (cur) cur->armed = true; }
Arm::~Arm() {
  if (!cur) return;
  if (cur->armed && cur->res.allocFailed && !old) {
    cur->armed = false;
    fail("alloc-ignored", fmt("an allocation in %s failed during '%s' but the call returned", cur->res.failedIn.c_str(), me().opName.c_str()));
  }
  cur->armed = old;
}
void checkSame(const Node& got, const Node& want, const char* cls, const str& what) {
  rc->checks++;
  if (same(got, want)) return;
  fail(cls, what + ": " + diff(got, want));
}
void checkUnchanged(Obj* o, const char* cls, const str& what) {
  Quiet q;
  checkSame(kinds[o->kind].walk(o->p, nullptr), o->tree, cls, what);
}
Obj* pick(long sel, int kind) {
  auto& l = me().objs;
  std::vector<Obj*> v;
  for (auto& o : l) if (kind < 0 || o.kind == kind) v.push_back(&o);
  if (v.empty()) return nullptr;
  return v[(size_t)((u64)sel % v.size())];
}
Obj* newObj(int kind, void* p, const Node& t) {
  me().objs.emplace_back();
  Obj* o = &me().objs.back();
  o->kind = kind; o->p = p; o->tree = t; o->id = me().nextId++;
  return o;
}
void eraseObj(Obj* o) { me().objs.remove_if([o](const Obj& x) { return &x == o; }); }
void freeObj(Obj* o) { int k = o->kind; void* p = o->p; for (auto& c : me().constArgs) if (c == o) c = nullptr; eraseObj(o); LIBV(kinds[k].free_(p)); }
void* buildObj(int kind, const Recipe& r) {
  Quiet q;
  G g(r.os, r.size, r.prec);
  g.magnitude = r.mag; g.plain = r.plain; g.exts = r.exts;
  return kinds[kind].gen(g);
}
static Node walk(int kind, void* p) { Quiet q; return kinds[kind].walk(p, nullptr); }
int clientPrec(const Plan& p, int c) {
  long v = p.knob(fmt("prec%d", c).c_str(), 1);
  return v == 32 ? OSL_PRECISION_SP : v == 64 ? OSL_PRECISION_DP : OSL_PRECISION_MP;
}
static int myPrec() { return clientPrec(*rc->plan, cur->id); }
long defaultMask() {
  static const int ks[] = {K_STRINGS, K_BODY, K_RELATION, K_TEXTUAL, K_COMMENT, K_NULL, K_SCATINFOS, K_SCATNAMES, K_ARRAYS, K_COORDINATES,
                           K_CLAY, K_DEPENDENCE, K_SYMBOLS, K_EXTBODY, K_LOOP, K_PLUTO, K_REGION, K_ANNOTATION};
  long m = 0; for (int k : ks) m |= 1l << k; return m;
}
osl_interface_p mkRegistry(long mask, u64 order) {
  if (mask < 0) return LIB(osl_interface_get_default_registry());
  std::vector<int> ks;
  for (int k = 0; k < K_COUNT; k++) if (((mask & defaultMask()) >> k) & 1) ks.push_back(k);
  for (size_t i = ks.size(); i > 1; i--) std::swap(ks[i - 1], ks[H(order, i) % i]);
  osl_interface_p reg = nullptr;
  for (int k : ks) { osl_interface_p i = LIB(ifaceOf[k]()); LIBV(osl_interface_add(&reg, i)); }
  return reg;
}
Node forPrecision(const Node& n, int prec) {
  Node m = n;
  std::function<void(Node&)> f = [&](Node& x) {
    if (x.tag == "precision") x.val = fmt("%d", prec);
    for (auto& c : x.k) f(c);
  };
  f(m);
  return m;
}
Node filterURIs(const Node& n, long mask, std::set<str>* skipped) {
  if (mask < 0) return n;
  Node m(n.tag, n.val);
  for (auto& c : n.k) {
    if (c.tag == "generic") {
      int k = kindOfURI(c.val);
      if (k < 0 || !((mask >> k) & 1)) { if (skipped) skipped->insert(c.val); continue; }
      m.add(c);
    } else m.add(filterURIs(c, mask, skipped));
  }
  return m;
}
std::set<void*> reach(void* root, size_t rootSize) {
  std::set<void*> s;
  std::vector<std::pair<void*, size_t>> todo;
  Block* rb = heapFind(root);
  if (rb) { s.insert(root); todo.push_back({root, rb->size}); }
  else if (root && rootSize) todo.push_back({root, rootSize});
  while (!todo.empty()) {
    auto q = todo.back(); todo.pop_back();
    for (size_t i = 0; i + 8 <= q.second; i += 8) {
      void* v; memcpy(&v, (char*)q.first + i, 8);
      Block* b = heapFind(v);
      if (b && s.insert(v).second) todo.push_back({v, b->size});
    }
  }
  return s;
}
void printObj(int kind, FILE* f, void* p) { LIBV(kinds[kind].print(f, p)); }
static FILE* memWriter(Stream** out) {
  std::unique_ptr<Stream> s(new Stream()); s->write = true; s->isMem = true;
  Stream* q = s.get();
  FILE* f = openStream(std::move(s), -1);
  if (out) *out = q;
  return f;
}
static FILE* memReader(const str& data, int chunk, int buf) {
  std::unique_ptr<Stream> s(new Stream()); s->isMem = true; s->mem = data; s->chunk = chunk;
  return openStream(std::move(s), buf);
}
static void dropStream(Stream* s) {
  for (auto i = world.streams.begin(); i != world.streams.end(); ++i) if (i->get() == s) { world.streams.erase(i); return; }
}
FILE* textReader(const str& data, int chunk, int buf, const IoFault* fault, Stream** out) {
  std::unique_ptr<Stream> s(new Stream()); s->isMem = true; s->mem = data; s->chunk = chunk;
  if (fault) s->faults.push_back(*fault);
  *out = s.get();
  return openStream(std::move(s), buf);
}
void textDone(FILE* f, Stream* s) { simClose(f); dropStream(s); }
str withFile(const std::function<void(FILE*)>& f) {
  Stream* s; FILE* m = memWriter(&s);
  f(m);
  simClose(m);
  str r = s->mem;
  dropStream(s);
  return r;
}
str printText(int kind, void* p) { return withFile([&](FILE* f) { printObj(kind, f, p); }); }
void* readObj(int kind, FILE* f, int prec, long mask, int count) {
  bool env = mask < 0 && decide("readvariant", 2) == 0;
  switch (kind) {
    case K_SCOP: {
      if (env) return LIB(osl_scop_read(f));
      osl_interface_p reg = mkRegistry(mask, rc->plan->seed);
      osl_scop_p s = LIB(osl_scop_pread(f, reg, prec));
      LIBV(osl_interface_free(reg));
      return s;
    }
    case K_STATEMENT: {
      if (env && count == 1) return LIB(osl_statement_read(f));
      osl_interface_p reg = mkRegistry(mask, rc->plan->seed);
      osl_statement_p h = nullptr;
      for (int i = 0; i < count; i++) { osl_statement_p s = LIB(osl_statement_pread(f, reg, prec)); LIBV(osl_statement_add(&h, s)); if (!s || feof(f) || ferror(f)) break; }
      LIBV(osl_interface_free(reg));
      return h;
    }
    case K_GENERIC: {
      osl_interface_p reg = mkRegistry(mask, rc->plan->seed);
      osl_generic_p h = nullptr;
      for (int i = 0; i < count; i++) { osl_generic_p s = LIB(osl_generic_read_one(f, reg)); LIBV(osl_generic_add(&h, s)); if (feof(f) || ferror(f)) break; }
      LIBV(osl_interface_free(reg));
      return h;
    }
    case K_RELATION: return env ? LIB(osl_relation_read(f)) : LIB(osl_relation_pread(f, prec));
    case K_RELLIST: return env ? LIB(osl_relation_list_read(f)) : LIB(osl_relation_list_pread(f, prec));
    case K_STRINGS: return LIB(osl_strings_read(f));
    default: return nullptr;
  }
}
static size_t countNeedle(const str& s, const char* n, size_t upto) {
  size_t c = 0, l = strlen(n), i = 0;
  while ((i = s.find(n, i)) != str::npos && i + l <= upto) { c++; i += l; }
  return c;
}
static int itemCount(int kind, void* p) {
  int n = 0;
  if (kind == K_STATEMENT) for (osl_statement_p s = (osl_statement_p)p; s; s = s->next) n++;
  else if (kind == K_GENERIC) for (osl_generic_p s = (osl_generic_p)p; s; s = s->next) n++;
  else n = 1;
  return n;
}
// offsets of the last line carrying data in a text: [start,end)
static void lastData(const str& t, size_t* start, size_t* end) {
  size_t i = 0; *start = 0; *end = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == str::npos) e = t.size();
    size_t h = t.find('#', i); if (h == str::npos || h > e) h = e;
    size_t a = i; while (a < h && isspace((unsigned char)t[a])) a++;
    size_t b = h; while (b > a && isspace((unsigned char)t[b - 1])) b--;
    if (b > a) { *start = a; *end = b; }
    i = e + 1;
  }
}

// ------------------------------------------------- reading operations ----
static str boolText(bool b) { return b ? "1" : "0"; }
template <class T> static str freed(int kind, T* p) {
  str s = p ? walk(kind, p).text() : str("(NULL)");
  LIBV(kinds[kind].free_(p));
  return s;
}
static char** nameArray(const osl_relation_p r) {
  int n = r->nb_columns;
  char** a = (char**)malloc(sizeof(char*) * (size_t)(n + 1));
  for (int i = 0; i < n; i++) { a[i] = strdup(i == n - 1 ? "1" : fmt("x%d", i).c_str()); }
  a[n] = nullptr;
  return a;
}
static void dropNames(char** a, int n) { for (int i = 0; i < n; i++) free(a[i]); free(a); }

str dataOnly(const str& t);
void sameText(const str& a, const str& b, const char* cls, const str& what);
void moreReads(Obj* o, Rng& r, std::vector<std::pair<str, std::function<str()>>>& v);  // reads.cpp
str readOnlyOp(Obj* o, long which) {
  const Kind& K = kinds[o->kind];
  void* p = o->p;
  ConstArg ca(o);
  Rng r(H(rc->plan->seed, (u64)which, cur->res.opsDone, 5));
  std::vector<std::pair<str, std::function<str()>>> v;
  if (o->odd) {
    if (K.clone) v.push_back({"clone", [&] { void* c = LIB(K.clone(p)); Quiet* q = new Quiet; checkSame(K.walk(c, nullptr), o->tree, "clone-differs", str("clone of ") + K.name); delete q; return freed(o->kind, c); }});
  } else {
  if (K.print) v.push_back({"print", [&] { return printText(o->kind, p); }});
  if (K.idump) v.push_back({"dump", [&] { int l = (int)r.below(3); return withFile([&](FILE* f) { LIBV(K.idump(f, p, l)); }); }});
  if (K.sprint) v.push_back({"sprint", [&] { char* t = LIB(K.sprint(p)); str s = t ? t : "(NULL)"; if (t) LIBV(sim_free(t)); return s; }});
  if (K.clone) v.push_back({"clone", [&] { void* c = LIB(K.clone(p)); Quiet* q = new Quiet; checkSame(K.walk(c, nullptr), o->tree, "clone-differs", str("clone of ") + K.name); delete q; return freed(o->kind, c); }});
  if (K.equal && K.clone) v.push_back({"equal", [&] { void* c = LIB(K.clone(p)); bool a = LIB(K.equal(p, c)), b = LIB(K.equal(c, p)), s = LIB(K.equal(p, p)); LIBV(K.free_(c)); if (!a || !b || !s) fail("equal-wrong", fmt("%s not equal to its own clone (%d %d %d)", K.name, a, b, s)); return str("equal"); }});
  if (K.nclone) v.push_back({"nclone", [&] { int n = (int)r.below(4); if (o->kind == K_RELATION) n = std::min(n, (int)LIB(osl_relation_nb_components((osl_relation_p)p))); void* c = LIB(K.nclone(p, n)); Node w = walk(o->kind, c); checkSame(w, prefix(o->tree, (size_t)n), "clone-differs", fmt("nclone(%d) of %s", n, K.name)); return freed(o->kind, c); }});
  switch (o->kind) {
    case K_SCOP: {
      osl_scop_p s = (osl_scop_p)p;
      v.push_back({"integrity", [=] { return fmt("%d", LIB(osl_scop_integrity_check(s))); }});
      v.push_back({"names", [=] { osl_names_p n = LIB(osl_scop_names(s)); return freed(K_NAMES, n); }});
      v.push_back({"attributes", [=] { int a = -1, b = -1, c = -1, d = -1, e = -1; LIBV(osl_scop_get_attributes(s, &a, &b, &c, &d, &e)); return fmt("%d %d %d %d %d", a, b, c, d, e); }});
      v.push_back({"number", [=] { return fmt("%zu %d", LIB(osl_scop_number(s)), LIB(osl_scop_get_nb_parameters(s))); }});
      v.push_back({"remove_unions", [=] { osl_scop_p c = LIB(osl_scop_remove_unions(s)); return freed(K_SCOP, c); }});
      v.push_back({"lookup", [=] { str t; for (const char* u : {"arrays", "comment", "scatnames", "nope"}) t += boolText(LIB(osl_generic_lookup(s->extension, u)) != nullptr); return t; }});
      break;
    }
    case K_STATEMENT: {
      osl_statement_p s = (osl_statement_p)p;
      v.push_back({"body", [=] { osl_body_p b = LIB(osl_statement_get_body(s)); Quiet q; return b ? kinds[K_BODY].walk(b, nullptr).text() : str("none"); }});
      v.push_back({"iterators", [=] { return fmt("%d %d", LIB(osl_statement_get_nb_iterators(s)), LIB(osl_statement_number(s))); }});
      v.push_back({"attributes", [=] { int a = -1, b = -1, c = -1, d = -1, e = -1; LIBV(osl_statement_get_attributes(s, &a, &b, &c, &d, &e)); return fmt("%d %d %d %d %d", a, b, c, d, e); }});
      v.push_back({"remove_unions", [=] { osl_statement_p c = LIB(osl_statement_remove_unions(s)); return freed(K_STATEMENT, c); }});
      v.push_back({"integrity", [=] { return fmt("%d", LIB(osl_statement_integrity_check(s, OSL_UNDEFINED))); }});
      break;
    }
    case K_RELATION: {
      osl_relation_p s = (osl_relation_p)p;
      if (s->nb_rows > 0) v.push_back({"expression", [=, &r] { char** na = nameArray(s); int row = (int)r.below((u64)s->nb_rows); char* t = LIB(osl_relation_expression(s, row, na)); str x = t; LIBV(sim_free(t)); dropNames(na, s->nb_columns); return x; }});
      v.push_back({"spprint", [=] { osl_names_p n = LIB(osl_names_generate("P", s->nb_parameters, "i", s->nb_output_dims + s->nb_input_dims, "c", s->nb_output_dims, "l", s->nb_local_dims + 8, "A", 12)); char* t = LIB(osl_relation_spprint(s, n)); str x = t ? t : ""; LIBV(sim_free(t)); LIBV(osl_names_free(n)); return x; }});
      v.push_back({"clone_nconstraints", [=, &r] { int mn = s->nb_rows; for (osl_relation_p q = s; q; q = q->next) mn = std::min(mn, q->nb_rows); int n = (int)r.below((u64)mn + 1); osl_relation_p c = LIB(osl_relation_clone_nconstraints(s, n)); return freed(K_RELATION, c); }});
      v.push_back({"components", [=] { return fmt("%d %d %d", LIB(osl_relation_nb_components(s)), LIB(osl_relation_is_access(s)), s->type >= OSL_TYPE_ACCESS ? LIB(osl_relation_get_array_id(s)) : -1); }});
      v.push_back({"union", [=] { osl_relation_p c = LIB(osl_relation_union(s, s)); return freed(K_RELATION, c); }});
      v.push_back({"concat", [=] { osl_relation_p c = LIB(osl_relation_concat_constraints(s, s)); return freed(K_RELATION, c); }});
      if (s->type == OSL_TYPE_SCATTERING) v.push_back({"extend_output", [=, &r] { int mx = 0; for (osl_relation_p q = s; q; q = q->next) mx = std::max(mx, q->nb_output_dims); osl_relation_p c = LIB(osl_relation_extend_output(s, mx + (int)r.below(3))); return freed(K_RELATION, c); }});
      v.push_back({"attributes", [=] { int a = -1, b = -1, c = -1, d = -1, e = -1; LIBV(osl_relation_get_attributes(s, &a, &b, &c, &d, &e)); return fmt("%d %d %d %d %d", a, b, c, d, e); }});
      break;
    }
    case K_RELLIST: {
      osl_relation_list_p s = (osl_relation_list_p)p;
      v.push_back({"filter", [=, &r] { static const int ty[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_ACCESS}; osl_relation_list_p c = LIB(osl_relation_list_filter(s, ty[r.below(4)])); return freed(K_RELLIST, c); }});
      v.push_back({"count", [=] { return fmt("%zu", LIB(osl_relation_list_count(s))); }});
      v.push_back({"concat", [=] { osl_relation_list_p c = LIB(osl_relation_list_concat(s, s)); return freed(K_RELLIST, c); }});
      if (s && s->elt) v.push_back({"node", [=] { osl_relation_list_p c = LIB(osl_relation_list_node(s->elt)); return freed(K_RELLIST, c); }});
      break;
    }
    case K_STRINGS: {
      osl_strings_p s = (osl_strings_p)p;
      v.push_back({"find", [=, &r] { size_t n = LIB(osl_strings_size(s)); const char* q = n && r.chance(70) ? s->string[r.below(n)] : "nope nope"; return fmt("%zu/%zu", LIB(osl_strings_find(s, q)), n); }});
      break;
    }
    case K_GENERIC: {
      osl_generic_p s = (osl_generic_p)p;
      v.push_back({"lookup", [=] { str t; for (const char* u : {"arrays", "comment", "scatnames", "body", "nope"}) t += boolText(LIB(osl_generic_lookup(s, u)) != nullptr) + boolText(LIB(osl_generic_has_URI(s, u))); return t; }});
      v.push_back({"count", [=] { return fmt("%d %d", LIB(osl_generic_number(s)), LIB(osl_generic_count(s))); }});
      break;
    }
    case K_INTERFACE: {
      osl_interface_p s = (osl_interface_p)p;
      v.push_back({"lookup", [=] { str t; for (const char* u : {"arrays", "comment", "scatnames", "body", "nope"}) { osl_interface_p i = LIB(osl_interface_lookup(s, u)); t += i ? i->URI : "-"; } return t + fmt("%d", LIB(osl_interface_number(s))); }});
      break;
    }
    case K_ARRAYS: {
      osl_arrays_p s = (osl_arrays_p)p;
      v.push_back({"to_strings", [=] { osl_strings_p c = LIB(osl_arrays_to_strings(s)); return freed(K_STRINGS, c); }});
      v.push_back({"index", [=, &r] { int id = (int)r.below(6); return fmt("%zu %zu", LIB(osl_arrays_get_index_from_id(s, id)), LIB(osl_arrays_get_index_from_name(s, s->nb_names ? s->names[0] : "x"))); }});
      break;
    }
    case K_DEPENDENCE: v.push_back({"count", [=] { return fmt("%d", LIB(osl_nb_dependences((osl_dependence_p)p))); }}); break;
    case K_LOOP: v.push_back({"count", [=] { return fmt("%d", LIB(osl_loop_count((osl_loop_p)p))); }}); break;
    case K_SYMBOLS: v.push_back({"count", [=] { return fmt("%d", LIB(osl_symbols_get_nb_symbols((osl_symbols_p)p))); }}); break;
    case K_REGION: v.push_back({"count", [=] { return fmt("%zu", LIB(osl_region_count((osl_region_t*)p))); }}); break;
    case K_VECTOR: {
      osl_vector_p s = (osl_vector_p)p;
      bool room = s->precision == OSL_PRECISION_MP;
      if (!room) { room = true; Quiet q; for (int i = 0; i < s->size; i++) if (!decSmall(coefText(s->precision, s->v[i]))) room = false; }
      if (room) {
      v.push_back({"add", [=] { osl_vector_p c = LIB(osl_vector_add(s, s)); return freed(K_VECTOR, c); }});
      v.push_back({"sub", [=] { osl_vector_p c = LIB(osl_vector_sub(s, s)); return freed(K_VECTOR, c); }});
      if (s->size >= 2) v.push_back({"add_scalar", [=] { osl_vector_p c = LIB(osl_vector_add_scalar(s, 3)); return freed(K_VECTOR, c); }});
      v.push_back({"mul_scalar", [=] { osl_vector_p c = LIB(osl_vector_mul_scalar(s, 2)); return freed(K_VECTOR, c); }});
      }
      v.push_back({"is_scalar", [=] { return fmt("%d %d", LIB(osl_vector_is_scalar(s)), LIB(osl_vector_equal(s, s))); }});
      v.push_back({"from", [=] { osl_relation_p c = LIB(osl_relation_from_vector(s)); return freed(K_RELATION, c); }});
      break;
    }
    default: break;
  }
  }
  if (!o->odd) moreReads(o, r, v);
  if (v.empty()) return "";
  auto& f = v[(size_t)which % v.size()];
  cover.ops[str("ro-") + K.name + "-" + f.first]++;
  str s = f.second();
  return f.first + ":" + s;
}

// ------------------------------------------------------------- channels ----
static long mk(const char* base, long n) { return rc->plan->knob(fmt("%s%ld", base, n).c_str(), -1); }
static void addFaults(Stream* s, const char* dir, long ch) {
  for (auto& f : rc->plan->faults)
    if (f.kind == dir && f.get("ch") == ch) { IoFault x; x.kind = (int)f.get("kind", 1); x.at = f.get("at", -1); x.sticky = f.get("sticky", 1) != 0; s->faults.push_back(x); }
}
static int bufOf(long b) { return b < 0 ? -1 : (int)b; }
static void opWopen(const OpLine& o) {
  long k = o.get("ch");
  ChanState& cs = rc->ch[(int)k];
  if (cs.opened) return;
  std::unique_ptr<Stream> s(new Stream());
  s->write = true; s->chunk = (int)o.get("chunk", 0); s->latency = (u64)o.get("lat", 0);
  if (mk("cht", k) == 1) { cs.ino = std::make_shared<Inode>(); s->ino = cs.ino.get(); }
  else { world.chans.emplace_back(new Chan()); cs.pipe = world.chans.back().get(); long c = mk("cap", k); if (c > 0) cs.pipe->cap = (size_t)c; s->chan = cs.pipe; }
  addFaults(s.get(), "write", k);
  cs.opened = true; cs.writer = cur->id;
  Stream* q = s.get();
  me().w[(int)k] = openStream(std::move(s), bufOf(o.get("buf", -1)));
  me().ws[(int)k] = q;
}
static const str& written(ChanState& cs) { return cs.pipe ? cs.pipe->all : cs.ino->data; }
static void opPut(const OpLine& o) {
  long k = o.get("ch");
  if (!me().w.count((int)k)) return;
  FILE* f = me().w[(int)k];
  if (rc->ch[(int)k].wfailed) return;  // a client stops sending once a write has failed
  Obj* b = pick(o.get("sel"), (int)o.get("kind", -1));
  if (!b || !b->p || !kinds[b->kind].print || b->odd) return;
  ChanState& cs = rc->ch[(int)k];
  ConstArg ca(b);
  Expect e; e.kind = b->kind; e.tree = b->tree; e.rec = b->rec; e.client = cur->id; e.count = itemCount(b->kind, b->p);
  { Quiet q; e.text = withFile([&](FILE* m) { kinds[b->kind].print(m, b->p); }); }
  e.start = cs.expected.size();
  bool deco = o.get("deco") && (b->kind == K_SCOP || b->kind == K_STATEMENT || b->kind == K_RELATION || b->kind == K_RELLIST || b->kind == K_STRINGS || b->kind == K_GENERIC);
  e.wire = deco ? decorate(e.text, (u64)o.get("deco"), b->kind) : e.text;
  cs.expected += e.wire;
  cs.sent.push_back(e);
  if (deco) { fwrite(e.wire.data(), 1, e.wire.size(), f); cover.probes["written by hand"]++; }
  else printObj(b->kind, f, b->p);
  checkUnchanged(b, "print-changed", "object printed to a channel");
  bool bad = ferror(f) != 0;
  if (o.get("flush")) {
    bad |= fflush(f) != 0;
    if (!bad && me().ws[(int)k]->fired == 0 && !(cs.pipe && cs.pipe->rclosed)) {
      rc->checks++;
      if (written(cs) != cs.expected) fail("stream-bytes", fmt("after a successful flush the stream holds %zu bytes, %zu were printed", written(cs).size(), cs.expected.size()));
    }
  }
  if (me().ws[(int)k]->fired && o.get("flush") && !bad && !ferror(f)) fail("write-error-hidden", "a write failed but neither flush nor ferror tells");
  if (bad) cs.wfailed = true;
  say(fmt("put %s %zu bytes%s", kinds[b->kind].name, e.text.size(), bad ? " (failed)" : ""));
}
static void closeW(int k) {
  FILE* f = me().w[k]; me().w.erase(k);
  ChanState& cs = rc->ch[k];
  Stream* s = me().ws[k];
  bool bad = ferror(f) != 0;
  bool readerGone = cs.pipe && cs.pipe->rclosed;
  bad |= simClose(f) != 0;
  if (s->fired && !bad && !readerGone) fail("write-error-hidden", "a write failed but neither close nor ferror tells");
  if (bad || s->fired) { cs.wfailed = true; }
  else if (!readerGone && !(cs.pipe && cs.pipe->rclosed)) {
    rc->checks++;
    if (written(cs) != cs.expected) fail("stream-bytes", fmt("after closing, the stream holds %zu bytes, %zu were printed", written(cs).size(), cs.expected.size()));
  }
  cs.wclosed = true;
}
static bool writerGone(ChanState& cs) {
  if (cs.wclosed) return true;
  if (cs.writer < 0) return false;
  int st = client(cs.writer)->state;
  return st == DONE || st == EXITED || st == CRASHED;
}
static bool writerBad(ChanState& cs) {
  if (cs.wfailed) return true;
  if (cs.wclosed || cs.writer < 0) return false;
  int st = client(cs.writer)->state;
  return st == EXITED || st == CRASHED;
}
static bool channelWriterFuture(long k, int self) {  // may someone still open this channel?
  for (int i = 0; i < nClients(); i++) {
    int st = client(i)->state;
    if (i == self || st == DONE || st == EXITED || st == CRASHED) continue;
    for (auto& o : rc->plan->ops) if (o.client == i && o.name == "wopen" && o.get("ch") == k) return true;
  }
  return false;
}
static bool opRopen(const OpLine& o) {
  long k = o.get("ch");
  ChanState& cs = rc->ch[(int)k];
  if (me().r.count((int)k)) return true;
  bool file = mk("cht", k) == 1;
  int self = cur->id;
  blockUntil([&cs, k, file, self] { return (file ? (cs.opened && writerGone(cs)) : cs.opened) || !channelWriterFuture(k, self); }, "open");
  if (!cs.opened) return false;
  std::unique_ptr<Stream> s(new Stream());
  s->chunk = (int)o.get("chunk", 0); s->latency = (u64)o.get("lat", 0);
  if (cs.ino) s->ino = cs.ino.get(); else s->chan = cs.pipe;
  addFaults(s.get(), "read", k);
  Stream* q = s.get();
  me().r[(int)k] = openStream(std::move(s), bufOf(o.get("buf", -1)));
  me().rs[(int)k] = q;
  return true;
}
static bool readDamaged(int k) {
  ChanState& cs = rc->ch[k];
  Stream* s = me().rs.count(k) ? me().rs[k] : nullptr;
  return (s && s->fired) || writerBad(cs);
}
// a lost write left a hole: what is on the channel is not the beginning of what was printed
static bool holed(ChanState& cs) {
  const str& w = written(cs);
  return w.size() > cs.expected.size() || cs.expected.compare(0, w.size(), w) != 0;
}
static void verifyRead(int kind, void* p, const Expect& e, int prec, long mask, const str& errs, bool complete) {
  const Kind& K = kinds[kind];
  std::set<str> skipped;
  Node want = filterURIs(forPrecision(e.tree, prec), mask, &skipped);
  Node got = walk(kind, p);
  checkSame(got, want, "read-differs", fmt("%s read back (precision %d)", K.name, prec));
  say(fmt("get %s %016llx", K.name, (unsigned long long)got.hash()));
  Obj* o = newObj(kind, p, got);
  for (auto& u : skipped) {
    rc->checks++;
    if (complete && errs.find("\"" + u + "\"") == str::npos) fail("skip-silent", "extension \"" + u + "\" was ignored without a warning naming it: " + shortText(errs));
  }
  if (mask >= 0 && skipped.empty() && errs.find("unknown URI") != str::npos) fail("skip-wrong", "a known extension was reported as unknown: " + shortText(errs));
  if (e.rec.valid && skipped.empty()) {
    if (e.rec.prec == prec) { o->rec = e.rec; }
    if (K.equal && e.rec.prec == prec && (mask < 0 || kind != K_SCOP)) {  // scops also compare their registries
      Quiet q;
      void* twin = buildObj(kind, e.rec);
      rc->checks++;
      if (!K.equal(twin, p) || !K.equal(p, twin)) fail("equal-wrong", fmt("%s read back is not reported equal to the original", K.name));
      if (kind == K_SCOP && osl_scop_integrity_check((osl_scop_p)twin) != osl_scop_integrity_check((osl_scop_p)p)) fail("integrity-differs", "integrity verdict differs after reading");
      K.free_(twin);
    }
  }
  if (skipped.empty() && !e.text.empty() && K.print) {
    str again = printText(kind, p);
    rc->checks++;
    if (again != e.text) {
      size_t i = 0; while (i < again.size() && i < e.text.size() && again[i] == e.text[i]) i++;
      size_t a = i > 40 ? i - 40 : 0;
      fail("reprint-differs", fmt("text printed again differs at byte %zu: '%s' vs '%s'", i, shortText(again.substr(a, 80)).c_str(), shortText(e.text.substr(a, 80)).c_str()));
    }
  }
}
static void opGet(const OpLine& o) {
  long k = o.get("ch");
  if (!me().r.count((int)k)) { if (!opRopen(o)) return; }
  FILE* f = me().r[(int)k];
  ChanState& cs = rc->ch[(int)k];
  int kind = (int)o.get("kind");
  int prec = myPrec();
  long mask = mk("reg", cur->id);
  int count = 1;
  if (kind != K_SCOP) {
    if (cs.pipe) cs.pipe->slack = true;
    blockUntil([&cs] { return cs.next < cs.sent.size() || writerGone(cs); }, "next object announced");
    if (cs.pipe) cs.pipe->slack = false;
    if (cs.next < cs.sent.size()) count = cs.sent[cs.next].count;
    if (cs.next >= cs.sent.size() || cs.sent[cs.next].kind != kind) return;  // nothing (of this kind) was sent
  }
  size_t mark = cur->res.err.size();
  if (me().rdead.count((int)k)) return;
  me().readingChan = (int)k;
  void* p = readObj(kind, f, prec, mask, count);
  me().readingChan = -1;
  str errs = cur->res.err.substr(mark);
  bool damaged = readDamaged((int)k);
  bool hole = holed(cs);
  me().exitOk = false;
  Expect e;
  if (kind == K_SCOP) {
    e.kind = K_SCOP; e.tree = Node("scops"); e.rec.valid = false;
    size_t n = 0;
    for (; cs.next < cs.sent.size(); cs.next++, n++) {
      Expect& x = cs.sent[cs.next];
      if (x.kind != K_SCOP) break;
      for (auto& c : x.tree.k) e.tree.add(c);
      if (n == 0) { e.rec = x.rec; e.text = x.text; e.start = x.start; }
      else { e.rec.valid = false; e.text.clear(); }
    }
  } else { e = cs.sent[cs.next]; cs.next++; }
  if (!damaged) { verifyRead(kind, p, e, prec, mask, errs, true); return; }
  if (feof(f) || ferror(f)) me().rdead.insert((int)k);
  if (hole) {
    me().rdead.insert((int)k);
    { Quiet q; walk(kind, p); }
    say(fmt("get %s from a damaged stream", kinds[kind].name));
    LIBV(kinds[kind].free_(p));
    return;
  }
  // The input was cut or failed: only exactly the complete leading objects.
  Quiet* q = new Quiet;
  Node got = walk(kind, p);
  size_t arrived = me().rs[(int)k]->pos;
  const Kind& K = kinds[kind];
  Node want = filterURIs(forPrecision(e.tree, prec), mask, nullptr);
  rc->checks++;
  cover.probes["damaged-read-returned"]++;
  if (kind == K_SCOP) {
    size_t whole = countNeedle(cs.expected, "</OpenScop>", arrived);
    size_t before = countNeedle(cs.expected, "</OpenScop>", e.start);
    size_t n = whole > before ? whole - before : 0;
    Node pre = prefix(want, n);
    if (!same(got, pre)) fail("cut-accepted", fmt("input ended after %zu bytes (%zu complete scops) but the reader returned: ", arrived, n) + diff(got, pre));
  } else {
    size_t ls, le; lastData(e.wire, &ls, &le);
    size_t off = arrived > e.start ? arrived - e.start : 0;
    bool empty = got.k.empty() || p == nullptr;
    if (kind == K_STATEMENT || kind == K_GENERIC) { ls = le; }  // they end with a count or an end tag
    if (le == 0) {}
    else if (off >= le) { if (!same(got, want)) fail("cut-accepted", "complete object arrived but differs: " + diff(got, want)); }
    else if (off <= ls) {
      if (!empty && !same(got, want)) {
        bool lead = (kind == K_GENERIC || kind == K_STATEMENT) && same(got, prefix(want, got.k.size()));
        if (!lead) fail("cut-accepted", fmt("%s cut after %zu of %zu bytes was returned as: ", K.name, off, e.text.size()) + diff(got, want));
      }
    }
  }
  delete q;
  say(fmt("get %s damaged %016llx", K.name, (unsigned long long)got.hash()));
  LIBV(K.free_(p));
}

// ------------------------------------------------------- string relay ----
static void opSxfer(const OpLine& o) {
  Obj* b = pick(o.get("sel"), (int)o.get("kind", -1));
  if (!b || b->odd) return;
  const Kind& K = kinds[b->kind];
  if (!K.sprint || !K.sread || !b->p) return;
  ConstArg ca(b);
  int prec = myPrec();
  Node want = forPrecision(b->tree, prec);
  // relations also travel without their type, in the PolyLib format
  bool poly = b->kind == K_RELATION && ((osl_relation_p)b->p)->nb_columns > 0 && decide("sxfervariant", 3) == 0;
  if (poly) {
    std::function<void(Node&)> f = [&](Node& x) { if (x.tag == "type") x.val = fmt("%d", OSL_UNDEFINED); for (auto& c : x.k) f(c); };
    f(want);
  }
  bool byFile = !poly && K.print && decide("sxferprint", 4) == 0;
  auto sprint = [&](void* p) -> char* { if (byFile) { str x = withFile([&](FILE* f) { LIBV(K.print(f, p)); }); Quiet q; return dupz(x); } return poly ? LIB(osl_relation_spprint_polylib((osl_relation_p)p, nullptr)) : LIB(K.sprint(p)); };
  char* t = sprint(b->p);
  checkUnchanged(b, "print-changed", fmt("%s after sprint", K.name));
  if (!t) { say(fmt("sxfer %s: no text", K.name)); return; }
  str text = t;
  LIBV(sim_free(t));
  int n = selfDelimited(b->kind) ? 1 + (int)o.get("n", 0) : 1;
  str all;
  for (int i = 0; i < n; i++) all += o.get("deco") ? decorate(text, (u64)o.get("deco") + (u64)i, b->kind, true) : text;
  if (o.get("deco")) cover.probes["written by hand"]++;
  if (o.get("trim") && b->kind != K_CLAY && b->kind != K_COMMENT) while (!all.empty() && all.back() == '\n') all.pop_back();
  bool one = b->kind == K_GENERIC && o.get("one");
  char* buf = (char*)malloc(all.size() + 1);
  memcpy(buf, all.c_str(), all.size() + 1);
  char* q = buf;
  for (int i = 0; i < n; i++) {
    void* r;
    if (one) {
      osl_interface_p reg = mkRegistry(-1, 0);
      osl_generic_p h = nullptr;
      int cnt = itemCount(K_GENERIC, b->p);
      for (int j = 0; j < cnt; j++) { osl_generic_p s = LIB(osl_generic_sread_one(&q, reg)); LIBV(osl_generic_add(&h, s)); }
      LIBV(osl_interface_free(reg));
      r = h;
    } else if (poly) r = decide("sxferread", 2) ? LIB(osl_relation_psread_polylib(&q, prec)) : LIB(osl_relation_sread_polylib(&q));
    else if (b->kind == K_RELATION && decide("sxferread", 2)) r = LIB(osl_relation_psread(&q, prec));
    else if (b->kind == K_DEPENDENCE && decide("sxferread", 2)) r = LIB(osl_dependence_psread(&q, prec));
    else r = LIB(K.sread(&q));
    Node got = walk(b->kind, r);
    checkSame(got, want, "read-differs", fmt("%s read from string (object %d of %d)", K.name, i + 1, n));
    rc->checks++;
    if (q < buf || q > buf + all.size()) fail("pointer-wrong", fmt("%s: input pointer left outside the text", K.name));
    if (K.equal) {
      bool samePrec = same(want, b->tree);
      if (samePrec && (!LIB(K.equal(b->p, r)) || !LIB(K.equal(r, b->p)))) fail("equal-wrong", fmt("%s read from string is not equal to the original", K.name));
    }
    char* t2 = sprint(r);
    if (!poly && (!t2 || text != t2)) { size_t d = 0; while (t2 && d < text.size() && t2[d] == text[d]) d++; size_t a = d > 30 ? d - 30 : 0; fail("reprint-differs", fmt("%s printed again differs: '%s' vs '%s'", K.name, t2 ? shortText(str(t2).substr(std::min(a, strlen(t2)), 60)).c_str() : "(NULL)", shortText(text.substr(a, 60)).c_str())); }
    if (poly) sameText(dataOnly(t2), dataOnly(text), "reprint-differs", "relation in PolyLib format printed again");
    LIBV(sim_free(t2));
    say(fmt("sxfer %s %016llx", K.name, (unsigned long long)got.hash()));
    LIBV(K.free_(r));
  }
  if (selfDelimited(b->kind))
    for (char* z = q; z < buf + all.size(); z++) if (*z == '#') { while (z < buf + all.size() && *z != '\n') z++; } else if (!isspace((unsigned char)*z)) fail("pointer-wrong", fmt("%s: data left unread after the last object: '%s'", K.name, shortText(z).c_str()));
  free(buf);
}

// ----------------------------------------------------- corrupted input ----
static const char* garbledNumbers[] = {"0", "-1", "-2", "3", "17", "2147483647", "-2147483648", "999999999999999999999", "65536", "1000000", "-", "x", "",
  "65535", "46341", "32768", "131072", "1073741824", "536870912", "268435456", "16777216", "4294967295", "4294967296", "4294967297", "2147483648", "-65536", "-46341", "8589934592", "9223372036854775807", "18446744073709551615", "715827883", "1", "2"};
static str corrupt(const str& text, u64 seed, int n, str* log) {
  str s = text;
  for (int i = 0; i < n; i++) {
    Rng r(H(seed, (u64)i, 41));
    size_t L = s.size();
    if (L == 0) break;
    size_t at = r.below(L);
    switch (r.below(16)) {
      case 0: s[at] = (char)(s[at] ^ (1 << r.below(8))); *log += " flip"; stats.faults["bit-flip"]++; break;
      case 1: { size_t m = 1 + r.below(8); s.erase(at, m); *log += " drop"; stats.faults["byte-loss"]++; break; }
      case 2: { size_t m = 1 + r.below(60); s.insert(at, s.substr(at, m)); *log += " dup"; stats.faults["byte-duplication"]++; break; }
      case 3: { size_t b = r.below(L), m = 1 + r.below(40); str c = s.substr(b, m); s.erase(b, m); s.insert(std::min(at, s.size()), c); *log += " reorder"; stats.faults["reordering"]++; break; }
      case 4: s.resize(at); *log += " cut"; stats.faults["truncation"]++; break;
      case 5: {  // a number becomes another one
        size_t d = at; while (d < L && !isdigit((unsigned char)s[d])) d++;
        size_t e = d; while (e < L && isdigit((unsigned char)s[e])) e++;
        if (e > d) s.replace(d, e - d, garbledNumbers[r.below(33)]);
        *log += " number"; stats.faults["number-garbled"]++; break;
      }
      case 6: {  // a whole line lost or doubled
        size_t a = s.rfind('\n', at); a = a == str::npos ? 0 : a + 1;
        size_t e = s.find('\n', at); e = e == str::npos ? L : e + 1;
        if (r.chance(50)) s.erase(a, e - a); else s.insert(a, s.substr(a, e - a));
        *log += " line"; stats.faults["line-loss-or-duplication"]++; break;
      }
      case 7: { size_t m = 1 + r.below(r.chance(50) ? 20 : 6000); static const char cs[] = "a1 -\n#</>,\t0"; str c; char one = cs[r.below(12)]; for (size_t q = 0; q < m; q++) c += r.chance(80) ? one : (char)(1 + r.below(255)); s.insert(at, c); *log += " noise"; stats.faults["noise-inserted"]++; break; }
      case 8: {  // a tag damaged
        size_t a = s.find('<', at); if (a == str::npos) a = s.find('<');
        if (a != str::npos) { if (r.chance(40)) s.erase(a, 1); else if (r.chance(50)) s.insert(a + 1, "/"); else { size_t e = s.find('>', a); if (e != str::npos) s.erase(e, 1); } }
        *log += " tag"; stats.faults["tag-garbled"]++; break;
      }
      case 9: s[at] = (char)r.below(256); *log += " byte"; stats.faults["byte-garbled"]++; break;
      case 10: { size_t a = s.find('\n', at); if (a != str::npos) s[a] = r.chance(50) ? ' ' : '#'; *log += " newline"; stats.faults["newline-lost"]++; break; }
      case 11: {  // the numbers of a whole line become others (sizes are products of such numbers)
        size_t a = s.rfind('\n', at); a = a == str::npos ? 0 : a + 1;
        size_t e = s.find('\n', at); if (e == str::npos) e = L;
        str line = s.substr(a, e - a), out; const char* same = r.chance(60) ? garbledNumbers[r.below(33)] : nullptr;
        int most = 1 + (int)r.below(6), done = 0;
        for (size_t q = 0; q < line.size();) {
          if (isdigit((unsigned char)line[q]) && done < most) { size_t z = q; while (z < line.size() && isdigit((unsigned char)line[z])) z++; out += same ? same : garbledNumbers[r.below(33)]; q = z; done++; }
          else out += line[q++];
        }
        s.replace(a, e - a, out);
        *log += " numbers"; stats.faults["number-garbled"]++; break;
      }
      case 15: {  // the announced sizes of a relation
        static const char* types[] = {"DOMAIN\n", "CONTEXT\n", "SCATTERING\n", "READ\n", "WRITE\n", "MAY_WRITE\n", "UNDEFINED\n"};
        static const char* pairs[][2] = {{"65536", "65536"}, {"65536", "65537"}, {"32768", "131072"}, {"46341", "46341"}, {"65536", "32768"}, {"1073741824", "4"}, {"4", "1073741824"}, {"536870912", "8"}, {"2", "2147483647"},
          {"2147483647", "2147483647"}, {"1", "2147483647"}, {"2147483647", "1"}, {"131072", "65536"}, {"268435457", "16"}, {"16", "268435457"}, {"0", "2147483647"}, {"2147483647", "0"}, {"-1", "-1"}, {"-65536", "65536"}, {"65536", "-65536"}};
        size_t p = str::npos;
        for (const char* t : types) { size_t q = s.find(t, at); if (q == str::npos) q = s.find(t); if (q != str::npos && (p == str::npos || r.chance(50))) p = q + strlen(t); }
        if (p != str::npos) {
          auto num = [&](size_t from, size_t& b, size_t& e) { b = from; while (b < s.size() && !isdigit((unsigned char)s[b])) b = s[b] == '#' ? std::min(s.find('\n', b), s.size()) : b + 1; e = b; while (e < s.size() && isdigit((unsigned char)s[e])) e++; };
          size_t b, e; auto& q = pairs[r.below(20)];
          num(p, b, e); if (e < s.size() && s[e] == '\n') num(e, b, e);  // the number of parts comes first
          s.replace(b, e - b, q[0]); num(b + strlen(q[0]), b, e); s.replace(b, e - b, q[1]);
        }
        *log += " sizes"; stats.faults["number-garbled"]++; break;
      }
      case 12: {  // a word takes the place of another
        auto word = [&](size_t from, size_t& b, size_t& e) { b = from; while (b < L && isspace((unsigned char)s[b])) b++; e = b; while (e < L && !isspace((unsigned char)s[e])) e++; };
        size_t b1, e1, b2, e2; word(at, b1, e1); word(r.below(L), b2, e2);
        str w = s.substr(b2, e2 - b2);
        s.replace(b1, e1 - b1, w);
        *log += " word"; stats.faults["word-misplaced"]++; break;
      }
      case 13: {  // lines out of order
        auto line = [&](size_t from, size_t& b, size_t& e) { b = s.rfind('\n', from); b = b == str::npos ? 0 : b + 1; e = s.find('\n', from); e = e == str::npos ? L : e + 1; };
        size_t b1, e1, b2, e2; line(at, b1, e1); line(r.below(L), b2, e2);
        if (b2 < b1) { std::swap(b1, b2); std::swap(e1, e2); }
        if (b1 != b2) { str x = s.substr(b1, e1 - b1), y = s.substr(b2, e2 - b2); s.replace(b2, e2 - b2, x); s.replace(b1, e1 - b1, y); }
        *log += " swap"; stats.faults["reordering"]++; break;
      }
      case 14: {  // a long word, line or comment
        str c(1 + r.below(r.chance(50) ? 200 : 9000), "a1#-/<("[r.below(7)]); s.insert(at, c);
        *log += " long"; stats.faults["noise-inserted"]++; break;
      }
    }
  }
  return s;
}
static bool claimsManyRows(const Node& n) {
  if (n.tag == "rows" && atol(n.val.c_str()) > 20000) return true;
  for (auto& k : n.k) if (claimsManyRows(k)) return true;
  return false;
}
// Text announcing a matrix of very many empty rows: reading it is only slow.
static bool announcesManyRows(const str& t) {
  for (size_t i = 0; i < t.size(); i++) {
    if (i && !isspace((unsigned char)t[i - 1])) continue;
    if (!isdigit((unsigned char)t[i])) continue;
    int a = 0, b = 1;
    if (sscanf(t.substr(i, 80).c_str(), "%d %d", &a, &b) == 2 && a > 20000 && b == 0) return true;
  }
  return false;
}
static void opCread(const OpLine& o) {
  int kind = (int)o.get("kind");
  const Kind& K = kinds[kind];
  Recipe rec; rec.os = (u64)o.get("os"); rec.size = (int)o.get("size", 2); rec.prec = myPrec(); rec.mag = (int)o.get("mag", 3);
  str text;
  bool viaString = o.get("via") || !K.print;
  if (viaString && (!K.sread || !K.sprint)) return;
  {
    void* p = buildObj(kind, rec);
    Quiet q;
    if (viaString) { char* t = K.sprint(p); text = t ? t : ""; sim_free(t); }
    else text = withFile([&](FILE* f) { K.print(f, p); });
    K.free_(p);
  }
  str log;
  str bad = corrupt(text, (u64)o.get("cs"), (int)o.get("cn", 1), &log);
  int count = 1;
  if (announcesManyRows(bad)) { say("cread skipped"); return; }
  me().exitOk = true;
  me().exitWhy = "corrupted input";
  void* r = nullptr;
  if (viaString) {
    size_t z = bad.find('\0'); if (z != str::npos) bad.resize(z);
    char* buf = (char*)malloc(bad.size() + 1);
    memcpy(buf, bad.c_str(), bad.size() + 1);
    char* q = buf;
    r = LIB(K.sread(&q));
    free(buf);
  } else {
    if (kind == K_BODY) return;
    FILE* f = memReader(bad, (int)o.get("chunk", 0), bufOf(o.get("buf", -1)));
    r = readObj(kind, f, rec.prec, mk("reg", cur->id), count);
    simClose(f);
  }
  me().exitOk = false;
  cover.probes["corrupt-accepted"]++;
  cover.probes["corrupt-total"]++;
  // What came back must be safe to use.
  void* c = K.clone ? LIB(K.clone(r)) : nullptr;
  if (K.equal && K.clone) LIB(K.equal(r, c));
  Node w = walk(kind, r);
  if (K.idump && r) { LIB(withFile([&](FILE* f) { K.idump(f, r, 0); })); }
  // (a matrix of no column may claim millions of rows: its text is as long, and slow to build)
  bool printable = !claimsManyRows(w);
  if (K.print && r && printable) { LIB(withFile([&](FILE* f) { K.print(f, r); })); }
  if (K.sprint && r && printable) { char* t = LIB(K.sprint(r)); sim_free(t); }
  if (c) LIBV(K.free_(c));
  LIBV(K.free_(r));
  say(fmt("cread %s accepted %016llx", K.name, (unsigned long long)w.hash()));
}

// --------------------------------------------------------- persistence ----
static void opSave(const OpLine& o) {
  Obj* b = pick(o.get("sel"), (int)o.get("kind", K_SCOP));
  if (!b || !kinds[b->kind].print || b->odd) return;
  long ch = o.get("ch", 0);
  str path = fmt(o.get("inplace") ? "raw%ld" : "doc%ld", o.get("path", 0)), tmp = o.get("inplace") ? path : path + ".tmp";
  ConstArg ca(b);
  str text;
  { Quiet q; text = withFile([&](FILE* m) { kinds[b->kind].print(m, b->p); }); }
  std::unique_ptr<Stream> s(new Stream());
  s->write = true; s->chunk = (int)o.get("chunk", 0); s->latency = (u64)o.get("lat", 0);
  auto ino = std::make_shared<Inode>();
  world.files[tmp] = ino;
  s->ino = ino.get();
  addFaults(s.get(), "write", ch);
  Stream* st = s.get();
  rc->docTree[text] = b->tree;
  rc->saveBytes[(int)ch] = text.size();
  if (!o.get("inplace")) rc->docs[path].push_back(text);
  FILE* f = openStream(std::move(s), bufOf(o.get("buf", -1)));
  bool ok = true;
  { Arm a;  // a crash may hit anywhere in here
    kinds[b->kind].print(f, b->p);
    yieldPoint(Y_OP);
    if (ferror(f)) ok = false;
    if (fflush(f) != 0) ok = false;
    if (ferror(f)) ok = false;
    yieldPoint(Y_OP);
  }
  checkUnchanged(b, "print-changed", "object saved");
  bool fired = st->fired > 0;
  rc->checks++;
  if (ok && fired) fail("write-error-hidden", "a write failed but ferror and fflush report success");
  if (ok && ino->data != text) fail("save-incomplete", fmt("flush succeeded but the file holds %zu of %zu bytes", ino->data.size(), text.size()));
  if (ok) { Arm a; fsyncInode(ino.get()); yieldPoint(Y_OP); }
  if (simClose(f) != 0) ok = false;
  if (fired && ok) fail("write-error-hidden", "a write failed but close reports success");
  if (ok && !o.get("inplace")) {
    Arm a;
    diskRename(tmp, path); yieldPoint(Y_OP);
    world.durableNames[path] = ino; yieldPoint(Y_OP);  // directory synchronised: acknowledged
    rc->docs[path] = {text};
  }
  say(fmt("save %s", ok ? "ok" : "failed"));
  cover.probes[ok ? "save-ok" : "save-failed"]++;
  if (!ok) {  // can be printed again elsewhere
    str again = printText(b->kind, b->p);
    rc->checks++;
    if (again != text) fail("reprint-differs", "after a failed save the object prints differently");
  }
}
static void opRecover(const OpLine& o) {
  int who = (int)o.get("after", 0);
  if (who == cur->id || who >= nClients()) return;
  blockUntil([who] { int st = client(who)->state; return st == DONE || st == EXITED || st == CRASHED; }, "peer end");
  bool power = o.get("power", 1) != 0;
  if (power) {
    u64 sd = H(rc->plan->seed, 71);
    diskCrash(sd);
    // a rename that was not synchronised may or may not have survived
    auto old = world.files;
    for (auto& kv : old) {
      auto d = world.durableNames.find(kv.first);
      bool durable = d != world.durableNames.end() && d->second == kv.second;
      if (!durable && H(sd, 72) % 2) { if (d != world.durableNames.end()) world.files[kv.first] = d->second; else world.files.erase(kv.first); stats.faults["lost-rename"]++; }
    }
    stats.faults["power-loss"]++;
  }
  for (auto& d : rc->docs) {
    auto it = world.files.find(d.first);
    bool acked = world.durableNames.count(d.first) != 0;
    rc->checks++;
    if (it == world.files.end()) { if (acked) fail("lost-document", "an acknowledged document disappeared"); say("recover: none"); continue; }
    const str& data = it->second->data;
    int which = -1;
    for (size_t i = 0; i < d.second.size(); i++) if (d.second[i] == data) which = (int)i;
    if (which < 0) fail("torn-document", fmt("after recovery %s holds %zu bytes that are none of the %zu documents saved there", d.first.c_str(), data.size(), d.second.size()));
    std::unique_ptr<Stream> s(new Stream()); s->ino = it->second.get(); s->chunk = (int)o.get("chunk", 0);
    FILE* f = openStream(std::move(s), bufOf(o.get("buf", -1)));
    Expect e; e.kind = K_SCOP; e.text = e.wire = data; e.tree = rc->docTree[data];
    void* p = readObj(K_SCOP, f, myPrec(), -1, 1);
    simClose(f);
    verifyRead(K_SCOP, p, e, myPrec(), -1, "", false);
    say("recover: ok");
    cover.probes["recovered"]++;
  }
}

// ------------------------------------------------------------ simple ops ----
static Recipe recipe(const OpLine& o) {
  Recipe r; r.os = (u64)o.get("os"); r.size = (int)o.get("size", 2); r.prec = o.a.count("prec") ? (int)o.get("prec") : myPrec();
  r.mag = (int)o.get("mag", 3); r.plain = o.get("plain") != 0; r.exts = o.get("exts", -1); r.valid = true;
  return r;
}
static void opNew(const OpLine& o) {
  int kind = (int)o.get("kind");
  Recipe r = recipe(o);
  void* p = buildObj(kind, r);
  Obj* b = newObj(kind, p, walk(kind, p));
  b->rec = r;
  cover.cases.insert(b->tree.hash());
  say(fmt("new %s %016llx", kinds[kind].name, (unsigned long long)b->tree.hash()));
}
void checkOthers(Obj* changed, const char* cls, const str& what) {
  for (auto& o : me().objs) if (&o != changed) checkUnchanged(&o, cls, what + fmt(" (object %d)", o.id));
}
static void disjoint(Obj* a, Obj* b) {
  Quiet q;
  auto ra = reach(a->p, 0), rb = reach(b->p, 0);
  rc->checks++;
  for (void* x : rb) if (ra.count(x)) {
    Block* bl = heapFind(x);
    fail("shared-memory", fmt("%s: clone and original share a block of %zu bytes allocated in %s", kinds[a->kind].name, bl ? bl->size : 0, bl ? symName(bl->ra).c_str() : "?"));
  }
}
static void opClone(const OpLine& o, bool limited) {
  Obj* b = pick(o.get("sel"), (int)o.get("kind", -1));
  if (!b) return;
  const Kind& K = kinds[b->kind];
  void* c;
  Node want = b->tree;
  {
    ConstArg ca(b);
    if (limited) {
      if (!K.nclone) return;
      int n = (int)o.get("n", 1);
      if (b->kind == K_RELATION) n = std::min(n, (int)LIB(osl_relation_nb_components((osl_relation_p)b->p)));
      c = LIB(K.nclone(b->p, n));
      want = n < 0 ? b->tree : prefix(b->tree, (size_t)n);
    } else {
      if (!K.clone) return;
      c = LIB(K.clone(b->p));
    }
  }
  checkUnchanged(b, "clone-changed-original", fmt("%s after being cloned", K.name));
  Node got = walk(b->kind, c);
  checkSame(got, want, "clone-differs", fmt("%sclone of %s", limited ? "limited " : "", K.name));
  say(fmt("clone %s %016llx", K.name, (unsigned long long)got.hash()));
  Obj* n = newObj(b->kind, c, got);
  if (!limited) n->rec = b->rec;
  n->odd = b->odd; n->edited = b->edited;
  disjoint(b, n);
  if (K.equal && !limited) {
    ConstArg ca(b), cb(n);
    rc->checks++;
    if (!LIB(K.equal(b->p, c)) || !LIB(K.equal(c, b->p))) fail("equal-wrong", fmt("clone of %s is not equal to it", K.name));
  }
}
static void opMutate(const OpLine& o) {
  Obj* b = pick(o.get("sel"), (int)o.get("kind", -1));
  if (!b || !b->p) return;
  Quiet* q = new Quiet;
  Rng r(H((u64)o.get("leaf"), 3));
  Leaves L; kinds[b->kind].walk(b->p, &L);
  bool did = false;
  for (int t = 0; t < 8 && !did && !L.empty(); t++) did = mutateLeaf(pickLeaf(L, r), r);
  b->tree = kinds[b->kind].walk(b->p, nullptr);
  b->rec.valid = false;
  if (did) { b->odd = true; b->edited = false; }
  delete q;
  if (did) checkOthers(b, "change-visible-elsewhere", fmt("after changing one field of %s %d", kinds[b->kind].name, b->id));
  say(fmt("mutate %016llx", (unsigned long long)b->tree.hash()));
}
static void opEqual(const OpLine& o) {
  Obj* a = pick(o.get("sel"), (int)o.get("kind", -1));
  if (!a) return;
  const Kind& K = kinds[a->kind];
  if (!K.equal) return;
  Obj* b = pick(o.get("sel2"), a->kind);
  ConstArg ca(a), cb(b);
  bool want = same(canon(a->tree), canon(b->tree));
  if (a->kind == K_SCOP)  // what a scop may be read with belongs to it, and is not in the tree
    for (osl_scop_p s = (osl_scop_p)a->p, t = (osl_scop_p)b->p; s && t; s = s->next, t = t->next)
      if (!s->registry != !t->registry || (s->registry && (s->registry->URI ? str(s->registry->URI) : "") != (t->registry->URI ? str(t->registry->URI) : ""))) want = want && s == t;
  bool x = LIB(K.equal(a->p, b->p)), y = LIB(K.equal(b->p, a->p));
  rc->checks++;
  if (x != want || y != want) fail("equal-wrong", fmt("%s comparison says %d/%d, content is %s: ", K.name, x, y, want ? "the same" : "different") + (want ? "" : diff(a->tree, b->tree)));
  checkUnchanged(a, "equal-changed", "operand of comparison"); checkUnchanged(b, "equal-changed", "operand of comparison");
  say(fmt("equal %d", x));
}
// hand an object over to another client
static void opGive(const OpLine& o) {
  int to = (int)o.get("to");
  if (to < 0 || to >= nClients() || to == cur->id || me().objs.empty()) return;
  int st = client(to)->state;
  rc->sig[100]++;
  if (st == DONE || st == EXITED || st == CRASHED) return;
  Obj* b = o.get("last") ? &me().objs.back() : pick(o.get("sel"));
  if (!b->p) return;
  std::set<void*> blocks = reach(b->p, 0);
  for (void* q : blocks) { Block* x = heapFind(q); if (x && x->owner == cur->id) x->owner = to; }
  ClientCtx& t = rc->c[(size_t)to];
  Obj n = *b; n.id = t.nextId++;
  t.objs.push_back(n);
  eraseObj(b);
  say("give");
}
// changing the precision of a relation keeps every value
static void opPrec(const OpLine& o) {
  static const int ps[] = {OSL_PRECISION_SP, OSL_PRECISION_DP, OSL_PRECISION_MP};
  Rng g(H((u64)o.get("k"), 17));
  Recipe r = Recipe(); r.os = (u64)o.get("os"); r.size = (int)o.get("size", 2); r.mag = 3; r.valid = true;
  r.prec = ps[g.below(3)];
  osl_relation_p a = (osl_relation_p)buildObj(K_RELATION, r);
  int p2 = ps[g.below(3)];
  Recipe r2 = r; r2.prec = p2; r2.os++;
  osl_relation_p b = (osl_relation_p)buildObj(K_RELATION, r2);
  Node ta = walk(K_RELATION, a), tb = walk(K_RELATION, b);
  for (int i = 0; i < 3; i++) {
    int q = ps[g.below(3)];
    LIBV(osl_relation_set_precision(q, a));
    checkSame(walk(K_RELATION, a), forPrecision(ta, q), "precision-wrong", fmt("relation after its precision was set to %d", q));
    checkSame(walk(K_RELATION, b), tb, "precision-leaks", "another relation after a precision change");
    if (a->next && g.chance(50)) {  // the parts from one on only
      int nq = ps[g.below(3)];
      LIBV(osl_relation_set_precision(nq, a->next));
      Node w = forPrecision(ta, nq);
      w.k[0] = forPrecision(ta, q).k[0];
      checkSame(walk(K_RELATION, a), w, "precision-wrong", fmt("relation of precision %d after the one of its parts from the second on was set to %d", q, nq));
      if (g.chance(60)) nq = q;
      LIBV(osl_relation_set_precision(nq, a));  // all parts alike again
      checkSame(walk(K_RELATION, a), forPrecision(ta, nq), "precision-wrong", fmt("relation with parts of several precisions after its precision was set to %d", nq));
    }
  }
  int pa = a->precision;
  LIBV(osl_relation_set_same_precision(a, b));
  int hi = pa == 0 || p2 == 0 ? 0 : std::max(pa, p2);
  checkSame(walk(K_RELATION, a), forPrecision(ta, hi), "precision-wrong", "first relation after set_same_precision");
  checkSame(walk(K_RELATION, b), forPrecision(tb, hi), "precision-wrong", "second relation after set_same_precision");
  LIBV(osl_relation_free(a)); LIBV(osl_relation_free(b));
  // the configured precision decides what is built
  size_t mark = cur->res.err.size();
  osl_relation_p c = LIB(osl_relation_malloc(1, 3));
  str errs = cur->res.err.substr(mark);
  rc->checks++;
  if (c->precision != myPrec()) fail("precision-config", fmt("configured precision is %d, a relation of precision %d was built", myPrec(), c->precision));
  bool bad = rc->plan->knob(fmt("prec%d", cur->id).c_str(), 1) == 2;
  if (bad && errs.find("OSL_PRECISION") == str::npos) fail("precision-silent", "an unusable precision setting was not reported: " + shortText(errs));
  if (!bad && !errs.empty()) fail("precision-noise", "a usable precision setting was complained about: " + shortText(errs));
  LIBV(osl_relation_free(c));
  say("prec ok");
}
// the same set in another order
static void permute(Node*, int kind, void* p, Rng& g);
static void revGeneric(osl_generic_p* h) { osl_generic_p r = nullptr; while (*h) { osl_generic_p n = (*h)->next; (*h)->next = r; r = *h; *h = n; } *h = r; }
static void permGenerics(osl_generic_p* h, Rng& g) {
  if (g.chance(70)) revGeneric(h);
  for (osl_generic_p e = *h; e; e = e->next) { int k = e->interface && e->interface->URI ? kindOfURI(e->interface->URI) : -1; if (k >= 0 && e->data && k != K_LOOP) permute(nullptr, k, e->data, g); }
}
static void permute(Node*, int kind, void* p, Rng& g) {
  switch (kind) {
    case K_SCOP: for (osl_scop_p s = (osl_scop_p)p; s; s = s->next) { permGenerics(&s->extension, g); if (s->statement) permute(nullptr, K_STATEMENT, s->statement, g); } break;
    case K_STATEMENT: for (osl_statement_p s = (osl_statement_p)p; s; s = s->next) permGenerics(&s->extension, g); break;
    case K_ARRAYS: { osl_arrays_p a = (osl_arrays_p)p; for (int i = a->nb_names - 1; i > 0; i--) { int j = (int)g.below((u64)i + 1); std::swap(a->id[i], a->id[j]); std::swap(a->names[i], a->names[j]); } break; }
    case K_LOOP: { osl_loop_p l = (osl_loop_p)p; for (; l; l = l->next) for (size_t i = l->nb_stmts; i > 1; i--) std::swap(l->stmt_ids[i - 1], l->stmt_ids[g.below(i)]); break; }
    case K_EXTBODY: { osl_extbody_p e = (osl_extbody_p)p; for (size_t i = e->nb_access; i > 1; i--) { size_t j = g.below(i); std::swap(e->start[i - 1], e->start[j]); std::swap(e->length[i - 1], e->length[j]); } break; }
    default: break;
  }
}
// two separately built twins, one of them changed in one place
static void opEqmut(const OpLine& o) {
  int kind = (int)o.get("kind");
  const Kind& K = kinds[kind];
  if (!K.equal) return;
  Recipe r = recipe(o);
  void *a = buildObj(kind, r), *b = buildObj(kind, r);
  Node ta = walk(kind, a);
  rc->checks++;
  bool e1 = LIB(K.equal(a, b)), e2 = LIB(K.equal(b, a)), e3 = LIB(K.equal(a, a));
  if (!e1 || !e2 || !e3) fail("equal-wrong", fmt("identical %s objects are reported different", K.name));
  bool n1 = LIB(K.equal(a, nullptr)), n2 = LIB(K.equal(nullptr, a)), n3 = LIB(K.equal(nullptr, nullptr));
  if (kind != K_TEXTUAL && (n1 || n2 || !n3)) fail("equal-wrong", fmt("%s against NULL: %d %d, NULL against NULL: %d", K.name, n1, n2, n3));
  if (o.get("perm")) {
    { Quiet q; Rng g(H((u64)o.get("leaf"), 77)); permute(nullptr, kind, b, g); if (kind == K_GENERIC) { osl_generic_p h = (osl_generic_p)b; revGeneric(&h); b = h; } }
    Node tb = walk(kind, b);
    bool x = LIB(K.equal(a, b)), y = LIB(K.equal(b, a));
    rc->checks++;
    if (!x || !y) fail("equal-wrong", fmt("%s with the same sets in another order is reported different (%d/%d)", K.name, x, y));
    if (!same(ta, tb)) cover.probes[str("eq-order-") + K.name]++;
  }
  int n = (int)o.get("n", 1);
  for (int i = 0; i < n; i++) {
    Quiet* q = new Quiet;
    Rng g(H((u64)o.get("leaf"), (u64)i, 3));
    Leaves L; K.walk(b, &L);
    str what;
    if (!L.empty()) { const Leaf& l = pickLeaf(L, g); str t = l.tag; if (mutateLeaf(l, g, true)) what = t; }
    Node tb = K.walk(b, nullptr);
    bool want = same(canon(ta), canon(tb));
    delete q;
    bool x = LIB(K.equal(a, b)), y = LIB(K.equal(b, a));
    rc->checks++;
    cover.probes[str("eq-") + K.name + "-" + what]++;
    if (x != want || y != want) fail("equal-wrong", fmt("%s with changed '%s': comparison says %d/%d, reference says %d: ", K.name, what.c_str(), x, y, want) + diff(ta, tb));
  }
  cover.cases.insert(ta.hash() ^ H((u64)o.get("leaf"), (u64)n));
  LIBV(K.free_(a)); LIBV(K.free_(b));
  say("eqmut ok");
}
// what a fresh object holds: nothing, and nothing known
static const std::map<int, str>& freshContent() {
  static const std::map<int, str> m{
    {K_SCOP, "version=1 language=(NULL)"},
    {K_STATEMENT, ""},
    {K_RELATION, "type=-1 rows=0 columns=0 output=-1 input=-1 local=-1 params=-1"},
    {K_RELLIST, ""},
    {K_STRINGS, ""},
    {K_BODY, "strings=(NULL) strings=(NULL)"},
    {K_GENERIC, "interface=(NULL)"},
    {K_NAMES, "strings=(NULL) strings=(NULL) strings=(NULL) strings=(NULL) strings=(NULL)"},
    {K_INTERFACE, "interface=(NULL) idump=null sprint=null sread=null malloc=null free=null clone=null equal=null"},
    {K_ARRAYS, "nb=0"},
    {K_CLAY, "script=(NULL)"},
    {K_COMMENT, "comment=(NULL)"},
    {K_COORDINATES, "name=(NULL) line_start=-1 line_end=-1 column_start=-1 column_end=-1 indent=-1"},
    {K_DEPENDENCE, "label_source=-1 label_target=-1 ref_source=-1 ref_target=-1 depth=-1 dtype=-1 son=-1 soa=-1 ton=-1 toa=-1 sln=-1 sla=-1 tln=-1 tla=-1"},
    {K_EXTBODY, "nb_access=0 body=(NULL)"},
    {K_IRREGULAR, "nb_control=0 nb_exit=0 nb_statements=0"},
    {K_LOOP, "iter=(NULL) nb_stmts=0 private=(NULL) directive=0 user=(NULL)"},
    {K_NULL, ""},
    {K_PLUTO, "iter=(NULL) jam=0 factor=0"},
    {K_REGION, "location=0 count=0 count=0 count=0 count=0"},
    {K_ANNOTATION, "count=0 count=0"},
    {K_SCATINFOS, "nb=0"},
    {K_SCATNAMES, "strings=(NULL)"},
    {K_SYMBOLS, "type=-1 generated=-1 nb_dims=-1"},
    {K_TEXTUAL, "textual=(NULL)"},
  };
  return m;
}
static void opMallocFree(const OpLine& o) {
  int kind = (int)o.get("kind");
  const Kind& K = kinds[kind];
  if (!K.malloc_) return;
  void* p = LIB(K.malloc_());
  Node t = walk(kind, p);
  say("malloc " + t.text());
  {
    Quiet q;
    str flat;
    std::function<void(const Node&)> f = [&](const Node& n) { if (!n.val.empty() && n.tag != "precision") flat += (flat.empty() ? "" : " ") + n.tag + "=" + n.val; for (auto& c : n.k) f(c); };
    f(t);
    auto w = freshContent().find(kind);
    rc->checks++;
    if (w != freshContent().end() && p && flat != w->second) fail("fresh-not-empty", fmt("a fresh %s holds '%s' instead of '%s'", K.name, shortText(flat).c_str(), w->second.c_str()));
    if (p && kind == K_RELATION && ((osl_relation_p)p)->precision != myPrec()) fail("fresh-not-empty", "a fresh relation has another precision than the configured one");
  }
  str raw;
  if (Block* b = heapFind(p)) {  // every byte that is not padding must be defined: seen by comparing allocators
    (void)b;
  }
  Node again = walk(kind, p);
  if (o.get("clone") && K.clone && kind != K_GENERIC && kind != K_INTERFACE) { void* c = LIB(K.clone(p)); Node w = walk(kind, c); checkSame(w, t, "clone-differs", fmt("clone of an empty %s", K.name)); if (K.equal && !LIB(K.equal(p, c))) fail("equal-wrong", fmt("clone of an empty %s is not equal to it", K.name)); LIBV(K.free_(c)); }
  if (o.get("dump") && K.idump) say(withFile([&](FILE* f) { LIBV(K.idump(f, p, 0)); }));
  LIBV(K.free_(p));
}
static void endClient() {
  for (auto& kv : std::map<int, FILE*>(me().w)) closeW(kv.first);
  for (auto& kv : std::map<int, FILE*>(me().r)) { simClose(kv.second); me().r.erase(kv.first); }
  editFree();
  // end of history: every object must still be what it should be, then free all
  for (auto& o : me().objs) checkUnchanged(&o, "content-lost", fmt("%s %d at the end", kinds[o.kind].name, o.id));
  if (decide("freeorder", 2)) me().objs.reverse();
  while (!me().objs.empty()) freeObj(&me().objs.front());
}
typedef void (*OpFn)(const OpLine&);
static const std::map<str, OpFn>& table() {
  static const std::map<str, OpFn> t = {
    {"new", opNew}, {"wopen", opWopen}, {"put", opPut}, {"get", opGet}, {"sxfer", opSxfer}, {"cread", opCread}, {"save", opSave}, {"recover", opRecover},
    {"mutate", opMutate}, {"equal", opEqual}, {"eqmut", opEqmut}, {"mallocfree", opMallocFree}, {"give", opGive}, {"prec", opPrec}, {"edit", opEdit},
    {"clone", [](const OpLine& o) { opClone(o, false); }}, {"nclone", [](const OpLine& o) { opClone(o, true); }},
    {"wclose", [](const OpLine& o) { int k = (int)o.get("ch"); if (me().w.count(k)) closeW(k); }},
    {"rclose", [](const OpLine& o) { int k = (int)o.get("ch"); if (me().r.count(k)) { simClose(me().r[k]); me().r.erase(k); } }},
    {"ropen", [](const OpLine& o) { opRopen(o); }},
    {"free", [](const OpLine& o) { Obj* b = pick(o.get("sel"), (int)o.get("kind", -1)); if (!b) return; str k = kinds[b->kind].name; freeObj(b); checkOthers(nullptr, "free-visible-elsewhere", "after freeing a " + k); say("free " + k); }},
    {"freenull", [](const OpLine& o) { int k = (int)o.get("kind"); LIBV(kinds[k].free_(nullptr)); say("freenull"); }},
    {"ro", [](const OpLine& o) { Obj* b = pick(o.get("sel"), (int)o.get("kind", -1)); if (!b || !b->p) return; str s = readOnlyOp(b, o.get("which")); checkUnchanged(b, "read-op-changed", "object after a reading operation"); say("ro " + s); }},
    {"sro", [](const OpLine& o) { if (rc->shared.empty()) return; auto it = rc->shared.begin(); std::advance(it, (long)((u64)o.get("sel") % rc->shared.size())); str s = readOnlyOp(&*it, o.get("which")); say("sro " + s); }},
    {"sig", [](const OpLine& o) { rc->sig[(int)o.get("n")]++; }},
    {"wait", [](const OpLine& o) { int n = (int)o.get("n"), by = (int)o.get("by", -1); long v = o.get("v", 1); blockUntil([=] { if (rc->sig[n] >= v) return true; if (by < 0 || by >= nClients()) return false; int st = client(by)->state; return st == DONE || st == EXITED || st == CRASHED; }, "signal"); }},
    {"sleep", [](const OpLine& o) { sleepFor((u64)o.get("t", 1)); }},
  };
  return t;
}
static void runClient(int id) {
  Client* c = cur;
  long pv = rc->plan->knob(fmt("prec%d", id).c_str(), 1);
  c->precisionText = pv == 32 ? "32" : pv == 64 ? "64" : pv == 0 ? "0" : pv == 2 ? "banana" : "";
  c->onExit = [](CState st) {
    Quiet q;
    ClientCtx& m = me();
    const str& err = cur->res.err;
    str tail = err.substr(std::min(m.errMark, err.size()));
    if (st == EXITED) {
      if (cur->res.exitCode == 0) fail("exit-zero", "the program stopped with status 0 during '" + m.opName + "'");
      if (tail.find("rror") == str::npos && tail.find("verflow") == str::npos) fail("exit-silent", "the program stopped without a diagnostic during '" + m.opName + "': " + shortText(tail));
      bool ok = cur->res.allocFailed || cur->res.memCap || m.exitOk || (m.readingChan >= 0 && (readDamaged(m.readingChan) || holed(rc->ch[m.readingChan])));
      if (!ok) fail("unexpected-exit", "the program stopped during '" + m.opName + "': " + shortText(tail));
      cover.probes[cur->res.allocFailed ? "exit-after-alloc-failure" : m.exitOk ? "exit-on-corrupt-input" : "exit-on-cut-input"]++;
      if (m.exitOk) cover.probes["corrupt-total"]++;
      say("exit: " + m.opName);
    }
    for (Obj* o : m.constArgs) if (o) checkSame(kinds[o->kind].walk(o->p, nullptr), o->tree, "operand-changed", fmt("%s read by '%s' when the program stopped", kinds[o->kind].name, m.opName.c_str()));
    for (auto& kv : m.w) { ChanState& cs = rc->ch[kv.first]; if (cs.writer == cur->id) cs.wdied = true; }
  };
  for (auto& o : rc->plan->ops) {
    if (o.client != id) continue;
    me().opName = o.name; me().errMark = c->res.err.size();
    yieldPoint(Y_OP);
    auto it = table().find(o.name);
    if (it != table().end()) { stats.ops[o.name]++; it->second(o); }
    c->res.opsDone++;
    rc->stateHash = H(rc->stateHash, (u64)id, c->res.transcript.size());
  }
  me().opName = "end";
  endClient();
}
static void noteErr() {}

void setupProcess() { libStateSave();
  mp_set_memory_functions(sim_gmp_alloc, sim_gmp_realloc, sim_gmp_free);
  noteErr();
}
RunResult runPlan(const Plan& p) {
  if (aboutToRun) aboutToRun(p);
  RunCtx R; R.plan = &p; R.c.resize((size_t)p.nclients);
  rc = &R;
  std::vector<std::function<void()>> bodies;
  for (int i = 0; i < p.nclients; i++) bodies.push_back([i] { runClient(i); });
  RunResult res = execute(p, bodies,
    [&] {
      bool any = false;
      for (auto& o : p.ops) if (o.client < 0 && o.name == "new") {
        if (!any) arenaOpen();
        any = true;
        Recipe r; r.os = (u64)o.get("os"); r.size = (int)o.get("size", 2); r.prec = (int)o.get("prec", 64); r.mag = (int)o.get("mag", 3); r.valid = true;
        Obj b; b.kind = (int)o.get("kind"); b.rec = r; b.id = 1000 + (int)rc->shared.size();
        b.p = buildObj(b.kind, r); b.tree = kinds[b.kind].walk(b.p, nullptr);
        cover.cases.insert(b.tree.hash());
        rc->shared.push_back(b);
      }
      if (any) arenaSeal(true);
    },
    [&] {
      for (auto& b : rc->shared) { checkSame(kinds[b.kind].walk(b.p, nullptr), b.tree, "shared-changed", "shared object at the end"); }
      arenaSeal(false);
      for (auto& b : rc->shared) kinds[b.kind].free_(b.p);
      rc->shared.clear();
      for (int i = 0; i < p.nclients; i++) if (client(i)->state == DONE && heapLive(i)) fail("leak", fmt("client %d:", i) + heapLeakReport(i));
      if (heapLive(-1)) fail("leak", "shared objects:" + heapLeakReport(-1));
    });
  stats.misc["checks"] += R.checks;
  for (auto& kv : R.ch) if (kv.second.opened) res.chanBytes[kv.first] = kv.second.expected.size();
  for (auto& kv : R.saveBytes) res.chanBytes[kv.first] = kv.second;
  u64 th = 0;
  for (auto& c : res.clients) for (auto& t : c.transcript) for (char ch : t) th = th * 1099511628211ull + (unsigned char)ch;
  for (auto& c : res.clients) { th = H(th, c.steps, (u64)c.exitCode * 8 + (u64)c.state, c.allocs); for (char ch : c.err) th = th * 1099511628211ull + (unsigned char)ch; }
  res.outcome = H(th, res.simTime);
  cover.states.insert(H(res.outcome, res.trace));
  cover.traces.insert(res.trace);
  if (res.pres.size()) cover.concurrentRuns++;
  rc = nullptr;
  return res;
}
}  // namespace sim
