// Reading operations beyond the ones every kind has: pretty printers with
// caller-provided names, older text formats, dump wrappers, part comparison.
#include "ops.h"

namespace sim {
str withFile(const std::function<void(FILE*)>& f);

static osl_names_p someNames(Rng& r) {
  return osl_names_generate("P", (int)r.below(6), "i", (int)r.below(7), "c", (int)r.below(9), "l", (int)r.below(5), "A", (int)r.below(14));
}
// The lines that carry data, comments removed.
str dataOnly(const str& t) {
  str o; size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == str::npos) e = t.size();
    size_t h = t.find('#', i); if (h == str::npos || h > e) h = e;
    str l = t.substr(i, h - i);
    while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back();
    size_t a = 0; while (a < l.size() && isspace((unsigned char)l[a])) a++;
    l = l.substr(a);
    if (!l.empty()) o += l + "\n";
    i = e + 1;
  }
  return o;
}
static bool wellFormed(osl_relation_p r) {
  for (; r; r = r->next) {
    if (r->nb_output_dims < 0 || r->nb_input_dims < 0 || r->nb_local_dims < 0 || r->nb_parameters < 0) return false;
    if ((long)r->nb_output_dims + r->nb_input_dims + r->nb_local_dims + r->nb_parameters + 2 != r->nb_columns) return false;
  }
  return true;
}
void sameText(const str& a, const str& b, const char* cls, const str& what) {
  rc->checks++;
  if (a == b) return;
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t s = i > 40 ? i - 40 : 0;
  fail(cls, what + fmt(": texts differ at byte %zu: '%s' vs '%s'", i, shortText(a.substr(std::min(s, a.size()), 80)).c_str(), shortText(b.substr(std::min(s, b.size()), 80)).c_str()));
}
// With other names only the comments of a text may change.
static str pretty(int kind, void* p, Rng& r, const std::function<void(FILE*, osl_names_p)>& f) {
  bool none = r.chance(25);
  osl_names_p n = none ? nullptr : LIB(someNames(r));
  str t = withFile([&](FILE* o) { LIBV(f(o, n)); });
  if (n) LIBV(osl_names_free(n));
  str plain = printText(kind, p);
  if (none) sameText(t, plain, "print-differs", str(kinds[kind].name) + " printed without names");
  else sameText(dataOnly(t), dataOnly(plain), "print-differs", str("data of ") + kinds[kind].name + " printed with other names");
  return t;
}
static str own(char* t) { str s = t ? t : "(NULL)"; if (t) LIBV(sim_free(t)); return s; }

void moreReads(Obj* o, Rng& r, std::vector<std::pair<str, std::function<str()>>>& v) {
  const Kind& K = kinds[o->kind];
  void* p = o->p;
  int kind = o->kind;
  if (K.dump && K.idump) v.push_back({"dump0", [p, &K] {
    str a = withFile([&](FILE* f) { LIBV(K.dump(f, p)); }), b = withFile([&](FILE* f) { LIBV(K.idump(f, p, 0)); });
    sameText(a, b, "print-differs", str("dump of ") + K.name);
    return a; }});
  switch (kind) {
    case K_SCOP: {
      osl_scop_p s = (osl_scop_p)p;
      v.push_back({"options_scoplib", [s, &r] { (void)r; return withFile([&](FILE* f) { LIBV(osl_generic_print_options_scoplib(f, s->extension)); }); }});
      break;
    }
    case K_STATEMENT: {
      osl_statement_p s = (osl_statement_p)p;
      v.push_back({"pprint", [=, &r] { return pretty(kind, p, r, [&](FILE* f, osl_names_p n) { osl_statement_pprint(f, s, n); }); }});
      bool ok = true;
      for (osl_statement_p q = s; q; q = q->next) {
        if (!q->domain || !q->scattering || !wellFormed(q->domain) || !wellFormed(q->scattering)) ok = false;
        for (osl_relation_list_p l = q->access; l; l = l->next) if (!l->elt || l->elt->nb_rows < 1 || !wellFormed(l->elt)) ok = false;
      }
      if (ok) v.push_back({"pprint_scoplib", [=, &r] { osl_names_p n = r.chance(25) ? nullptr : LIB(someNames(r)); str t = withFile([&](FILE* f) { LIBV(osl_statement_pprint_scoplib(f, s, n)); }); if (n) LIBV(osl_names_free(n)); return t; }});
      break;
    }
    case K_RELATION: {
      osl_relation_p s = (osl_relation_p)p;
      v.push_back({"pprint", [=, &r] { return pretty(kind, p, r, [&](FILE* f, osl_names_p n) { osl_relation_pprint(f, s, n); }); }});
      v.push_back({"spprint_polylib", [=, &r] {
        osl_names_p n = r.chance(25) ? nullptr : LIB(someNames(r));
        str t = own(LIB(osl_relation_spprint_polylib(s, n)));
        if (n) LIBV(osl_names_free(n));
        str full = dataOnly(printText(kind, p));  // the same without the line of the type
        size_t nl = full.find('\n');
        sameText(dataOnly(t), full.substr(nl == str::npos ? full.size() : nl + 1), "print-differs", "relation in PolyLib format");
        return t; }});
      if (wellFormed(s) && s->nb_rows > 0) v.push_back({"spprint_scoplib", [=, &r] {
        osl_names_p n = r.chance(25) ? nullptr : LIB(someNames(r));
        int nth = (int)r.below(2), fake = (int)r.below(2);
        str a = own(LIB(osl_relation_spprint_scoplib(s, n, nth, fake))), b = own(LIB(osl_relation_spprint_polylib_scoplib(s, n, nth, fake)));
        str c = withFile([&](FILE* f) { LIBV(osl_relation_pprint_scoplib(f, s, n, nth, fake)); });
        if (n) LIBV(osl_names_free(n));
        sameText(a, b, "print-differs", "relation in SCoPLib format (string)");
        sameText(c, b, "print-differs", "relation in SCoPLib format (file)");
        return a; }});
      v.push_back({"part_equal", [=] {
        osl_relation_p c = LIB(osl_relation_nclone(s, 1));
        bool e = LIB(osl_relation_part_equal(s, c)), e2 = LIB(osl_relation_part_equal(c, s)), n1 = LIB(osl_relation_part_equal(s, nullptr)), n2 = LIB(osl_relation_part_equal(nullptr, s));
        LIBV(osl_relation_free(c));
        if (!e || !e2) fail("equal-wrong", "a union part is not equal to its own clone");
        if (n1 || n2) fail("equal-wrong", "a union part is equal to nothing");
        str t;
        for (osl_relation_p q = s->next; q; q = q->next) {  // against the other parts
          Node a("relation"), b("relation");
          { Quiet z; Node all = kinds[K_RELATION].walk(s, nullptr); size_t i = 0; for (osl_relation_p x = s; x != q; x = x->next) i++; a.add(all.k[0]); b.add(all.k[i]); }
          bool w = same(a, b), g = LIB(osl_relation_part_equal(s, q));
          rc->checks++;
          if (w != g) fail("equal-wrong", fmt("comparison of two union parts says %d, content says %d: ", g, w) + diff(a, b));
          t += g ? "1" : "0";
        }
        return t; }});
      break;
    }
    case K_RELLIST: {
      osl_relation_list_p s = (osl_relation_list_p)p;
      v.push_back({"pprint", [=, &r] { return pretty(kind, p, r, [&](FILE* f, osl_names_p n) { osl_relation_list_pprint(f, s, n); }); }});
      v.push_back({"pprint_elts", [=, &r] { osl_names_p n = r.chance(25) ? nullptr : LIB(someNames(r)); str t = withFile([&](FILE* f) { LIBV(osl_relation_list_pprint_elts(f, s, n)); }); if (n) LIBV(osl_names_free(n)); return t; }});
      bool ok = true;
      for (osl_relation_list_p l = s; l; l = l->next) if (!l->elt || l->elt->nb_rows < 1 || !wellFormed(l->elt)) ok = false;
      if (ok) v.push_back({"pprint_scoplib", [=, &r] { osl_names_p n = r.chance(25) ? nullptr : LIB(someNames(r)); int fk = (int)r.below(2); str t = withFile([&](FILE* f) { LIBV(osl_relation_list_pprint_access_array_scoplib(f, s, n, fk)); }); if (n) LIBV(osl_names_free(n)); return t; }});
      v.push_back({"attributes", [=] { int a = -1, b = -1, c = -1, d = -1, e = -1; LIBV(osl_relation_list_get_attributes(s, &a, &b, &c, &d, &e)); return fmt("%d %d %d %d %d", a, b, c, d, e); }});
      v.push_back({"integrity", [=] { return fmt("%d", LIB(osl_relation_list_integrity_check(s, OSL_TYPE_ACCESS, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED))); }});
      break;
    }
    case K_GENERIC: v.push_back({"options_scoplib", [=] { return withFile([&](FILE* f) { LIBV(osl_generic_print_options_scoplib(f, (osl_generic_p)p)); }); }}); break;
    case K_BODY: if (((osl_body_p)p)->expression) v.push_back({"print_scoplib", [=] { return withFile([&](FILE* f) { LIBV(osl_body_print_scoplib(f, (osl_body_p)p)); }); }}); break;
    case K_DEPENDENCE: v.push_back({"print", [=, &K] { str a = withFile([&](FILE* f) { LIBV(osl_dependence_print(f, (osl_dependence_p)p)); }); str b = own(LIB(K.sprint(p))); sameText(a, b + "\n", "print-differs", "dependences printed to a file"); return a; }}); break;
    default: break;
  }
}
}  // namespace sim
