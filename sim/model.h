// Reference content model: labelled trees, generators and walkers for every
// kind of OpenScop object.
#pragma once
#include "core.h"
#include <gmp.h>
#include <osl/osl.h>
#include <osl/extensions/irregular.h>

namespace sim {
struct Node {
  str tag, val;
  std::vector<Node> k;
  Node() {}
  Node(const str& t, const str& v = "") : tag(t), val(v) {}
  void add(Node n) { k.push_back(std::move(n)); }
  str text(int ind = 0) const;
  u64 hash() const;
  size_t count() const;
};
bool same(const Node& a, const Node& b);
// first difference, as path: a vs b ("" if equal)
str diff(const Node& a, const Node& b, const str& path = "");

struct Leaf {
  enum K { INT, SIZE, BOOL, UINT, STR, COEF, CUT } kind;
  void* p;
  int prec;
  const char* tag;
  std::function<void()> cut;
};
typedef std::vector<Leaf> Leaves;

struct G {  // generation context
  Rng r;
  int size;      // 0..5
  int prec;      // 32, 64, 0
  int magnitude = 3;  // 0 tiny .. 4 beyond 64 bit (MP only)
  bool plain = false; // avoid optional sections
  long exts = -1;     // bit mask of allowed scop extensions
  G(u64 seed, int sz, int p) : r(seed), size(sz), prec(p) {}
};

enum KindId {
  K_SCOP, K_STATEMENT, K_RELATION, K_RELLIST, K_STRINGS, K_BODY, K_GENERIC, K_NAMES, K_VECTOR, K_INTERFACE,
  K_ARRAYS, K_CLAY, K_COMMENT, K_COORDINATES, K_DEPENDENCE, K_EXTBODY, K_IRREGULAR, K_LOOP, K_NULL, K_PLUTO,
  K_REGION, K_ANNOTATION, K_SCATINFOS, K_SCATNAMES, K_SYMBOLS, K_TEXTUAL, K_COUNT
};
struct Kind {
  const char* name;
  void* (*gen)(G&);
  Node (*walk)(void*, Leaves*);
  void (*free_)(void*);
  void* (*clone)(void*);                 // may be null
  bool (*equal)(void*, void*);           // may be null
  char* (*sprint)(void*);                // may be null
  void* (*sread)(char**);                // may be null
  void (*print)(FILE*, void*);           // may be null
  void* (*read)(FILE*);                  // may be null
  void (*idump)(FILE*, void*, int);      // may be null
  void* (*nclone)(void*, int);           // may be null
  osl_interface_t* (*iface)(void);       // may be null
  void* (*malloc_)(void);                // may be null
  void (*dump)(FILE*, void*);            // may be null
};
extern const Kind kinds[K_COUNT];
int kindByName(const str& s);

// canonical content for comparison semantics (order of extensions etc.)
Node canon(const Node& n);
// leading part of a list node
Node prefix(const Node& n, size_t k);

// in-place change of one content leaf; returns false if nothing to change
bool mutateLeaf(const Leaf& l, Rng& r, bool wide = false);
const Leaf& pickLeaf(const Leaves& L, Rng& r);
// helpers
char* dupz(const str& s);
str coefText(int prec, const osl_int_t& v);
void coefSet(int prec, osl_int_t* p, const str& dec);
str genCoef(G& g);
Node walkRelation(osl_relation_p r, Leaves* L);
osl_relation_p genRelation(G& g, int type, int out, int in, int loc, int par, int rows, int parts, int arrayId);
bool selfDelimited(int kind);  // sread reads exactly one object from a longer string
extern std::vector<const char*> allURIs;
extern osl_interface_t* (*const ifaceOf[])(void);
osl_generic_p wrapGeneric(int kind, void* data);
int kindOfURI(const str& uri);
str genName(G& g, int maxlen = 10);
}  // namespace sim
