#include <sstream>
// Text primitives: the reading functions the parsers are made of, fed with
// texts composed of known items, from strings and from streams with seeded
// delivery; and the string helpers, against small references.
#include "ops.h"
#include <osl/util.h>
#include <climits>

namespace sim {
str withFile(const std::function<void(FILE*)>& f);
FILE* textReader(const str& data, int chunk, int buf, const IoFault* fault, Stream** out);
void textDone(FILE* f, Stream* s);

namespace {
bool wordChar(char c) { return isalnum((unsigned char)c) || c == '_'; }
str ident(Rng& g, int max = 8) {
  static const char* few[] = {"i", "j", "k", "N", "A", "B", "ii", "i0", "_i", "ij", "M1"};
  if (g.chance(60)) return few[g.below(11)];
  str s(1, "abcxyzABCZ_"[g.below(11)]);
  size_t n = g.below((u64)max);
  for (size_t i = 0; i < n; i++) s += "abcxyzABCZ_0159"[g.below(15)];
  return s;
}
str name(Rng& g) {
  static const char* few[] = {"body", "arrays", "a", "OpenScop", "x_y", "ab", "scat"};
  if (g.chance(70)) return few[g.below(7)];
  str s; size_t n = 1 + g.below(g.chance(90) ? 12 : 300);
  for (size_t i = 0; i < n; i++) s += "abcxyzABCZ_"[g.below(11)];
  return s;
}
size_t longLen(Rng& g) {  // around the sizes buffers are made of
  static const size_t edge[] = {2044, 2045, 2046, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 6143, 6144};
  switch (g.below(6)) { case 0: return edge[g.below(12)]; case 1: return g.below(9000); case 2: return 0; default: return g.below(60); }
}
str blob(Rng& g, size_t n, const char* cs) { str s; size_t m = strlen(cs); char one = cs[g.below(m)]; u64 mono = g.chance(30) ? 90 : 30; while (s.size() < n) s += g.chance(mono) ? one : cs[g.below(m)]; return s; }
struct Item {
  enum K { INT, WORD, LINE, TAG, UPTO, UPTOTAG, UPTOEND, DATA } k;
  str text;    // as found in the text
  str value;   // what the reader must return
  str flag;    // for UPTO*
  size_t end = 0;  // position right after it
  bool null = false;
};
const char* itemName[] = {"integer", "word", "line", "tag", "text up to a flag", "text up to a tag", "text up to an end tag", "data line"};
str blanks(Rng& g, bool lines) {
  str s; size_t n = g.below(4);
  for (size_t i = 0; i < n; i++) s += lines ? " \t\n \n"[g.below(5)] : " \t"[g.below(2)];
  return s;
}
str comment(Rng& g) { return "#" + blob(g, g.chance(70) ? g.below(30) : longLen(g), "ab #<>/1 -\t") + "\n"; }
str gap(Rng& g) {  // anything that is not data
  str s = blanks(g, true);
  while (g.chance(35)) { s += comment(g); s += blanks(g, true); }
  return s;
}
// Content that does not hold the flag, but comes close.
str section(Rng& g, const str& flag, const str& before = "") {
  str s; size_t n = longLen(g);
  while (s.size() < n) {
    if (g.chance(25)) s += flag.substr(0, g.below(flag.size()));
    else s += blob(g, 1 + g.below(30), "ab \n#<>/1-");
  }
  s.resize(std::min(n, s.size()));
  if (before.find(flag) != str::npos) return "";
  for (size_t i; !s.empty() && (i = (before + s + flag).find(flag)) < before.size() + s.size();) s.erase(i < before.size() ? 0 : i - before.size(), 1);  // the flag must first occur at the very end
  return s;
}
Item make(Rng& g, bool file, const str& before = "") {
  Item it;
  it.k = (Item::K)g.below(file ? 8 : 7);
  switch (it.k) {
    case Item::INT: {
      static const char* v[] = {"0", "-1", "2147483647", "-2147483648", "+5", "007", "-0", "10"};
      it.text = g.chance(30) ? v[g.below(8)] : fmt("%d", (int)g.next() >> g.below(31));
      it.value = fmt("%d", atoi(it.text.c_str()));
      break;
    }
    case Item::WORD: {
      size_t n = g.chance(90) ? 1 + g.below(20) : 2040 + g.below(file ? 7 : 8);
      it.text = blob(g, n, "ab1/<>-_.+"); it.value = it.text; break;
    }
    case Item::LINE: {
      size_t n = file ? g.chance(90) ? g.below(60) : 2030 + g.below(16) : longLen(g);
      it.text = "ab1<"[g.below(4)] + blob(g, n, "ab 1/<>-\t"); it.value = it.text; break;
    }
    case Item::TAG: { it.value = (g.chance(40) ? "/" : "") + name(g); it.text = "<" + it.value + ">"; break; }
    case Item::UPTO: { static const char* f[] = {"aab", "ab", "#", "abab", "</x>", "\n\n", "1-1-2", "aaaaaaab"}; it.flag = f[g.below(8)]; it.value = section(g, it.flag, before); it.text = it.value + it.flag; it.value = before + it.value; it.null = (it.value + it.flag).find(it.flag) < it.value.size(); break; }
    case Item::UPTOTAG: { str n = name(g); it.flag = "<" + n + ">"; it.value = section(g, it.flag, before); it.text = it.value + it.flag; it.value = before + it.value; it.null = (it.value + it.flag).find(it.flag) < it.value.size(); it.flag = n; break; }
    case Item::UPTOEND: { str n = name(g); it.flag = "</" + n + ">"; it.value = section(g, it.flag, before); it.text = it.value + it.flag; it.value = before + it.value; it.null = (it.value + it.flag).find(it.flag) < it.value.size(); it.flag = n; break; }
    case Item::DATA: { it.value = blob(g, 1, "ab1<") + blob(g, longLen(g), "ab 1/<>-#\t") + "\n"; it.text = it.value; break; }
  }
  return it;
}
bool raw(const Item& i) { return i.k == Item::UPTO || i.k == Item::UPTOTAG || i.k == Item::UPTOEND; }
str got(char* t, bool* null) { *null = t == nullptr; str s = t ? t : ""; if (t) LIBV(sim_free(t)); return s; }
str readItem(const Item& it, FILE* f, char** s, bool* null) {
  *null = false;
  switch (it.k) {
    case Item::INT: return fmt("%d", LIB(osl_util_read_int(f, s)));
    case Item::WORD: return got(LIB(osl_util_read_string(f, s)), null);
    case Item::LINE: return got(LIB(osl_util_read_line(f, s)), null);
    case Item::TAG: return got(LIB(osl_util_read_tag(f, s)), null);
    case Item::UPTO: return got(LIB(osl_util_read_uptoflag(f, s, it.flag.c_str())), null);
    case Item::UPTOTAG: return got(LIB(osl_util_read_uptotag(f, s, it.flag.c_str())), null);
    case Item::UPTOEND: return got(LIB(osl_util_read_uptoendtag(f, s, it.flag.c_str())), null);
    default: return got(LIB(osl_util_read_data_line(f)), null);
  }
}
void check(const Item& it, const str& v, bool null, const char* from) {
  rc->checks++;
  cover.probes[str("text:") + itemName[it.k] + " from a " + from]++;
  if (null != it.null) fail("text-wrong", fmt("reading a %s from a %s returned %s", itemName[it.k], from, null ? "nothing" : ("'" + shortText(v) + "' though it does not occur").c_str()));
  if (!null && v != it.value) fail("text-wrong", fmt("a %s read from a %s is '%s' instead of '%s'", itemName[it.k], from, shortText(v).c_str(), shortText(it.value).c_str()));
}
// something that is not what is asked for
str wrongFor(Item::K k, Rng& g) {
  static const char* i[] = {"x12", "<a>", "-", ".5", "a"};
  static const char* t[] = {"body>", "12", "<bo dy>", "<a1>", "<a", "<a/>", "x<a>", "<a-b>"};
  if (k == Item::INT) return i[g.below(5)];
  if (k == Item::TAG) return t[g.below(8)];
  return "";
}
void fromString(Rng& g) {
  std::vector<Item> v; str all;
  int n = 1 + (int)g.below(7);
  for (int i = 0; i < n; i++) {
    size_t from = v.empty() ? 0 : v.back().end;
    Item it = make(g, false, all.substr(from));
    if (raw(it) && it.null) { it = Item(); it.k = Item::INT; it.text = it.value = "7"; }
    if (!raw(it)) all += gap(g);
    all += it.text; it.end = all.size();
    if (it.k == Item::INT || it.k == Item::WORD) all += g.chance(30) && i + 1 < n ? comment(g) : str(1, " \n\t"[g.below(3)]);
    if (it.k == Item::LINE) { if (g.chance(30)) all += comment(g); else all += "\n"; }
    v.push_back(it);
  }
  bool bad = g.chance(8), missing = !bad && g.chance(10);
  if (v.back().k == Item::INT || v.back().k == Item::WORD || v.back().k == Item::LINE) { if (!bad && !missing && g.chance(40)) all.resize(v.back().end); }
  Item last; last.k = Item::INT;
  if (bad) { last.k = g.chance(50) ? Item::INT : Item::TAG; all += g.chance(80) ? gap(g) + wrongFor(last.k, g) : last.k == Item::INT ? gap(g) : "<"; }
  if (missing) { last.k = g.chance(50) ? Item::UPTO : Item::TAG; last.null = true; if (last.k == Item::UPTO) { last.flag = "QQ"; all += section(g, "QQ"); } else all += gap(g); }
  char* buf = (char*)malloc(all.size() + 1);
  memcpy(buf, all.c_str(), all.size() + 1);
  char* s = buf;
  for (auto& it : v) {
    if (!raw(it) && g.chance(20)) { LIBV(osl_util_sskip_blank_and_comments(&s)); rc->checks++; if ((size_t)(s - buf) != it.end - it.text.size()) fail("text-wrong", fmt("skipping blanks and comments stopped at %zu instead of %zu of '%s'", (size_t)(s - buf), it.end - it.text.size(), shortText(all).c_str())); }
    bool null; str x = readItem(it, nullptr, &s, &null);
    check(it, x, null, "string");
    rc->checks++;
    if ((size_t)(s - buf) != it.end) fail("text-wrong", fmt("after a %s the position is %zu instead of %zu in '%s'", itemName[it.k], (size_t)(s - buf), it.end, shortText(all).c_str()));
  }
  if (bad || missing) {
    if (bad) { me().exitOk = true; me().exitWhy = "not the item asked for"; }
    bool null; str x = readItem(last, nullptr, &s, &null);
    me().exitOk = false;
    if (bad) fail("text-accepted", fmt("a %s was read as '%s' from '%s'", itemName[last.k], shortText(x).c_str(), shortText(all.substr(v.back().end)).c_str()));
    check(last, x, null, "string");
  }
  free(buf);
}
void fromFile(Rng& g) {
  std::vector<Item> v; str all;
  int n = 1 + (int)g.below(7);
  for (int i = 0; i < n; i++) {
    Item it = make(g, true);
    bool big = it.text.size() > 1900 && (it.k == Item::LINE || it.k == Item::WORD);  // a line of data may be as long as the buffer
    if (big) all += "\n"; else if (!raw(it)) all += gap(g);
    if (it.k == Item::LINE || it.k == Item::WORD || it.k == Item::INT || it.k == Item::TAG) {  // one item per line
      all += it.text;
      if (big) all += "\n";
      else if (it.k == Item::LINE) all += g.chance(40) ? comment(g) : "\n";
      else all += (g.chance(30) ? " more" : "") + (g.chance(30) ? " " + comment(g) : str("\n"));
    } else all += it.text;
    it.end = all.size();
    v.push_back(it);
  }
  bool missing = g.chance(10);
  Item last; last.null = true;
  if (missing) { last.k = g.chance(50) ? Item::UPTO : g.chance(50) ? Item::TAG : Item::DATA; if (last.k == Item::UPTO) { last.flag = "QQ"; all += section(g, "QQ"); } else all += gap(g) + "\n"; }
  IoFault flt; bool fault = g.chance(15);
  if (fault) { flt.kind = 1; flt.at = (long)g.below(all.size() + 1); flt.sticky = g.chance(70); }
  Stream* st = nullptr;
  static const int bufs[] = {-1, -1, 0, 1, 3, 16, 64, 4096};
  FILE* f = textReader(all, (int)g.below(g.chance(50) ? 5 : 300), bufs[g.below(8)], fault ? &flt : nullptr, &st);
  size_t pos = 0;
  if (fault) { me().exitOk = true; me().exitWhy = "read error"; }
  if (missing) v.push_back(last);
  bool dead = false;
  for (auto& it : v) {
    bool null; str x = readItem(it, f, nullptr, &null);
    if (ferror(f) && !it.null) {
      rc->checks++; cover.probes["text:after a read error"]++;
      if (!null && x != it.value) fail("text-wrong", fmt("after a read error a %s was returned as '%s' instead of '%s'", itemName[it.k], shortText(x).c_str(), shortText(it.value).c_str()));
      dead = true;
      break;
    }
    if (!ferror(f)) check(it, x, null, "stream");
    pos = it.end;
  }
  me().exitOk = false;
  if (!dead && !missing && !ferror(f) && !fault) {
    str rest; int c; { Quiet q; while ((c = fgetc(f)) != EOF) rest += (char)c; }
    rc->checks++;
    if (rest != all.substr(pos)) fail("text-wrong", fmt("after the last item '%s' is left on the stream instead of '%s'", shortText(rest).c_str(), shortText(all.substr(pos)).c_str()));
  }
  textDone(f, st);
}
void contents(Rng& g) {
  str t, nm = name(g);
  int n = (int)g.below(4);
  str want; bool found = false;
  str o = "<" + nm + ">", e = "</" + nm + ">";
  static const char* junk[] = {"text\n", "<other>\nx\n</other>\n", "<", "</", ">", "<a", "\n", "# c\n"};
  for (int i = 0; i <= n; i++) {
    while (g.chance(50)) { str j = g.chance(20) ? o.substr(0, g.below(o.size())) : g.chance(20) ? "<" + nm + "x>" : junk[g.below(8)]; t += j; }
    if (i < n) t += o + (g.chance(80) ? "\n" : "") + (g.chance(20) ? str() : blob(g, longLen(g), "ab <>/\n#1")) + (g.chance(90) ? e : str());
  }
  size_t a = t.find(o);
  if (a != str::npos) { a += o.size(); size_t b = t.find(e, a); if (b != str::npos) { found = true; want = t.substr(a, b - a); if (!want.empty() && want[0] == '\n') want.erase(0, 1); } }
  if (g.chance(3)) { bool null; got(LIB(osl_util_tag_content(nullptr, nm.c_str())), &null); rc->checks++; if (!null) fail("text-wrong", "no text has a tag content"); }
  bool null; str x = got(LIB(osl_util_tag_content(t.c_str(), nm.c_str())), &null);
  rc->checks++;
  cover.probes[found ? "text:tag content" : "text:no tag content"]++;
  if (null == found || x != want) fail("text-wrong", fmt("the content of tag %s in '%s' is %s'%s' instead of %s'%s'", nm.c_str(), shortText(t).c_str(), null ? "(none)" : "", shortText(x).c_str(), found ? "" : "(none)", shortText(want).c_str()));
}
void concats(Rng& g) {
  size_t hwm = 1 + g.below(g.chance(50) ? 3000 : 10);
  char* d; { Quiet q; d = (char*)sim_malloc(hwm); }
  d[0] = 0;
  str want;
  int n = 1 + (int)g.below(6);
  for (int i = 0; i < n; i++) {
    str s = blob(g, longLen(g), "abc");
    LIBV(osl_util_safe_strcat(&d, s.c_str(), &hwm));
    want += s;
    rc->checks++;
    if (want != d) fail("text-wrong", fmt("after appending, the text is '%s' instead of '%s'", shortText(d).c_str(), shortText(want).c_str()));
    if (hwm <= want.size()) fail("text-wrong", fmt("%zu characters are said to fit in %zu", want.size(), hwm));
  }
  if (Block* b = heapFind(d)) { rc->checks++; if (b->size < hwm) fail("text-wrong", fmt("the buffer has %zu bytes, %zu were announced", b->size, hwm)); }
  char* c = LIB(osl_util_strdup(d));
  if (want != c || c == d) fail("text-wrong", "a duplicate differs from the original");
  LIBV(sim_free(c)); LIBV(sim_free(d));
  bool pr = g.chance(50); str title = blob(g, g.below(30), "ab <");
  str t = withFile([&](FILE* f) { LIBV(osl_util_print_provided(f, pr, title.c_str())); });
  char* buf = (char*)malloc(t.size() + 1); memcpy(buf, t.c_str(), t.size() + 1); char* s = buf;
  rc->checks++;
  if (LIB(osl_util_read_int(nullptr, &s)) != (int)pr) fail("text-wrong", "a provided boolean is read as another one");
  free(buf);
}
void substitution(Rng& g) {
  std::vector<str> ids; size_t n = g.below(g.chance(85) ? 5 : 14);
  for (size_t i = 0; i < n; i++) ids.push_back(ident(g));
  static const char* ops[] = {"+", "-", "*", "/", "[", "]", "(", ")", ",", ";", "=", " ", "\t", "  ", "+=", "<", ".", "%", "?", ":", "@", "\n", "|", "&", "!", "~", "{", "}", "^", "\"", "'"};
  str e; size_t m = g.chance(90) ? g.below(25) : g.below(600);
  for (size_t i = 0; i < m; i++) {
    switch (g.below(5)) {
      case 0: case 1: e += !ids.empty() && g.chance(70) ? ids[g.below(ids.size())] : ident(g); break;
      case 2: e += fmt("%d", (int)g.below(30)); break;
      default: e += ops[g.below(sizeof ops / sizeof *ops)];
    }
  }
  str want;
  for (size_t i = 0; i < e.size();) {
    size_t j = i; while (j < e.size() && wordChar(e[j])) j++;
    if (j == i) { want += e[i++]; continue; }
    str w = e.substr(i, j - i);
    size_t q = 0; while (q < ids.size() && ids[q] != w) q++;
    if (q == ids.size()) { want += w; i = j; continue; }
    size_t b = i; while (b > 0 && isspace((unsigned char)e[b - 1])) b--;
    size_t a = j; while (a < e.size() && isspace((unsigned char)e[a])) a++;
    bool alone = (b == 0 || strchr("[(+=,", e[b - 1])) && (a == e.size() || strchr("]),;+", e[a]));
    want += alone ? fmt("@%zu@", q) : fmt("(@%zu@)", q);
    i = j;
  }
  std::vector<char*> v; for (auto& s : ids) v.push_back(const_cast<char*>(s.c_str()));
  v.push_back(nullptr);
  bool null; str x = got(LIB(osl_util_identifier_substitution(e.c_str(), v.data())), &null);
  rc->checks++;
  cover.probes["text:substitution"]++;
  if (x != want) { str l; for (auto& s : ids) l += " " + s; fail("text-wrong", fmt("'%s' with identifiers%s becomes '%s' instead of '%s'", shortText(e).c_str(), l.c_str(), shortText(x).c_str(), shortText(want).c_str())); }
}
}  // namespace

void mTexts(Rng& g) {
  int what = (int)g.below(10);
  if (what < 3) fromString(g); else if (what < 6) fromFile(g); else if (what < 7) contents(g); else if (what < 8) concats(g); else substitution(g);
  say(fmt("edit text %d", what));
}

// The same document as a person or another tool would write it: other blanks,
// blank lines and comments wherever the format allows them (not inside of
// extensions, which have formats of their own: there, and everywhere when
// 'kind' is an extension, only the comments change).
str decorate(const str& t, u64 seed, int kind, bool fromString) {
  static const std::set<str> free_{"clay", "comment", "textual", "region", "annotation"};
  Rng g(seed);
  u64 comments = g.below(50), lines = g.below(40), inside = g.below(60), drop = g.below(100);
  auto junk = [&] { str s = "#"; size_t n = longLen(g); if (g.chance(60)) n = g.below(40); s += blob(g, n, " abc019#-+=>\"\\\t|,;"); return s; };
  str o, tag;
  if (kind != K_SCOP && kind != K_STATEMENT && kind != K_RELATION && kind != K_RELLIST && kind != K_STRINGS && kind != K_GENERIC) tag = kinds[kind].name;
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    bool nl = e != str::npos;
    if (!nl) e = t.size();
    str l = t.substr(i, e - i);
    i = e + 1;
    if (!tag.empty()) {
      if (!l.empty() && l[0] == '#' && nl && !free_.count(tag)) { if (g.chance(drop)) continue; if (g.chance(comments)) l = junk(); }
      o += l; if (nl) o += "\n";
      if (l == "</" + tag + ">") tag.clear();
      continue;
    }
    size_t a = 0; while (a < l.size() && isspace((unsigned char)l[a])) a++;
    if (a == l.size() || l[a] == '#') {  // nothing that counts
      if (!g.chance(drop)) { o += l; if (nl) o += "\n"; }
      continue;
    }
    if (l.size() > 800 || !nl) { o += l; if (nl) o += "\n"; continue; }
    while (g.chance(lines)) { if (g.chance(50)) o += blob(g, g.below(4), " \t"); o += "\n"; }
    while (g.chance(comments)) { if (g.chance(50)) o += blob(g, g.below(4), " \t"); o += junk() + "\n"; }
    if (l[a] == '<') {  // a tag
      if (l[a + 1] != '/') { tag = l.substr(a + 1, l.find('>') - a - 1); if (tag == "OpenScop") tag.clear(); }
      o += l + "\n";
      continue;
    }
    size_t h = l.find('#', a);
    str data = l.substr(a, h == str::npos ? str::npos : h - a), tail = h == str::npos ? "" : l.substr(h);
    size_t end = data.size(); while (end && isspace((unsigned char)data[end - 1])) end--;
    data.resize(end);
    str w;
    if (g.chance(inside)) w += blob(g, g.below(6), " \t");
    for (char c : data) { if (c == ' ') { if (g.chance(inside)) w += g.chance(50) ? "\t" : "  "; else w += c; } else w += c; }
    if (g.chance(drop)) tail = g.chance(comments) ? junk() : "";
    if (fromString && tail.size() > 200) tail.resize(200);  // a line read from a string has a limit, its comment included
    if (!tail.empty() || g.chance(inside)) w += blob(g, 1 + g.below(3), " \t");
    o += w + tail + "\n";
    static const std::set<str> types{"UNDEFINED", "CONTEXT", "DOMAIN", "SCATTERING", "READ", "WRITE", "MAY_WRITE"};
    if (types.count(data) && g.chance(15)) {  // the number of parts, where it may be left out
      size_t p = i; int numbers = 0;
      while (p < t.size()) {
        size_t q = t.find('\n', p); if (q == str::npos) q = t.size();
        str x = t.substr(p, q - p); p = q + 1;
        size_t b = x.find_first_not_of(" \t"); if (b == str::npos || x[b] == '#') continue;
        std::istringstream in(x); long v; while (in >> v) numbers++;
        break;
      }
      if (numbers == 6) { o += "1\n"; cover.probes["parts counted"]++; }
    }
  }
  return o;
}
}  // namespace sim
