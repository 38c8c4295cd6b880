// Client programs: the operations simulated clients perform, with their oracles.
#pragma once
#include "model.h"
#include <list>

namespace sim {
struct Recipe {  // how to build an object again, bit for bit
  u64 os = 0; int size = 0, prec = 64, mag = 3; bool plain = false; long exts = -1;
  bool valid = false;
};
struct Obj {
  int kind = 0;
  void* p = nullptr;
  Node tree;  // reference content
  int id = 0;
  Recipe rec;
  bool edited = false;  // by edit operations: more of them may follow
  bool odd = false;  // changed field by field: may be inconsistent, only content operations apply
};
str decorate(const str& text, u64 seed, int kind, bool fromString = false);
struct Expect {  // one object put on a channel
  int kind; Node tree; Recipe rec; int client; str text, wire; size_t start = 0; int count = 1;
};
struct ChanState {
  std::vector<Expect> sent;
  size_t next = 0;
  Chan* pipe = nullptr;
  std::shared_ptr<Inode> ino;
  str expected;  // everything that must have been written so far
  bool opened = false, wclosed = false, wdied = false, wfailed = false;
  int writer = -1;
};
struct ClientCtx {
  std::list<Obj> objs;
  std::map<int, FILE*> w, r;
  std::map<int, Stream*> rs, ws;
  std::vector<Obj*> constArgs;  // operands the running call may only read
  int nextId = 1;
  str opName;
  size_t errMark = 0;
  std::set<int> rdead;    // channels whose read position is no longer known
  int readingChan = -1;   // channel a read is running on
  bool exitOk = false;    // the running call may stop the program
  str exitWhy;
  std::shared_ptr<void> edit;
  u64 opSeed = 0;         // objects the running operation builds
  int built = 0;
};
struct RunCtx {
  const Plan* plan = nullptr;
  std::vector<ClientCtx> c;
  std::map<int, ChanState> ch;
  std::map<int, long> sig;
  std::list<Obj> shared;
  std::map<str, std::vector<str>> docs;  // file name -> texts that may be found there after a crash
  std::map<str, Node> docTree;
  std::map<int, u64> saveBytes;
  u64 checks = 0;
  u64 stateHash = 0;
};
extern RunCtx* rc;
ClientCtx& me();
Obj* pick(long sel, int kind = -1);
Obj* newObj(int kind, void* p, const Node& t);
void eraseObj(Obj* o);  // forget without freeing
void freeObj(Obj* o);
void say(const str& s);
struct Arm { bool old; Arm(); ~Arm(); };
template <class F> auto libCall(F f) -> decltype(f()) { Arm a; return f(); }
#define LIB(...) libCall([&]() { return __VA_ARGS__; })
#define LIBV(...) libCall([&]() { __VA_ARGS__; })
struct ConstArg { ConstArg(Obj* o) { me().constArgs.push_back(o); } ~ConstArg() { me().constArgs.pop_back(); } };
void checkSame(const Node& got, const Node& want, const char* cls, const str& what);
void checkUnchanged(Obj* o, const char* cls, const str& what);
void* buildObj(int kind, const Recipe& r);
str printText(int kind, void* p);   // through a memory stream, armed
void printObj(int kind, FILE* f, void* p);
void* readObj(int kind, FILE* f, int prec, long mask, int count);
osl_interface_p mkRegistry(long mask, u64 order);
str readOnlyOp(Obj* o, long which);
void opEdit(const OpLine& o);  // edit.cpp
void editFree();               // edit.cpp
std::set<void*> reach(void* root, size_t rootSize);
RunResult runPlan(const Plan& p);
str shortText(const str& s, size_t n = 300);
Node forPrecision(const Node& n, int prec);
Node filterURIs(const Node& n, long mask, std::set<str>* skipped);
long defaultMask();
int clientPrec(const Plan& p, int c);
void setupProcess();
// props.cpp
Plan genPlan(const str& prop, u64 seed, bool thorough);
struct Verdict {
  bool violated = false;
  str cls, msg;
  Plan plan;          // reproduces it
  u64 trace = 0;
  u64 execs = 0;
};
Verdict judge(const Plan& p);
extern std::function<void(const Plan&)> aboutToRun;  // told before every execution
struct Cover {  // what the runs of this process reached
  std::set<u64> traces, states, cases;
  std::map<str, u64> ops, kinds, probes;
  u64 concurrentRuns = 0;
  std::vector<str> samples;
};
extern Cover cover;
}  // namespace sim
