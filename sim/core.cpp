#include "core.h"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <link.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>

namespace sim {
Stats stats;
Client* cur = nullptr;
const Plan* plan = nullptr;
World world;
std::function<void(Client*)> onSwitch, onResume;

u64 mix(u64 x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
u64 H(u64 a, u64 b, u64 c, u64 d) {
  u64 h = mix(a + 0x9e3779b97f4a7c15ull);
  h = mix(h ^ (b + 0x165667b19e3779f9ull));
  h = mix(h ^ (c + 0x27d4eb2f165667c5ull));
  return mix(h ^ (d + 0x85ebca77c2b2ae63ull));
}
static u64 HS(const char* s) { u64 h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
str fmt(const char* f, ...) {
  va_list ap; va_start(ap, f);
  va_list aq; va_copy(aq, ap);
  int n = vsnprintf(nullptr, 0, f, ap); va_end(ap);
  str s((size_t)n + 1, '\0');
  vsnprintf(&s[0], (size_t)n + 1, f, aq); va_end(aq);
  s.resize((size_t)n);
  return s;
}

// ---------------------------------------------------------------- plan ----
str Plan::text() const {
  str s = "osl-sim-plan 1\nprop " + prop + fmt("\nseed %llu\nclients %d\n", (unsigned long long)seed, nclients);
  if (explicitSched) s += "sched explicit\n";
  for (auto& k : knobs) s += fmt("knob %s %ld\n", k.first.c_str(), k.second);
  for (auto& o : ops) {
    s += fmt("op %d %s", o.client, o.name.c_str());
    for (auto& k : o.a) s += fmt(" %s=%ld", k.first.c_str(), k.second);
    s += "\n";
  }
  for (auto& o : faults) {
    s += fmt("fault %s", o.kind.c_str());
    for (auto& k : o.a) s += fmt(" %s=%ld", k.first.c_str(), k.second);
    s += "\n";
  }
  for (auto& p : pres) s += fmt("pre %d %llu %d\n", p.client, (unsigned long long)p.step, p.to);
  return s;
}
static std::vector<str> split(const str& l) {
  std::vector<str> v; str c;
  for (char ch : l) { if (ch == ' ' || ch == '\t') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) v.push_back(c);
  return v;
}
bool Plan::parse(const str& t, Plan& p, str& err) {
  size_t i = 0; int ln = 0; p = Plan();
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == str::npos) e = t.size();
    str l = t.substr(i, e - i); i = e + 1; ln++;
    if (l.empty() || l[0] == '#') continue;
    auto v = split(l);
    if (v.empty()) continue;
    auto kv = [&](size_t from, std::map<str, long>& m) {
      for (size_t k = from; k < v.size(); k++) { size_t q = v[k].find('='); if (q != str::npos) m[v[k].substr(0, q)] = atol(v[k].c_str() + q + 1); }
    };
    if (v[0] == "osl-sim-plan") continue;
    else if (v[0] == "prop" && v.size() > 1) p.prop = v[1];
    else if (v[0] == "seed" && v.size() > 1) p.seed = strtoull(v[1].c_str(), nullptr, 10);
    else if (v[0] == "clients" && v.size() > 1) p.nclients = atoi(v[1].c_str());
    else if (v[0] == "sched") p.explicitSched = v.size() > 1 && v[1] == "explicit";
    else if (v[0] == "knob" && v.size() > 2) p.knobs[v[1]] = atol(v[2].c_str());
    else if (v[0] == "op" && v.size() > 2) { OpLine o; o.client = atoi(v[1].c_str()); o.name = v[2]; kv(3, o.a); p.ops.push_back(o); }
    else if (v[0] == "fault" && v.size() > 1) { FaultLine o; o.kind = v[1]; kv(2, o.a); p.faults.push_back(o); }
    else if (v[0] == "pre" && v.size() > 3) p.pres.push_back({atoi(v[1].c_str()), strtoull(v[2].c_str(), nullptr, 10), atoi(v[3].c_str())});
    else { err = fmt("line %d: %s", ln, l.c_str()); return false; }
  }
  return true;
}

// -------------------------------------------- static data of the library ----
extern "C" {
extern char __start_osl_data[] __attribute__((weak)), __stop_osl_data[] __attribute__((weak));
extern char __start_osl_bss[] __attribute__((weak)), __stop_osl_bss[] __attribute__((weak));
}
static std::vector<char> libData, libBss;
__attribute__((no_sanitize("address"), noinline)) static void copyRaw(char* to, const char* from, size_t n) {
  for (volatile char *a = to, *b = (volatile char*)from; n; n--) { if (*a != *b) *a = *b; a++; b++; }
}
// Thread-local data: each client has its own, as threads would.
static char* tlsBlock = nullptr;
static size_t tlsSize = 0;
static std::vector<char> tlsInit;
static void tlsFind() {
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tlsBlock = (char*)i->dlpi_tls_data; tlsSize = i->dlpi_phdr[k].p_memsz; }
    return 1;  // the executable comes first
  }, nullptr);
  if (tlsSize) { tlsInit.resize(tlsSize); copyRaw(tlsInit.data(), tlsBlock, tlsSize); }
}
static void tlsIn(const std::vector<char>& v) { if (tlsSize) copyRaw(tlsBlock, v.data(), tlsSize); }
static void tlsOut(std::vector<char>& v) { if (tlsSize) { v.resize(tlsSize); copyRaw(v.data(), tlsBlock, tlsSize); } }
void libStateSave() {
  tlsFind();
  libData.resize((size_t)(__stop_osl_data - __start_osl_data));
  libBss.resize((size_t)(__stop_osl_bss - __start_osl_bss));
  copyRaw(libData.data(), __start_osl_data, libData.size());
  copyRaw(libBss.data(), __start_osl_bss, libBss.size());
}
void libStateRestore() {
  tlsIn(tlsInit);
  copyRaw(__start_osl_data, libData.data(), libData.size());
  copyRaw(__start_osl_bss, libBss.data(), libBss.size());
}

// Whether static data of the library changed since it was last looked at. (It
// has none that changes, but a change of the library may introduce some.)
static std::vector<char> seenData, seenBss;
__attribute__((no_sanitize("address"), noinline)) static bool differRaw(const char* x, const char* y, size_t n) {
  const volatile u64 *a = (const volatile u64*)x, *b = (const volatile u64*)y;
  for (; n >= 8; n -= 8) if (*a++ != *b++) return true;
  const volatile char *c = (const volatile char*)a, *d = (const volatile char*)b;
  for (; n; n--) if (*c++ != *d++) return true;
  return false;
}
__attribute__((noinline)) static void staticsSeen() { seenData.resize(libData.size()); seenBss.resize(libBss.size()); copyRaw(seenData.data(), __start_osl_data, seenData.size()); copyRaw(seenBss.data(), __start_osl_bss, seenBss.size()); }
static bool staticsChanged(bool all) {
  bool d = (all && differRaw(__start_osl_data, seenData.data(), seenData.size())) || differRaw(__start_osl_bss, seenBss.data(), seenBss.size());
  if (d) staticsSeen();
  return d;
}
static int parked = -1;   // a client stopped right after it changed static data
static u64 calm = 0;      // and for how long no other switch is made

// -------------------------------------------------------------- fibers ----
static std::vector<std::unique_ptr<Client>> clients;
static RunResult* rr = nullptr;
static u64 clockNow = 0, totalSteps = 0, maxSteps = 0;
static void* mainSp = nullptr;
static void* mainFake = nullptr;
static const void* mainStackBottom = nullptr;
static size_t mainStackSize = 0;
static bool aborting = false;
static long kPsw = 100; static u64 kFill = 0; static bool kPad = false, kFine = false;
int inHarness = 0;
Client* client(int i) { return clients[(size_t)i].get(); }
int nClients() { return (int)clients.size(); }
u64 now() { return clockNow; }

extern "C" void sim_switch(void** saveSp, void* loadSp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static const size_t STACK = 512 * 1024;
static std::vector<char*> stackPool;
static char* getStack() {
  if (!stackPool.empty()) { char* s = stackPool.back(); stackPool.pop_back(); return s; }
  char* s = (char*)mmap(nullptr, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(s, 4096, PROT_NONE);
  return s + 4096;
}
static void useErr(Client* c) {
  sim_stderr = c && c->ferr ? c->ferr : stderr;
  sim_stdout = c && c->fout ? c->fout : stdout;
}
static void toClient(Client* c) {  // from main
  cur = c;
  useErr(c);
  if (tlsSize) tlsIn(c->tls.empty() ? tlsInit : c->tls);
  __sanitizer_start_switch_fiber(&mainFake, c->stack, STACK);
  sim_switch(&mainSp, c->sp);
  __sanitizer_finish_switch_fiber(mainFake, nullptr, nullptr);
  if (tlsSize) { tlsOut(c->tls); tlsIn(tlsInit); }
  cur = nullptr;
  useErr(nullptr);
}
static void toMain(bool dying) {
  Client* c = cur;
  __sanitizer_start_switch_fiber(dying ? nullptr : &c->fake, mainStackBottom, mainStackSize);
  sim_switch(&c->sp, mainSp);
  __sanitizer_finish_switch_fiber(c->fake, &mainStackBottom, &mainStackSize);
}
static void entry() {
  Client* c = cur;
  __sanitizer_finish_switch_fiber(nullptr, &mainStackBottom, &mainStackSize);
  c->body();
  c->armed = false;
  c->state = DONE;
  toMain(true);
  _exit(99);
}
static void fillStack(char* p, size_t n);
static void prepare(Client* c) {
  c->stack = getStack();
  __asan_unpoison_memory_region(c->stack, STACK);
  fillStack(c->stack + STACK - 98304, 98304);
  u64* sp = (u64*)(c->stack + STACK - 64);
  *--sp = 0;              // fake return address slot / alignment
  *--sp = (u64)(void*)&entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp;
  unsigned mx; unsigned short cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  ((unsigned*)sp)[0] = mx; ((unsigned*)sp)[1] = cw;
  c->sp = sp;
}
void fail(const str& cls, const str& msg) {
  if (rr && !rr->violated) {
    rr->violated = true; rr->cls = cls;
    rr->msg = (cur ? fmt("client %d, op %llu: ", cur->id, (unsigned long long)cur->res.opsDone) : str()) + msg;
  }
  aborting = true;
  if (cur) { cur->armed = false; cur->state = CRASHED; toMain(true); }
  throw 1;  // main context of execute()
}
static int traceFd = -1;
void traceTo(int fd) { traceFd = fd; }
static void decideSwitch(Client* c, int to, int kind) {
  if (traceFd >= 0) { str l = fmt("pre %d %llu %d\n", c->id, (unsigned long long)c->step, to); if (write(traceFd, l.data(), l.size()) < 0) {} }
  rr->pres.push_back({c->id, c->step, to});
  rr->trace = H(rr->trace, (u64)c->id * 64 + (u64)to, c->res.opsDone, (u64)kind);
  stats.switches++;
}
static int nextClient = -1;
static size_t streamNo(FILE* f);
static void streamDead(FILE* f);
static std::map<std::pair<int, u64>, int> preMap;
u64 decide(const char* tag, u64 mod) {
  if (!cur || mod == 0) return 0;
  u64 n = cur->ctr[HS(tag) & 7]++;
  return H(plan->seed, HS(tag), (u64)cur->id, n) % mod;
}
static void dieNow(CState st) {
  cur->armed = false;
  inHarness = 0;
  if (cur->onExit) { auto f = cur->onExit; cur->onExit = nullptr; f(st); }
  // A process that exits flushes and closes its streams; one that is killed
  // loses what it had not handed over.
  Client* me = cur;
  std::vector<FILE*> fs(me->open.begin(), me->open.end());
  std::sort(fs.begin(), fs.end(), [](FILE* a, FILE* b) { return streamNo(a) < streamNo(b); });
  for (FILE* f : fs) { if (st == CRASHED) streamDead(f); simClose(f); }
  cur->state = st;
  toMain(true);
  _exit(99);
}
void yieldPoint(int kind) {
  Client* c = cur;
  if (!c || aborting || inHarness) return;
  c->step++; totalSteps++; clockNow++;
  if (c->crashStep && c->step == c->crashStep && c->armed) { stats.faults["crash"]++; c->crashStep = 0; dieNow(CRASHED); }
  if (totalSteps > maxSteps) fail("no-progress", fmt("step budget of %llu exhausted (yield kind %d)", (unsigned long long)maxSteps, kind));
  if (clients.size() < 2) return;
  int to = -1;
  if (plan->explicitSched) {
    auto it = preMap.find({c->id, c->step});
    if (it != preMap.end()) to = it->second;
  } else {
    long p = kPsw;
    bool touched = kFine && staticsChanged((totalSteps & 63) == 0);
    if (calm && --calm == 0) parked = -1;
    if (touched && parked >= 0 && parked != c->id) { to = parked; parked = -1; calm = 0; }
    else if (touched && H(plan->seed, 13, (u64)c->id, c->step) % 100 < 60) { parked = c->id; calm = 100ull << (H(plan->seed, 14, (u64)c->id, c->step) % 9); p = 1000; }
    else if (calm) p = 0;
    if (p > 0 && (long)(H(plan->seed, 11, (u64)c->id, c->step) % 1000) < p) {
      size_t n = clients.size();
      size_t st = H(plan->seed, 12, (u64)c->id, c->step) % n;
      for (size_t k = 0; k < n; k++) {
        Client* o = clients[(st + k) % n].get();
        if (o != c && o->state == READY) { to = o->id; break; }
      }
    }
  }
  if (to >= 0 && to < (int)clients.size() && to != c->id && clients[(size_t)to]->state == READY) {
    decideSwitch(c, to, kind);
    if (onSwitch) onSwitch(c);
    nextClient = to;
    toMain(false);
    if (onResume) onResume(c);
  }
}
// Every basic block of the library calls this: reach is recorded, and with the
// 'fine' knob a client can be preempted or killed between any two blocks.
extern "C" char __executable_start[];
static unsigned char covMap[1 << 23];
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
  size_t off = (size_t)((char*)__builtin_return_address(0) - __executable_start);
  if (off < sizeof covMap) covMap[off] = 1;
  if (kFine && cur && cur->armed) yieldPoint(Y_BLOCK);
}
__attribute__((no_sanitize("address"))) void coverForEach(const std::function<void(u64)>& f) {
  for (size_t i = 0; i < sizeof covMap; i++) if (covMap[i]) f((u64)i);
}
void blockUntil(const std::function<bool()>& cond, const char* why) {
  (void)why;
  while (!cond()) {
    Client* c = cur;
    c->state = BLOCKED; c->ready = cond; c->step++; totalSteps++;
    if (totalSteps > maxSteps) fail("no-progress", "step budget exhausted while blocked");
    if (onSwitch) onSwitch(c);
    toMain(false);
    c->ready = nullptr;
    if (onResume) onResume(c);
  }
}
void sleepFor(u64 t) {
  Client* c = cur;
  if (!c) return;
  if (clients.size() < 2) { clockNow += t; return; }
  c->state = SLEEP; c->wake = clockNow + t; c->step++; totalSteps++;
  if (onSwitch) onSwitch(c);
  toMain(false);
  if (onResume) onResume(c);
}

static ssize_t errWrite(void* ck, const char* b, size_t n) {
  Client* c = (Client*)ck;
  if (c->res.err.size() < (1u << 20)) c->res.err.append(b, n);
  if (cur == c && !aborting && c->state == READY) yieldPoint(Y_DIAG);
  return (ssize_t)n;
}
static ssize_t outWrite(void* ck, const char* b, size_t n) {
  Client* c = (Client*)ck;
  if (c->res.out.size() < (1u << 22)) c->res.out.append(b, n);
  return (ssize_t)n;
}
static std::vector<FILE*> errPool;

RunResult execute(const Plan& p, const std::vector<std::function<void()>>& bodies, const std::function<void()>& setup, const std::function<void()>& afterAll) {
  RunResult R;
  rr = &R; plan = &p; aborting = false; inHarness = 0;
  clockNow = 0; totalSteps = 0;
  maxSteps = (u64)p.knob("maxsteps", 3000000);
  kPsw = p.knob("psw", 100); kFill = (u64)p.knob("fill", 0xA5); kPad = p.knob("pad") != 0; kFine = p.knob("fine") != 0;
  heapCap = (size_t)p.knob("memcap", 256) << 20;
  clients.clear(); world = World(); heapReset(); libStateRestore(); staticsSeen(); parked = -1; calm = 0; preMap.clear();
  onSwitch = nullptr; onResume = nullptr;
  for (auto& q : p.pres) preMap[{q.client, q.step}] = q.to;
  for (size_t i = 0; i < bodies.size(); i++) {
    clients.emplace_back(new Client());
    Client* c = clients.back().get();
    c->id = (int)i; c->body = bodies[i];
    cookie_io_functions_t e = {nullptr, errWrite, nullptr, nullptr};
    cookie_io_functions_t o = {nullptr, outWrite, nullptr, nullptr};
    c->ferr = fopencookie(c, "w", e); setvbuf(c->ferr, nullptr, _IONBF, 0);
    c->fout = fopencookie(c, "w", o);
    prepare(c);
  }
  for (auto& f : p.faults) {
    int ci = (int)f.get("client", 0);
    if (ci < 0 || ci >= (int)clients.size()) continue;
    if (f.kind == "alloc") { clients[(size_t)ci]->failAt = (u64)f.get("n"); clients[(size_t)ci]->failLen = f.get("len", 1); }
    else if (f.kind == "crash") clients[(size_t)ci]->crashStep = (u64)f.get("step");
  }
  int next = 0;
  u64 pickNo = 0;
  try {
    if (setup) setup();
    while (true) {
      if (aborting) break;
      // wake those whose condition holds
      bool live = false; std::vector<int> ready;
      for (auto& c : clients) {
        if (c->state == BLOCKED && c->ready && c->ready()) c->state = READY;
        if (c->state == SLEEP && c->wake <= clockNow) c->state = READY;
        if (c->state == READY) ready.push_back(c->id);
        if (c->state == READY || c->state == BLOCKED || c->state == SLEEP) live = true;
      }
      if (!live) break;
      if (ready.empty()) {
        u64 w = ~0ull;
        for (auto& c : clients) if (c->state == SLEEP) w = std::min(w, c->wake);
        if (w == ~0ull) {
          str who;
          for (auto& c : clients) if (c->state == BLOCKED) who += fmt(" client %d (op %llu)", c->id, (unsigned long long)c->res.opsDone);
          fail("deadlock", "no client can make progress; blocked:" + who);
        }
        clockNow = w; continue;
      }
      next = -1;
      if (nextClient >= 0) { for (int r : ready) if (r == nextClient) next = r; nextClient = -1; }
      if (next < 0) next = ready[H(p.seed, 13, pickNo++) % ready.size()];
      rr->trace = H(rr->trace, (u64)next, client(next)->res.opsDone, 77);
      toClient(client(next));
    }
    if (!aborting && afterAll) afterAll();
  } catch (int) {}
  nextClient = -1;
  cur = nullptr; useErr(nullptr);
  R.simTime = clockNow;
  stats.simTime += clockNow; stats.steps += totalSteps; stats.runs++;
  for (auto& c : clients) {
    c->res.state = c->state; c->res.steps = c->step; c->res.allocs = c->allocNo;
    if (c->fout) { fflush(c->fout); }
    R.clients.push_back(c->res);
  }
  if (!R.violated) {
    for (auto& c : clients) { fclose(c->ferr); fclose(c->fout); c->ferr = c->fout = nullptr; __asan_unpoison_memory_region(c->stack, STACK); stackPool.push_back(c->stack); }
  }
  rr = nullptr; plan = nullptr; onSwitch = nullptr; onResume = nullptr;
  return R;
}

// ---------------------------------------------------------------- heap ----
static std::unordered_map<void*, Block> blocks;
size_t heapLiveBytes = 0, heapCap = (size_t)256 << 20;
static u64 heapSeq = 0;
static std::vector<void*> pads;
// Objects shared by several clients live in an arena of their own that can be
// made read-only, so that even a change undone before the call returns is seen.
static char *arena = nullptr, *arenaPos = nullptr;
static const size_t ARENA = (size_t)16 << 20;
static bool arenaOn = false;
static bool inArena(void* p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
static void* arenaAlloc(size_t n) {
  if (!arenaOn) return nullptr;
  size_t m = (n + 16 + 31) & ~(size_t)15;
  if (arenaPos + m > arena + ARENA) return nullptr;
  char* p = arenaPos; arenaPos += m;
  __asan_unpoison_memory_region(p, n ? n : 1);
  return p;
}
void arenaOpen() {
  if (!arena) {
    arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arenaPos = arena;
  }
  mprotect(arena, ARENA, PROT_READ | PROT_WRITE);
  arenaPos = arena;
  __asan_poison_memory_region(arena, ARENA);
  arenaOn = true;
}
void arenaSeal(bool sealed) { arenaOn = false; if (arena) mprotect(arena, ARENA, sealed ? PROT_READ : PROT_READ | PROT_WRITE); }
bool arenaHas(void* p) { return inArena(p); }
void heapReset() {
  arenaSeal(false);
  for (auto& b : blocks) if (!inArena(b.first)) free(b.first);  // leftovers of exited clients
  blocks.clear(); heapLiveBytes = 0; heapSeq = 0;
  for (void* q : pads) free(q);
  pads.clear();
}
Block* heapFind(void* p) { auto i = blocks.find(p); return i == blocks.end() ? nullptr : &i->second; }
size_t heapLive(int owner) { size_t n = 0; for (auto& b : blocks) if (b.second.owner == owner) n++; return n; }
void heapForEach(const std::function<void(void*, const Block&)>& f) { for (auto& b : blocks) f(b.first, b.second); }
void heapReown(int from, int to) { for (auto& b : blocks) if (b.second.owner == from) b.second.owner = to; }
str symName(void* ra) {
  Dl_info di;
  if (ra && dladdr(ra, &di) && di.dli_sname) return di.dli_sname;
  return "?";
}
str heapLeakReport(int owner) {
  std::vector<std::pair<u64, const Block*>> v;
  for (auto& b : blocks) if (b.second.owner == owner) v.push_back({b.second.seq, &b.second});
  std::sort(v.begin(), v.end());
  str s;
  std::map<str, int> by;
  for (auto& q : v) by[fmt("%s[op %d]", symName(q.second->ra).c_str(), q.second->op)]++;
  int k = 0;
  for (auto& q : by) { if (k++ > 8) break; s += fmt(" %dx in %s", q.second, q.first.c_str()); }
  return s;
}
static void fillBlock(unsigned char* p, size_t n, u64 seq) {
  u64 pat = plan ? kFill : 0;
  if (pat <= 255) { memset(p, (int)pat, n); return; }
  if (pat == 256) {  // pseudo random
    u64 h = H(plan->seed, 99, seq);
    for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) h = mix(h + 1); p[i] = (unsigned char)(h >> ((i & 7) * 8)); }
    return;
  }
  if (pat == 257) { memset(p, '0' + (int)(seq % 10), n); return; }  // plausible digits
  for (size_t i = 0; i < n; i++) p[i] = (i % 8 == 0) ? (unsigned char)(1 + seq % 7) : 0;  // small ints
}
static void fillStack(char* p, size_t n) { fillBlock((unsigned char*)p, n, 3); }
static bool inArena(void* p);
static void* allocImpl(size_t n, bool zero, void* ra, bool countIt) {
  Client* c = cur;
  if (c && !aborting) {
    if (c->armed) yieldPoint(Y_ALLOC);
    if (c->armed && countIt) {
      c->allocNo++; stats.allocs++;
      if (c->failAt && c->allocNo >= c->failAt && c->allocNo < c->failAt + (u64)c->failLen) {
        c->res.allocFailed = true; stats.faults["alloc"]++; c->res.failedIn = symName(ra);
        errno = ENOMEM; return nullptr;
      }
    }
  }
  if (n > heapCap || heapLiveBytes + n > heapCap) {
    if (c) c->res.memCap = true;
    stats.faults["memory-limit"]++; errno = ENOMEM; return nullptr;
  }
  if (plan && kPad) {  // vary placement
    if (H(plan->seed, 98, heapSeq) % 3 == 0 && pads.size() < 64) pads.push_back(malloc(16 + H(plan->seed, 97, heapSeq) % 200));
  }
  void* p = c ? nullptr : arenaAlloc(n);
  if (!p) p = malloc(n ? n : 1);
  if (!p) { errno = ENOMEM; return nullptr; }
  heapSeq++;
  if (zero) memset(p, 0, n); else fillBlock((unsigned char*)p, n, heapSeq);
  blocks[p] = Block{n, c ? c->id : -1, heapSeq, ra, c ? (int)c->res.opsDone : -1};
  heapLiveBytes += n;
  return p;
}
extern "C" {
FILE* sim_stderr = nullptr;
FILE* sim_stdout = nullptr;
void* sim_malloc(size_t n) { return allocImpl(n, false, __builtin_return_address(0), true); }
void* sim_calloc(size_t n, size_t m) {
  size_t t; if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return nullptr; }
  return allocImpl(t, true, __builtin_return_address(0), true);
}
void sim_free(void* p) {
  if (!p) return;
  if (cur && !aborting && cur->armed) { yieldPoint(Y_FREE); stats.frees++; }
  auto it = blocks.find(p);
  if (inArena(p)) {
    if (cur && it != blocks.end()) fail("shared-free", "a client freed a block of the shared object");
    if (it != blocks.end()) { heapLiveBytes -= it->second.size; blocks.erase(it); __asan_poison_memory_region(p, 16); return; }
  }
  if (it != blocks.end()) { heapLiveBytes -= it->second.size; blocks.erase(it); }
  free(p);  // unknown or already freed pointers are judged by the sanitizer
}
void* sim_realloc(void* p, size_t n) {
  void* ra = __builtin_return_address(0);
  if (!p) return allocImpl(n, false, ra, true);
  auto it = blocks.find(p);
  if (it == blocks.end()) {
    // not ours (or freed): let the sanitizer judge
    return realloc(p, n ? n : 1);
  }
  size_t old = it->second.size;
  if (n == 0) {  // glibc semantics: free and return NULL
    sim_free(p);
    return nullptr;
  }
  void* q = allocImpl(n, false, ra, true);
  if (!q) return nullptr;
  if (blocks.find(p) == blocks.end()) { memcpy(q, p, std::min(old, n)); return q; }  // freed meanwhile by another client: ASan reports
  memcpy(q, p, std::min(old, n));
  it = blocks.find(p);
  if (inArena(p)) { if (cur) fail("shared-free", "a client reallocated a block of the shared object"); heapLiveBytes -= it->second.size; blocks.erase(it); return q; }
  heapLiveBytes -= it->second.size; blocks.erase(it);
  free(p);
  return q;
}
char* sim_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* q = (char*)allocImpl(n, false, __builtin_return_address(0), true);
  if (q) memcpy(q, s, n);
  return q;
}
char* sim_strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  char* q = (char*)allocImpl(n + 1, false, __builtin_return_address(0), true);
  if (q) { memcpy(q, s, n); q[n] = 0; }
  return q;
}
char* sim_strdup2(const char* s) { return sim_strdup(s); }
char* sim_strndup2(const char* s, size_t m) { return sim_strndup(s, m); }
// GMP itself stops the program with a diagnostic when it gets no memory
static void gmpNoMem(size_t n) {
  if (!cur) sim_abort();
  cur->res.err += fmt("GNU MP: Error: cannot allocate memory (size=%zu)\n", n);
  cur->res.exitCode = 134;
  stats.misc["exits"]++;
  dieNow(EXITED);
}
void* sim_gmp_alloc(size_t n) { void* p = allocImpl(n, false, __builtin_return_address(0), false); if (!p) gmpNoMem(n); return p; }
void sim_gmp_free(void* p, size_t) { sim_free(p); }
void* sim_gmp_realloc(void* p, size_t, size_t n) {
  void* q = allocImpl(n, false, __builtin_return_address(0), false); if (!q) gmpNoMem(n);
  auto it = blocks.find(p);
  if (it != blocks.end()) memcpy(q, p, std::min(it->second.size, n)); else memcpy(q, p, n);
  sim_free(p);
  return q;
}
void sim_exit(int code) {
  if (!cur) { fprintf(stderr, "library exit(%d) outside a client\n", code); fflush(stderr); _exit(98); }
  cur->res.exitCode = code;
  stats.misc["exits"]++;
  dieNow(EXITED);
  _exit(99);
}
void sim_abort(void) {
  if (!cur) { fprintf(stderr, "library abort() outside a client\n"); _exit(98); }
  fail("abort", "the library called abort()");
}
char* sim_getenv(const char* name) {
  if (cur && !strcmp(name, "OSL_PRECISION")) return cur->precisionText.empty() ? nullptr : &cur->precisionText[0];
  return nullptr;
}
}

// Entry points of libc the library does not use today but could: same seams.
extern "C" {
void* sim_reallocarray(void* p, size_t n, size_t m) {
  size_t t; if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return nullptr; }
  return sim_realloc(p, t);
}
int sim_vasprintf(char** out, const char* f, va_list ap) {
  va_list aq; va_copy(aq, ap);
  int n = vsnprintf(nullptr, 0, f, aq); va_end(aq);
  if (n < 0) return n;
  char* q = (char*)allocImpl((size_t)n + 1, false, __builtin_return_address(0), true);
  if (!q) return -1;
  vsnprintf(q, (size_t)n + 1, f, ap);
  *out = q;
  return n;
}
int sim_asprintf(char** out, const char* f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(out, f, ap); va_end(ap); return n; }
ssize_t sim_getdelim(char** line, size_t* n, int delim, FILE* f) {
  if (!line || !n) { errno = EINVAL; return -1; }
  size_t k = 0;
  int c;
  if (!*line) *n = 0;
  do {
    c = fgetc(f);
    if (c == EOF) break;
    if (k + 2 > *n) {
      size_t m = *n ? *n * 2 : 120;
      char* q = (char*)sim_realloc(*line, m);
      if (!q) return -1;
      *line = q; *n = m;
    }
    (*line)[k++] = (char)c;
  } while (c != delim);
  if (k == 0) return -1;
  (*line)[k] = 0;
  return (ssize_t)k;
}
ssize_t sim_getline(char** line, size_t* n, FILE* f) { return sim_getdelim(line, n, '\n', f); }
char* sim_getenv2(const char* name) { return sim_getenv(name); }
void sim_exit2(int code) { sim_exit(code); }
void sim_exit3(int code) { sim_exit(code); }
void sim_exit4(int code) { sim_exit(code); }
int sim_vprintf(const char* f, va_list ap) { return vfprintf(sim_stdout, f, ap); }
int sim_printf(const char* f, ...) { va_list ap; va_start(ap, f); int n = vfprintf(sim_stdout, f, ap); va_end(ap); return n; }
int sim_puts(const char* s) { return fprintf(sim_stdout, "%s\n", s); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
void sim_perror(const char* s) { fprintf(sim_stderr, "%s: %s\n", s ? s : "", strerror(errno)); }
void sim_assert_fail(const char* e, const char*, unsigned, const char* fn) {
  fprintf(sim_stderr, "assertion failed: %s in %s\n", e, fn ? fn : "?");
  sim_abort();
}
// simulated time and seeded randomness (no result of the library may depend on them)
long sim_time(long* t) { long v = 1700000000 + (long)(clockNow / 1000000); if (t) *t = v; return v; }
long sim_clock(void) { return (long)clockNow; }
static long anyNumber() { return plan ? (long)(H(plan->seed, 77, kFill, clockNow) & 0x7fffffff) : 4; }
int sim_rand(void) { return (int)anyNumber(); }
long sim_random(void) { return anyNumber(); }
}

// ------------------------------------------------------------- I/O world ----
static u64 lat(Stream* s) { return s->latency ? decide("lat", s->latency + 1) : 0; }
static IoFault* faultAt(Stream* s, u64 pos, u64 n, u64* allowed) {
  IoFault* best = nullptr;
  for (auto& f : s->faults) {
    if (f.used && !f.sticky) continue;
    if (f.at < 0) continue;
    if ((u64)f.at < pos + n && (!best || f.at < best->at)) best = &f;
  }
  if (best) { *allowed = (u64)best->at > pos ? (u64)best->at - pos : 0; if (*allowed == 0) return best; if (*allowed > n) *allowed = n; return nullptr; }
  *allowed = n;
  return nullptr;
}
static int errOf(int kind) { switch (kind) { case 1: return EIO; case 2: return ENOSPC; case 3: return EPIPE; case 4: return EINTR; case 5: return EAGAIN; default: return EIO; } }
static const char* fname(int kind, bool w) {
  static const char* r[] = {"?", "read-eio", "read-enospc", "read-epipe", "read-eintr", "read-eagain", "truncated-input", "writer-died"};
  static const char* v[] = {"?", "write-eio", "disk-full", "broken-pipe", "write-eintr", "write-eagain", "?", "?"};
  return w ? v[kind & 7] : r[kind & 7];
}
static ssize_t cookieRead(void* ck, char* b, size_t n) {
  Stream* s = (Stream*)ck;
  yieldPoint(Y_READ);
  u64 l = lat(s); if (l) sleepFor(l);
  if (s->chunk > 0) { size_t m = 1 + decide("chunk", (u64)s->chunk); if (n > m) { n = m; stats.faults["short-read"]++; } }
  u64 allowed = n;
  if (IoFault* f = faultAt(s, s->pos, n, &allowed)) {
    f->used = true; s->fired++;
    if (cur) cur->res.ioFaults++;
    stats.faults[fname(f->kind, false)]++;
    if (f->kind == 6 || f->kind == 7) return 0;
    errno = errOf(f->kind);
    return -1;
  }
  n = (size_t)allowed;
  if (s->chan) {
    Chan* c = s->chan;
    blockUntil([c] { return !c->buf.empty() || c->wclosed; }, "pipe empty");
    size_t m = std::min(n, c->buf.size());
    for (size_t i = 0; i < m; i++) { b[i] = c->buf.front(); c->buf.pop_front(); }
    s->pos += m; c->out += m; stats.bytesIn += m;
    return (ssize_t)m;
  }
  const str& d = s->isMem ? s->mem : s->ino->data;
  size_t m = s->pos >= d.size() ? 0 : std::min(n, (size_t)(d.size() - s->pos));
  memcpy(b, d.data() + s->pos, m);
  s->pos += m; stats.bytesIn += m;
  return (ssize_t)m;
}
static ssize_t cookieWrite(void* ck, const char* b, size_t n) {
  Stream* s = (Stream*)ck;
  if (s->dead) return (ssize_t)n;
  size_t done = 0;
  while (done < n) {  // the kernel may take only part of it; stdio goes on with the rest
    yieldPoint(Y_WRITE);
    u64 l = lat(s); if (l) sleepFor(l);
    size_t m = n - done;
    if (s->chunk > 0) { size_t k = 1 + decide("chunk", (u64)s->chunk); if (m > k) { m = k; stats.faults["short-write"]++; } }
    u64 allowed = m;
    if (IoFault* f = faultAt(s, s->pos, m, &allowed)) {
      f->used = true; s->fired++;
      if (cur) cur->res.ioFaults++;
      stats.faults[fname(f->kind, true)]++;
      errno = errOf(f->kind);
      return 0;
    }
    m = (size_t)allowed;
    if (s->chan) {
      Chan* c = s->chan;
      blockUntil([c] { return c->rclosed || c->slack || c->buf.size() < c->cap; }, "pipe full");
      if (c->rclosed) { stats.faults["broken-pipe"]++; s->fired++; if (cur) cur->res.ioFaults++; errno = EPIPE; return 0; }
      if (!c->slack) m = std::min(m, c->cap - c->buf.size());
      for (size_t i = 0; i < m; i++) c->buf.push_back(b[done + i]);
      c->all.append(b + done, m);
      c->in += m;
    } else if (s->ino) {
      if (world.diskFree >= 0) {
        if (world.diskFree == 0) { stats.faults["disk-full"]++; s->fired++; if (cur) cur->res.ioFaults++; errno = ENOSPC; return 0; }
        m = std::min(m, (size_t)world.diskFree); world.diskFree -= (long)m;
      }
      Inode* i = s->ino;
      if (i->data.size() < s->pos + m) i->data.resize(s->pos + m);
      memcpy(&i->data[s->pos], b + done, m);
      for (size_t q = s->pos / 512; q <= (s->pos + m - 1) / 512; q++) i->dirty.insert(q);
    } else {
      s->mem.append(b + done, m);
    }
    s->pos += m; done += m; stats.bytesOut += m;
  }
  return (ssize_t)n;
}
static int cookieClose(void* ck) {
  Stream* s = (Stream*)ck;
  s->closed = true;
  if (s->chan) { if (s->write) s->chan->wclosed = true; else s->chan->rclosed = true; }
  return 0;
}
FILE* openStream(std::unique_ptr<Stream> u, int bufsize) {
  Stream* s = u.get();
  s->client = cur ? cur->id : -1;
  cookie_io_functions_t io = {s->write ? nullptr : cookieRead, s->write ? cookieWrite : nullptr, nullptr, cookieClose};
  s->f = fopencookie(s, s->write ? "w" : "r", io);
  if (bufsize == 0) setvbuf(s->f, nullptr, _IONBF, 0);
  else if (bufsize > 0) setvbuf(s->f, nullptr, _IOFBF, (size_t)bufsize);
  if (cur) cur->open.insert(s->f);
  world.streams.push_back(std::move(u));
  return s->f;
}
static size_t streamNo(FILE* f) { for (size_t i = 0; i < world.streams.size(); i++) if (world.streams[i]->f == f) return i; return 0; }
static void streamDead(FILE* f) { if (Stream* s = streamOf(f)) s->dead = true; }
Stream* streamOf(FILE* f) { for (auto& s : world.streams) if (s->f == f) return s.get(); return nullptr; }
int simClose(FILE* f) {
  if (cur) cur->open.erase(f);
  Stream* s = streamOf(f);
  int r = fclose(f);
  if (s) { s->f = nullptr; cookieClose(s); }
  return r;
}
void fsyncInode(Inode* i) { i->durable = i->data; i->dirty.clear(); }
void diskCrash(u64 seed) {
  // Names survive only if made durable; sectors not synced survive whole,
  // torn or not at all.
  for (auto& kv : world.files) {
    Inode* i = kv.second.get();
    str d = i->durable;
    u64 n = 0;
    bool newSize = H(seed, 31, n) % 2;
    if (newSize && i->data.size() > d.size()) d.resize(i->data.size(), '\0');
    for (size_t q : i->dirty) {
      u64 h = H(seed, 32, ++n) % 3;
      size_t a = q * 512, e = std::min(a + 512, i->data.size());
      if (h == 0 || a >= i->data.size()) { stats.faults["lost-sector"]++; continue; }
      if (h == 1) { e = a + H(seed, 33, n) % (e - a + 1); stats.faults["torn-sector"]++; }
      if (d.size() < e) { if (!newSize) e = std::min(e, d.size()); else d.resize(e, '\0'); }
      if (e > a) memcpy(&d[a], &i->data[a], e - a);
    }
    i->data = d; i->durable = d; i->dirty.clear();
  }
}
bool diskRename(const str& a, const str& b) {
  auto i = world.files.find(a);
  if (i == world.files.end()) return false;
  auto p = i->second; world.files.erase(i); world.files[b] = p;
  return true;
}
}  // namespace sim
