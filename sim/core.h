// Simulator core: seeded decisions, plan, fibers, clock, heap, I/O world.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {
typedef uint64_t u64;
typedef std::string str;

u64 mix(u64 x);
u64 H(u64 a, u64 b = 0, u64 c = 0, u64 d = 0);
str fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed ^ 0x9e3779b97f4a7c15ull)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  // uniform in [0,n)
  u64 below(u64 n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long)below((u64)(hi - lo + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
};

// ---------------------------------------------------------------- plan ----
struct OpLine {
  int client = 0;
  str name;
  std::map<str, long> a;
  long get(const char* k, long d = 0) const { auto i = a.find(k); return i == a.end() ? d : i->second; }
};
struct FaultLine {  // fault <kind> k=v...
  str kind;
  std::map<str, long> a;
  long get(const char* k, long d = 0) const { auto i = a.find(k); return i == a.end() ? d : i->second; }
};
struct PreLine { int client; u64 step; int to; };
struct Plan {
  str prop;
  u64 seed = 0;
  int nclients = 1;
  bool explicitSched = false;  // true: only the listed preemptions happen
  std::map<str, long> knobs;
  std::vector<OpLine> ops;
  std::vector<FaultLine> faults;
  std::vector<PreLine> pres;
  long knob(const char* k, long d = 0) const { auto i = knobs.find(k); return i == knobs.end() ? d : i->second; }
  str text() const;
  static bool parse(const str& text, Plan& out, str& err);
};

// ---------------------------------------------------------- run results ----
struct ClientResult {
  int state = 0;  // CState
  int exitCode = 0;
  str err;                      // everything printed on stderr
  str out;                      // stdout
  std::vector<str> transcript;  // one entry per op outcome
  u64 allocs = 0;               // allocations seen while armed
  u64 steps = 0;                // yield points
  u64 opsDone = 0;
  bool allocFailed = false, memCap = false;
  int ioFaults = 0;
  str failedIn;  // function whose allocation failed
};
struct Stats {
  u64 runs = 0, simTime = 0, switches = 0, steps = 0, allocs = 0, bytesIn = 0, bytesOut = 0, frees = 0;
  std::map<str, u64> faults;   // fired
  std::map<str, u64> ops;      // executed
  std::map<str, u64> kinds;    // object kinds touched
  std::map<str, u64> misc;
};
extern Stats stats;
struct RunResult {
  bool violated = false;
  str cls, msg;
  std::vector<ClientResult> clients;
  std::vector<PreLine> pres;  // preemptions that happened
  u64 trace = 0;              // hash of the schedule
  u64 outcome = 0;            // hash of everything the clients saw
  u64 simTime = 0;
  std::map<int, u64> chanBytes;  // channel -> bytes that went through
};

enum CState { READY, BLOCKED, SLEEP, DONE, EXITED, CRASHED };

// Report a violation and stop the whole run. Never returns. Callable from
// fibers and from the main context while a run is active.
[[noreturn]] void fail(const str& cls, const str& msg);

// ------------------------------------------------------------- clients ----
struct Client;
extern Client* cur;      // running client, or null in the main context
extern const Plan* plan; // plan being run
struct Client {
  int id = 0;
  CState state = READY;
  void* sp = nullptr;
  char* stack = nullptr;
  size_t stackSize = 0;
  void* fake = nullptr;
  std::vector<char> tls;  // thread-local data of the library, per client
  std::function<void()> body;
  std::function<bool()> ready;  // when BLOCKED
  u64 wake = 0;
  u64 step = 0;
  u64 clock0 = 0;
  bool armed = false;  // library code under test is running: faults may hit
  u64 allocNo = 0;
  u64 failAt = 0;       // allocation number that fails (1-based), 0: none
  long failLen = 1;     // how many consecutive fail
  u64 crashStep = 0;    // crash at this yield step (0: none)
  FILE *ferr = nullptr, *fout = nullptr;
  ClientResult res;
  u64 ctr[8] = {0};
  std::set<FILE*> open;
  void* user = nullptr;
  std::function<void(CState)> onExit;  // called when the client exits or crashes
  int precision = -1;  // simulated OSL_PRECISION (-1: unset)
  str precisionText;
};
enum YKind { Y_ALLOC = 1, Y_FREE, Y_READ, Y_WRITE, Y_DIAG, Y_OP, Y_CLOSE, Y_SLEEP, Y_BLOCK };
void coverForEach(const std::function<void(u64)>& f);  // basic blocks of the library which were entered
extern int inHarness;  // >0: harness code is running, no switch may happen
struct Quiet { Quiet() { inHarness++; } ~Quiet() { inHarness--; } };
void traceTo(int fd);
void yieldPoint(int kind);
void blockUntil(const std::function<bool()>& cond, const char* why);
void sleepFor(u64 t);
u64 now();
u64 decide(const char* tag, u64 mod);  // hash decision for current client
extern std::function<void(Client*)> onSwitch;  // called before leaving a client
extern std::function<void(Client*)> onResume;  // called when a client is entered

// Runs bodies as clients under the plan's schedule.
// setup is called before anything runs (main context).
struct World;
RunResult execute(const Plan& p, const std::vector<std::function<void()>>& bodies,
                  const std::function<void()>& setup, const std::function<void()>& afterAll);
Client* client(int i);
int nClients();

// ---------------------------------------------------------------- heap ----
struct Block { size_t size; int owner; u64 seq; void* ra; int op; };
extern "C" {
void* sim_malloc(size_t n);
void* sim_calloc(size_t n, size_t m);
void* sim_realloc(void* p, size_t n);
void sim_free(void* p);
char* sim_strdup(const char* s);
char* sim_strndup(const char* s, size_t n);
[[noreturn]] void sim_exit(int code);
[[noreturn]] void sim_abort(void);
char* sim_getenv(const char* name);
void* sim_gmp_alloc(size_t n);
void sim_gmp_free(void* p, size_t n);
void* sim_gmp_realloc(void* p, size_t o, size_t n);
extern FILE* sim_stderr;
extern FILE* sim_stdout;
}
void heapReset();
void libStateSave();     // the library's static data as the process starts
void libStateRestore();  // every run starts from it
void arenaOpen();
void arenaSeal(bool sealed);
bool arenaHas(void* p);
Block* heapFind(void* p);                       // exact start
size_t heapLive(int owner);
str heapLeakReport(int owner);
void heapForEach(const std::function<void(void*, const Block&)>& f);
void heapReown(int from, int to);
str symName(void* ra);
extern size_t heapLiveBytes, heapCap;

// ------------------------------------------------------------- I/O world ----
struct Chan {  // a pipe: bounded buffer
  std::deque<char> buf;
  size_t cap = 4096;
  bool wclosed = false, rclosed = false, wopened = false;
  bool slack = false;  // the reader waits for the writer to get on: no bound
  u64 in = 0, out = 0;
  str all;  // everything ever written
};
struct Inode {
  str data;     // as seen by processes
  str durable;  // as on the medium
  std::set<size_t> dirty;  // dirty 512-byte sectors
  bool metaDurable = false;
};
struct IoFault {
  int kind = 0;   // 1 EIO 2 ENOSPC 3 EPIPE 4 EINTR 5 EAGAIN 6 EOF(truncate) 7 writer dies
  long at = -1;   // byte offset at which it hits
  bool sticky = true;
  bool used = false;
};
struct Stream {
  int client = 0;
  bool write = false;
  Chan* chan = nullptr;     // pipe, or
  Inode* ino = nullptr;     // file, or
  str mem;                  // private bytes (reader)
  bool isMem = false;
  u64 pos = 0;
  FILE* f = nullptr;
  int chunk = 0;            // maximum chunk per callback, 0 unlimited
  u64 latency = 0;
  std::vector<IoFault> faults;
  int fired = 0;
  bool closed = false, dead = false;
};
struct World {
  std::vector<std::unique_ptr<Chan>> chans;
  std::map<str, std::shared_ptr<Inode>> files;         // current namespace
  std::map<str, std::shared_ptr<Inode>> durableNames;  // namespace on medium
  std::vector<std::unique_ptr<Stream>> streams;
  long diskFree = -1;  // remaining bytes, -1 unlimited
};
extern World world;
FILE* openStream(std::unique_ptr<Stream> s, int bufsize);  // bufsize <0: default, 0 unbuffered
Stream* streamOf(FILE* f);
void fsyncInode(Inode* i);
void diskCrash(u64 seed);  // what survives a crash
bool diskRename(const str& a, const str& b);
int simClose(FILE* f);
}  // namespace sim
