// Command line of the simulator.
//   gen PROP SEED TIER            print the plan of a seed
//   judge FILE                    run one plan (replay), report
//   batch PROP FIRST COUNT STRIDE TIER SECONDS CURFILE OUTFILE
#include "ops.h"
#include <csignal>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <ctime>
#include <unistd.h>
#include <execinfo.h>
#include <ucontext.h>
using namespace sim;

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_malloc_fill_size=0:quarantine_size_mb=8:"
         "thread_local_quarantine_size_kb=256:exitcode=95:handle_segv=1:handle_abort=1:use_sigaltstack=1:check_initialization_order=0:"
         "detect_odr_violation=0:malloc_context_size=6:symbolize=0:alloc_dealloc_mismatch=0:print_legend=0:abort_on_error=0";
}
static struct sigaction oldSegv;
static void note(const char* s) { if (write(2, s, strlen(s)) < 0) {} }
static void onSegv(int sig, siginfo_t* si, void* uc) {
  if (arenaHas(si->si_addr)) {
    void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    char buf[300];
    snprintf(buf, sizeof buf, "SIM-CRASH shared-write a read-only operation writes to the shared object in %s\n", symName(pc).c_str());
    note(buf);
    _exit(96);
  }
  if (oldSegv.sa_flags & SA_SIGINFO) { oldSegv.sa_sigaction(sig, si, uc); return; }
  _exit(95);
}
static void onCpu(int) { note("SIM-CRASH hang the library does not return (processor time exhausted)\n"); _exit(97); }
static int curFd = -1, traceFdM = -1;
static int hangSeconds = 8;
static void armWatchdog() {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = hangSeconds;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void beforeRun(const Plan& p) {
  armWatchdog();
  if (curFd >= 0) {
    str t = p.text();
    if (pwrite(curFd, t.data(), t.size(), 0) < 0 || ftruncate(curFd, (off_t)t.size()) < 0) {}
  }
  if (traceFdM >= 0) { if (ftruncate(traceFdM, 0) < 0) {} lseek(traceFdM, 0, SEEK_SET); }
}
static str jesc(const str& s) {
  str o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += fmt("\\u%04x", (unsigned char)c); else o += c; }
  return o;
}
static str jmap(const std::map<str, u64>& m) {
  str s = "{"; bool first = true;
  for (auto& k : m) { s += fmt("%s\"%s\":%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
  return s + "}";
}
static str jset(const std::set<u64>& m, size_t cap) {
  str s = "["; bool first = true; size_t n = 0;
  for (u64 v : m) { if (n++ >= cap) break; s += fmt("%s\"%llx\"", first ? "" : ",", (unsigned long long)v); first = false; }
  return s + "]";
}
static str slurp(const char* f) {
  FILE* h = fopen(f, "rb"); if (!h) { fprintf(stderr, "cannot read %s\n", f); exit(3); }
  str s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s;
}
int main(int argc, char** argv) {
  // The same addresses on every run, so that nothing depends on them.
  if (!getenv("OSL_SIM_NOASLR")) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("OSL_SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
  }
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, &oldSegv);
  struct sigaction sp; memset(&sp, 0, sizeof sp); sp.sa_handler = onCpu; sp.sa_flags = SA_ONSTACK; sigaction(SIGPROF, &sp, nullptr);
  signal(SIGPIPE, SIG_IGN);
  sim_stderr = stderr; sim_stdout = stdout;
  setupProcess();
  str cmd = argc > 1 ? argv[1] : "";
  if (const char* h = getenv("OSL_SIM_HANG")) hangSeconds = atoi(h);
  aboutToRun = beforeRun;
  if (cmd == "gen" && argc > 4) { fputs(genPlan(argv[2], strtoull(argv[3], nullptr, 10), !strcmp(argv[4], "thorough")).text().c_str(), stdout); return 0; }
  if (cmd == "judge" && argc > 2) {
    Plan p; str err;
    if (!Plan::parse(slurp(argv[2]), p, err)) { fprintf(stderr, "bad plan: %s\n", err.c_str()); return 3; }
    if (argc > 3) curFd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (argc > 4) { traceFdM = open(argv[4], O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); traceTo(traceFdM); }
    Verdict v = judge(p);
    if (v.violated) { printf("RESULT violated %s\n%s\nPLAN\n%s", v.cls.c_str(), v.msg.c_str(), v.plan.text().c_str()); fflush(stdout); _exit(1); }
    printf("RESULT ok trace=%016llx checks=%llu execs=%llu\n", (unsigned long long)v.trace, (unsigned long long)stats.misc["checks"], (unsigned long long)v.execs);
    if (getenv("OSL_SIM_SHOW")) { aboutToRun = nullptr; RunResult R = runPlan(p); for (size_t c = 0; c < R.clients.size(); c++) { printf("--- client %zu state %d allocs %llu steps %llu\n", c, R.clients[c].state, (unsigned long long)R.clients[c].allocs, (unsigned long long)R.clients[c].steps); for (auto& t : R.clients[c].transcript) printf("%s\n", t.c_str()); printf("stderr: %s\n", R.clients[c].err.c_str()); } }
    return 0;
  }
  if (cmd == "batch" && argc > 9) {
    str prop = argv[2]; u64 first = strtoull(argv[3], nullptr, 10), count = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10);
    bool thorough = !strcmp(argv[6], "thorough"); double secs = atof(argv[7]);
    curFd = open(argv[8], O_RDWR | O_CREAT | O_TRUNC, 0644);
    str tf = str(argv[8]) + ".trace"; traceFdM = open(tf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); traceTo(traceFdM);
    FILE* out = fopen(argv[9], "w");
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    u64 plans = 0, execs = 0, digest = 0; bool viol = false;
    u64 i = 0;
    for (; i < count; i++) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (secs > 0 && (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec) > secs) break;
      u64 seed = first + i * stride;
      Plan p = genPlan(prop, seed, thorough);
      Verdict v = judge(p);
      plans++; execs += v.execs; digest += H(v.trace, seed);
      if (cover.samples.size() < 2) cover.samples.push_back(p.text());
      if (v.violated) {
        fprintf(out, "{\"violated\":true,\"seed\":%llu,\"cls\":\"%s\",\"msg\":\"%s\",\"plan\":\"%s\"}\n", (unsigned long long)seed, v.cls.c_str(), jesc(v.msg).c_str(), jesc(v.plan.text()).c_str());
        viol = true; i++;
        break;
      }
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    fprintf(out, "{\"done\":true,\"next\":%llu,\"plans\":%llu,\"execs\":%llu,\"digest\":\"%016llx\",\"secs\":%.3f,\"runs\":%llu,\"simtime\":%llu,\"switches\":%llu,\"steps\":%llu,\"allocs\":%llu,\"frees\":%llu,\"bytesIn\":%llu,\"bytesOut\":%llu,\"concurrentRuns\":%llu,",
            (unsigned long long)i, (unsigned long long)plans, (unsigned long long)execs, (unsigned long long)digest, (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec),
            (unsigned long long)stats.runs, (unsigned long long)stats.simTime, (unsigned long long)stats.switches, (unsigned long long)stats.steps, (unsigned long long)stats.allocs, (unsigned long long)stats.frees,
            (unsigned long long)stats.bytesIn, (unsigned long long)stats.bytesOut, (unsigned long long)cover.concurrentRuns);
    std::set<u64> blk; coverForEach([&](u64 v) { blk.insert(v); });
    str sm = "[";
    for (size_t k = 0; k < cover.samples.size(); k++) sm += (k ? "," : "") + str("\"") + jesc(cover.samples[k].substr(0, 3000)) + "\"";
    sm += "]";
    fprintf(out, "\"faults\":%s,\"ops\":%s,\"misc\":%s,\"coverops\":%s,\"probes\":%s,\"traces\":%s,\"states\":%s,\"cases\":%s,\"samples\":%s,\"blocks\":%s}\n", jmap(stats.faults).c_str(), jmap(stats.ops).c_str(), jmap(stats.misc).c_str(),
            jmap(cover.ops).c_str(), jmap(cover.probes).c_str(), jset(cover.traces, 200000).c_str(), jset(cover.states, 200000).c_str(), jset(cover.cases, 200000).c_str(), sm.c_str(), jset(blk, 200000).c_str());
    fclose(out);
    fflush(stdout);
    _exit(viol ? 1 : 0);
  }
  fprintf(stderr, "usage: sim gen|judge|batch ...\n");
  return 3;
}
