// Runner + interposed random number source.  Included once per harness.
#ifndef VERIF_MC_MAIN_H
#define VERIF_MC_MAIN_H
#include "mc.h"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <chrono>

namespace mc {
Rng rng;
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

struct Shared { int scenario; int n; int path[4000]; };
static Shared* shm_ = nullptr;
inline void Ctx::publish_()
{
  if (!shm_) return;
  int n = (int)std::min<size_t>(pos_, 4000);
  if (n > 0) shm_->path[n - 1] = path_[n - 1];
  shm_->n = n;
}
static int watchdog_s = 20;
static void on_alarm(int) { static const char m[] = "mc: WATCHDOG: one execution exceeded its time limit\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(78); }
static void arm() { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = watchdog_s; setitimer(ITIMER_REAL, &t, nullptr); }

static std::string jesc(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32) o += fmt("\\u%04x", ch);
    else if (ch > 126) o += '?';
    else o += ch;
  }
  return o + "\"";
}
static std::string jpath(const std::vector<int>& p)
{ std::string s = "["; for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + std::to_string(p[i]); return s + "]"; }

struct Runner {
  Ctx c;
  std::vector<std::pair<std::string, std::string>> samples;
  bool violated = false; std::string vmsg, vlog; std::vector<int> vpath;

  // returns 0 = passed, 1 = violated, 2 = skipped (other shard), 3 = known finding
  int once(const Scenario& s, bool trace)
  {
    c.pos_ = 0; c.acts_ = 0; c.tracing_ = trace; c.log_.clear(); c.shard_done_ = false; c.prod_ = 1;
    c.width_.resize(std::min(c.width_.size(), c.path_.size()));
    rng.reset();
    if (shm_) shm_->n = 0;
    arm();
    try { s.fn(c); }
    catch (Violation& v) { vmsg = v.msg; return 1; }
    catch (Known& k) { c.known_hits[k.id]++; return 3; }
    catch (Ctx::Skip&) { return 2; }
    catch (std::exception& e) { vmsg = std::string("unexpected exception: ") + e.what(); return 1; }
    if (c.nshards_ > 1 && !c.shard_done_ && c.shard_ != 0) return 2;
    return 0;
  }
  void explore(const Scenario& s)
  {
    c.path_.clear(); c.width_.clear();
    c.shard_prefix_.clear(); c.shard_counter_ = -1;
    uint64_t n = 0;
    for (;;) {
      uint64_t tr0 = c.transitions;
      bool trace = n < 2 || (n & (n - 1)) == 0;   // write out a few executions as samples
      int r = once(s, trace);
      if (r == 1) {
        violated = true; vpath.assign(c.path_.begin(), c.path_.begin() + c.pos_);
        return;
      }
      if (r == 2) { c.transitions = tr0; }
      else {
        c.executions++; n++;
        if (trace && !c.log_.empty()) {
          if (samples.size() >= 6) samples.erase(samples.begin() + 2);
          samples.push_back(std::make_pair(s.name, c.log_.substr(0, 600)));
        }
      }
      // next path
      c.path_.resize(c.pos_); c.width_.resize(c.pos_);
      while (!c.path_.empty() && c.path_.back() + 1 >= c.width_.back()) { c.path_.pop_back(); c.width_.pop_back(); }
      if (c.path_.empty()) break;
      c.path_.back()++;
    }
  }
};

static int mc_main(int argc, char** argv)
{
  std::string out, shmfile, only, known, statesfile; bool thorough = false, replay = false, list = false;
  std::vector<int> rpath; int shard = 0, nsh = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--list") list = true;
    else if (a == "--scenario") only = val();
    else if (a == "--thorough") thorough = true;
    else if (a == "--out") out = val();
    else if (a == "--states") statesfile = val();
    else if (a == "--shm") shmfile = val();
    else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &shard, &nsh); }
    else if (a == "--known") known = val();
    else if (a == "--watchdog") watchdog_s = atoi(val().c_str());
    else if (a == "--replay") { replay = true; std::stringstream ss(val()); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) rpath.push_back(atoi(t.c_str())); }
  }
  if (list) { for (auto& s : scenarios()) printf("%s %d\n", s.name.c_str(), s.shards); return 0; }
  const Scenario* sc = nullptr;
  for (auto& s : scenarios()) if (s.name == only) sc = &s;
  if (!sc) { fprintf(stderr, "mc: no scenario %s\n", only.c_str()); return 91; }
  signal(SIGALRM, on_alarm);
  if (!shmfile.empty()) {
    int fd = open(shmfile.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) { void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) shm_ = (Shared*)p; }
  }
  Runner R; R.c.thorough = thorough; R.c.shard_ = shard; R.c.nshards_ = nsh;
  { std::stringstream ss(known); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) R.c.known_ids.insert(t); }
  if (replay) {
    R.c.path_ = rpath; R.c.nshards_ = 1;
    int r = R.once(*sc, true);
    printf("TRACE %s\n", R.c.log_.c_str());
    if (r == 1) { printf("REPLAY-VIOLATION %s\n", R.vmsg.c_str()); return 40; }
    if (r == 3) { printf("REPLAY-KNOWN\n"); return 41; }
    printf("REPLAY-PASS\n"); return 0;
  }
  R.explore(*sc);
  if (R.violated) { // re-run the failing execution with tracing for the report
    R.c.path_ = R.vpath; R.c.width_.clear(); R.c.nshards_ = 1;
    std::string m = R.vmsg; int r = R.once(*sc, true); R.vlog = R.c.log_; if (r != 1) R.vmsg = m;
  }
  itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_REAL, &z, nullptr);
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"scenario\":%s,\"executions\":%llu,\"transitions\":%llu,\"checks\":%llu,\"states\":%llu,\"violated\":%s,\"msg\":%s,\"trace\":%s,\"path\":%s,",
            jesc(sc->name).c_str(), (unsigned long long)R.c.executions, (unsigned long long)R.c.transitions, (unsigned long long)R.c.checks,
            (unsigned long long)R.c.states.size(), R.violated ? "true" : "false", jesc(R.vmsg).c_str(), jesc(R.vlog).c_str(), jpath(R.vpath).c_str());
    fprintf(f, "\"known\":{");
    bool first = true;
    for (auto& k : R.c.known_hits) { fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < R.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jesc(R.samples[i].second).c_str());
    fprintf(f, "]}\n"); fclose(f);
  }
  if (!statesfile.empty()) {
    FILE* f = fopen(statesfile.c_str(), "wb");
    for (uint64_t h : R.c.states) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  fflush(stdout);
  _exit(0);
}
}  // namespace mc

#ifndef VERIF_NO_RNG_INTERPOSITION
// The executable's definitions pre-empt those of liborocos-bfl.so: every random
// number the library asks for is an answer of the scenario (the environment).
namespace mc_rng_ {
__attribute__((used, visibility("default"))) double u0() __asm__("_ZN3BFL5runifEv");
double u0() { double v = mc::rng.uni ? mc::rng.uni() : 0.5; mc::rng.nuni++; mc::rng.unis.push_back(v); return v; }
__attribute__((used, visibility("default"))) double u2(const double& a, const double& b) __asm__("_ZN3BFL5runifERKdS1_");
double u2(const double& a, const double& b) { double v = mc::rng.uni ? mc::rng.uni() : 0.5; mc::rng.nuni++; mc::rng.unis.push_back(v); return a + v * (b - a); }
__attribute__((used, visibility("default"))) double n2(const double& a, const double& b) __asm__("_ZN3BFL5rnormERKdS1_");
double n2(const double& a, const double& b) { double v = mc::rng.norm ? mc::rng.norm() : 0.0; mc::rng.nnorm++; mc::rng.norms.push_back(v); return a + v * b; }
}
#endif
int main(int argc, char** argv) { return mc::mc_main(argc, argv); }
#endif
