// Harness runtime: sharding, violation recording, crash / hang attribution, summary.
#ifndef VERIF_RUN_HPP
#define VERIF_RUN_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
namespace vr {
static const size_t CUR = 8192;
static char* cur_map = nullptr; static char cur_local[CUR];
static volatile unsigned long tick = 0, last_tick = 0; static volatile int stale = 0;
static int hang_seconds = 60;
static int shard = 0, nshards = 1; static bool thorough = false; static std::string outfile;
static unsigned long states = 0, transitions = 0, validated = 0, nontrivial = 0, idx = 0;
static std::map<std::string, unsigned long> counters;
struct Viol { std::string key, detail; };
static std::vector<Viol> viols; static std::set<std::string> vkeys; static unsigned long nviol = 0;
static std::vector<std::string> samples;
inline void cur(std::string const& s) {
  ++tick; char* d = cur_map ? cur_map : cur_local; size_t n = s.size() < CUR - 1 ? s.size() : CUR - 1; memcpy(d, s.data(), n); d[n] = 0;
}
__attribute__((no_sanitize("thread"), noinline)) inline void on_alarm(int) {   // not an access of the program under test
  if (tick == last_tick) { if (++stale >= hang_seconds) { const char m[] = "\nHARNESS-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(86); } }
  else { last_tick = tick; stale = 0; }
}
inline bool fail(std::string const& key, std::string const& detail) {
  ++nviol;
  if (viols.size() < 200 && vkeys.insert(key).second) viols.push_back(Viol{key, detail});
  return false;
}
inline void sample(std::string const& s) { if (samples.size() < 4 || (samples.size() < 8 && (states & 1023) == 7)) samples.push_back(s.substr(0, 300)); }
inline bool mine() { return (int)(idx++ % (unsigned long)nshards) == shard; }
inline std::string esc(std::string const& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
inline void init(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--shard") { shard = atoi(argv[++i]); nshards = atoi(argv[++i]); }
    else if (a == "--thorough") thorough = true;
    else if (a == "--out") outfile = argv[++i];
    else if (a == "--cur") { int fd = open(argv[++i], O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd >= 0 && !ftruncate(fd, CUR)) cur_map = (char*)mmap(0, CUR, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (cur_map == MAP_FAILED) cur_map = nullptr; }
  }
  signal(SIGALRM, on_alarm);
  struct itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &tv, 0);
}
inline int finish() {
  FILE* f = outfile.empty() ? stdout : fopen(outfile.c_str(), "w");
  fprintf(f, "{\"states\":%lu,\"transitions\":%lu,\"validated\":%lu,\"nontrivial\":%lu,\"nviol\":%lu,\"counters\":{", states, transitions, validated, nontrivial, nviol);
  bool first = true; for (auto& c : counters) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", esc(c.first).c_str(), c.second); first = false; }
  fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
  fprintf(f, "],\"violations\":["); for (size_t i = 0; i < viols.size(); ++i) fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", i ? "," : "", esc(viols[i].key).c_str(), esc(viols[i].detail).c_str());
  fprintf(f, "]}\n"); fflush(f); if (f != stdout) fclose(f);
  return 0;
}
}
#endif
