// Shared support for the concrete companions: current-input recording, failure reporting, deterministic randomness.
#ifndef DV_H_H
#define DV_H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sstream>

namespace h {
extern char* cur_buf;      // mmapped file "cur.txt": survives a crash
extern long evals;
extern int fails;
extern uint64_t rng_state;
inline uint64_t rnd() {
  rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
  return rng_state * 2685821657736338717ULL >> 11;
}
inline int rint_(int n) { return n <= 0 ? 0 : (int)(rnd() % n); }
std::string q(const std::string& s);           // printable rendering
void cur(const std::string& what);             // what is being executed now
void fail(const std::string& what);            // property violated on the current input
inline void check(bool ok, const std::string& what) { ++evals; if (!ok) fail(what); }
std::string f(const char* fmt, ...);

// a tiny independent XML reader (oracle side: does not use the code under test or expat)
struct Node {
  std::string name;
  std::vector<std::pair<std::string, std::string> > attrs;
  std::vector<Node> kids;
  std::string text;
  bool ok;
  std::string err;
  const std::string* attr(const std::string& n) const {
    for (size_t i = 0; i < attrs.size(); ++i) if (attrs[i].first == n) return &attrs[i].second;
    return NULL;
  }
};
Node xml(const std::string& s);                // .ok false + .err when not well formed

typedef void (*Section)();
struct Reg { Reg(const char* n, Section s); };
std::map<std::string, Section>& sections();
extern int tier;                               // 0 quick, 1 thorough
}
#define SECTION(n) static void sec_##n(); static h::Reg reg_##n(#n, sec_##n); static void sec_##n()
#endif
