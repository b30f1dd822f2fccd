// A runtime that takes the place of libgomp and libtsan: OpenMP threads are run
// one at a time, and every choice of the next thread is made by a schedule.
#pragma once
#include <cstdint>
#include <cstddef>
namespace rt {
const int MAXT = 8, MAXP = 20000, MAXC = 4096, TEXT = 1 << 17;
struct Point { uint8_t enabled, chosen, cur, free_switch; };     // bit mask; thread; thread before
struct Shared {        // between the explorer and the process that executes a schedule
  int npoints; Point p[MAXP]; uint64_t progress[MAXP];
  int nconf; uintptr_t conf[MAXC];        // granules accessed by several threads without a common lock
  int deadlock, overflow, done, diverged, max_team; long accesses; char msg[4096];
};
struct Config { int max_threads, team; const uint8_t* prefix; int nprefix; const uintptr_t* conf; int nconf; int loop_mode; };
extern "C" {
void rt_begin(const Config* c, Shared* s);       // start of the scheduled execution
void rt_end();
void rt_point_output();                           // scheduling point: output to the console
bool rt_in_region();
void rt_team(void (*fn)(void*), void* data, int n);      // scheduled threads of the harness; parallel regions inside have one thread
int rt_thread();
}
}
