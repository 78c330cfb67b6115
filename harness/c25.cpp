// The synchronous timer: any non-decreasing monotonic clock readings.
#include "common.h"
#include "clock.h"
#ifndef SECBITS
#define SECBITS 31
#endif
static timespec last; static bool have = false; static int reads = 0;
static void now_ts(clockid_t id, struct timespec *ts) {
  ts->tv_sec = sym_u64("sec"); ts->tv_nsec = sym_u64("nsec");
  sym_assume((ts->tv_sec >= 0) & (ts->tv_sec < (1l << SECBITS))); sym_assume((ts->tv_nsec >= 0) & (ts->tv_nsec < 1000000000l));
  if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME || id == CLOCK_MONOTONIC_COARSE) {
    if (have) sym_assume((ts->tv_sec > last.tv_sec) | ((ts->tv_sec == last.tv_sec) & (ts->tv_nsec >= last.tv_nsec)));
    last = *ts; have = true; reads++;
  } // any other clock may be set back at any time
}
// the metric agrees with the exact difference up to the resolution of the two time stamps
static void check(double m, timespec a, timespec b) {
  sym_assert(m >= 0.0, "an elapsed time is never negative");
  long d = (b.tv_sec - a.tv_sec) * 1000000000l + (b.tv_nsec - a.tv_nsec);
  double tol = (double)(1ul << SECBITS) / (double)(1ul << 52) * 3.0 * 1e9; // nanoseconds: the roundings of two time stamps, their difference and this comparison
  double diff = m * 1e9 - (double)d;
  sym_assert((int)(diff <= tol) & (int)(-diff <= tol), "the metric is the elapsed time");
}
static void exec(std::unique_ptr<Apollo::Timer> &t) {
  int r0 = reads; t->start(); timespec a = last; sym_assert(reads > r0, "start reads the clock"); r0 = reads; t->stop(); timespec b = last; sym_assert(reads > r0, "stop reads the clock");
  double m; sym_assert(t->isDone(m), "a synchronous execution is finished when it ends"); check(m, a, b);
}
static void region() {
  sym_setenv("APOLLO_PERSISTENT_DATASETS", "1");
  Apollo::Region *r = new Apollo::Region(1, "t", 2, 0, "RoundRobin");
  auto *c = r->begin(FV(1, 1.f)); timespec a = last; r->getPolicyIndex(c); r->end(c); timespec b = last;
  auto v = r->dataset.toVectorOfTuples(); sym_assert(v.size() == 1, "recorded"); check(std::get<2>(v[0]), a, b); sym_reach("region");
}
extern "C" void sym_main() {
  if (pick(0, 1, "how")) return region();
  auto t = Apollo::Timer::create<Apollo::Timer::Sync>();
  exec(t); sym_reach("first"); if (pick(0, 1, "again")) { exec(t); sym_reach("again"); }
}
