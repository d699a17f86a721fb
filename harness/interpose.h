// Control and observation of the interposed library calls (interpose.cpp).
#pragma once
#include <cstdint>
extern "C" {
// strict == 1: from now on each socket belongs to the thread that uses it first (owners are forgotten on every call)
void vi_phase(int strict);
// sockets of the harness itself (no delays, no rules)
void vi_ignore(void *socket);
// injected delays: percentage of calls, and up to how many microseconds
void vi_delays(int percent, int max_us, uint64_t seed);
// a description of the first violation of the socket rules, or null
const char *vi_violation(void);
void vi_reset(void);
// counters: 0 sends, 1 receives, 2 polls, 3 closes, 4 sockets created, 5 injected delays, 6 owner changes seen outside of the strict phase
uint64_t vi_count(int what);
// sleeps of at least 0.4 s are shortened to real = wanted / div (0: as they are); the difference is added to vi_skipped_ns
void vi_sleep_div(int div);
int64_t vi_skipped_ns(void);
// offset of the wall clock the program sees
void vi_realtime_offset(int64_t ns);
}
