// Race-directed switch points: see fine.cc
#pragma once
#include <stdint.h>
namespace fine {
enum { N = 4096 };
struct Set { uint64_t pc[N]; int n; };
extern Set *cur, *next;      // cur: switch points in force; next: conflicting accesses seen (superset of cur)
extern bool linked;          // this binary has the instrumentation
bool has(const Set *s, uint64_t pc);
bool add(Set *s, uint64_t pc);
}
