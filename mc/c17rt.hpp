// Controlled scheduler and happens-before monitor under code compiled with -fsanitize=thread (only the
// instrumentation is used; this is the runtime it calls).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace rt {
struct Seg { int tid; long stop; };            // run thread tid until its access number `stop` (-1: to its end)
struct Race { bool found = false; uintptr_t addr = 0; uintptr_t pc[2] = {0, 0}; bool write[2] = {false, false}; int tid[2] = {0, 0}; };
struct Result { std::vector<long> count; Race race; bool deadlock = false; std::vector<std::vector<long>> shared; };  // shared: positions of accesses to static data and atomics
// runs the bodies in that many fresh threads under the schedule; monitor: check happens-before
Result run(const std::vector<std::function<void()>>& body, const std::vector<Seg>& schedule, bool monitor);
void quiesce();                                 // memory freed so far may be reused from here on
std::string where(uintptr_t pc);
}
