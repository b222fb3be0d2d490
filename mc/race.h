// Between the scheduler and the race detector.
#pragma once
#include <cstddef>
#include <vector>
#include "mc_race.h"
namespace mc::race {
void begin();                                     // of an execution
void end();
void spawned(std::size_t parent, std::size_t child, const char *stack, std::size_t size);
void joined(std::size_t child);                   // by the running fiber
void switch_tls(std::vector<char> &from, std::vector<char> &to);
void running(std::size_t fiber);                  // 0: none
}
