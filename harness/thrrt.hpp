#pragma once
#include <cstddef>
#include <cstdint>
namespace rt {
struct Report { long accesses,common,syncs; int conflict,global,done,differs; uintptr_t addr; uint32_t pc1,pc2; char k1,k2; char what[400]; };
void begin(Report*); void enter(int); void leave(); bool active(); void note(const void*,size_t,bool); void* sbrk_hint();
}
