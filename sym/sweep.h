#pragma once
#include "term.h"
struct SweepStats { uint64_t nodes = 0, merged = 0, queries = 0; };
extern SweepStats SWS;
T sweepRep(T t); // a term equal to t under every assignment
