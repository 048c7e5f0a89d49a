#pragma once
#include "common.h"
struct Guarded {  // n bytes that end exactly at, or start exactly after, an inaccessible page
  uint8_t* m; long pg; 
  Guarded() { pg = sysconf(_SC_PAGESIZE); m = (uint8_t*)mmap(nullptr, pg * 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m, pg, PROT_NONE); mprotect(m + 2 * pg, pg, PROT_NONE); }
  uint8_t* at_end(size_t n) { return m + 2 * pg - n; }
  uint8_t* at_start() { return m + pg; }
};
static uint8_t* guarded_copy(Guarded& g, const Bytes& b, bool end) { uint8_t* p = end ? g.at_end(b.size()) : g.at_start(); if (b.size()) memcpy(p, b.data(), b.size()); return p; }

