// C interface of a parser build, loaded with dlopen: lets one checker drive
// several builds (configurations, compiler fillings) of the same sources.
#pragma once
#include <stddef.h>
#include <stdint.h>
enum { SHIM_NAL = 0, SHIM_NAL_RAW = 1, SHIM_ANNEXB = 2, SHIM_LEN4 = 3, SHIM_RTP = 4, SHIM_ANNEXB_OWN = 5 };
typedef struct shim_session shim_session;
typedef struct shim_result shim_result;
extern "C" {
typedef struct {
  shim_session* (*session_new)();
  void (*session_free)(shim_session*);
  uint64_t (*session_digest)(const shim_session*);
  shim_result* (*parse)(shim_session*, int how, const uint8_t* d, size_t n, int opts);
  // digest of everything the result reports: elements, status, positions, checksums, dump text
  uint64_t (*digest)(const shim_result*, int with_dump);
  uint64_t (*dump_digest)(const shim_result*);
  char* (*text)(const shim_result*);  // malloc'ed: elements (and dump, if the build has it)
  void (*free_result)(shim_result*);
  uint32_t (*unimplemented)();
} shim_api;
}
