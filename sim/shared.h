#pragma once
#include "core.h"
#include <atomic>
namespace sim {
struct SharedSlot {
  enum { MAXSW = 512 };
  volatile int cls;
  int opidx;
  uint64_t hash;
  uint32_t nfired;
  char msg[400];
  std::pair<uint32_t, uint8_t> sw[MAXSW];
  uint32_t nsw;
  bool swoverflow;
  volatile uint64_t cur; // run index being executed
  volatile int stage;
};
extern SharedSlot *SH;
void install_handlers();
}
