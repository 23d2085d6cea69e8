#pragma once
#include "h.h"
namespace steady {
using namespace h;
// Memory in use after each of a number of rounds that all do the same and undo
// it.  The first rounds are free: containers reach their capacity, and some keep
// one thing that is over.  After that, neither the number of blocks nor their
// size may keep growing.
struct Account {
  enum { WARM = 3, BLOCKS = 4 };
  std::vector<u64> blocks, bytes;
  u64 slack;      // how much more room containers may come to keep
  Account(int rounds, u64 room) : slack(room) { blocks.reserve((size_t)rounds); bytes.reserve((size_t)rounds); }
  void round(int) { blocks.push_back(dsim::live_blocks()); bytes.push_back(dsim::live_bytes()); dsim::log_event(blocks.back(), bytes.back()); }
  void judge() const {
    const size_t n = blocks.size();
    if (n < WARM + 4) fail("too few rounds");
    std::string s;
    for (size_t i = 0; i < n; i++) s += fmt(" %llu/%llu", (unsigned long long)blocks[i], (unsigned long long)bytes[i]);
    // (medians: one round may happen to keep something longer)
    auto mid = [](u64 a, u64 b, u64 c) { return std::max(std::min(a, b), std::min(std::max(a, b), c)); };
    u64 b0 = mid(blocks[WARM - 1], blocks[WARM], blocks[WARM + 1]), b1 = mid(blocks[n - 3], blocks[n - 2], blocks[n - 1]);
    require(b1 <= b0 + BLOCKS, "memory accumulates although every round undoes what it did (blocks/bytes in use after each round:" + s + ")");
    u64 y0 = mid(bytes[WARM - 1], bytes[WARM], bytes[WARM + 1]), y1 = mid(bytes[n - 3], bytes[n - 2], bytes[n - 1]);
    require(y1 <= y0 + slack, "memory accumulates although every round undoes what it did (blocks/bytes in use after each round:" + s + ")");
  }
};
}  // namespace steady
