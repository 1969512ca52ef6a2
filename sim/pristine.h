// A process that has parsed nothing yet: what a unit looks like to it cannot
// depend on anything the worker did before.
#pragma once
#include "core.h"

namespace sim {
void start_pristine();   // call before the first use of the library
struct PristineItem {
  std::vector<Bytes> sets;   // stored before
  Bytes unit;                // unescaped bytes
  uint64_t hash = 0;         // of the report it got in the session
};
// Reports of these units by a new process, in this order, each on a state that
// has only seen the item's sets. SIZE_MAX: all as recorded; else the index of
// the first that differs. *crashed: the process died.
size_t pristine(const std::vector<const PristineItem*>& items, uint64_t fill, bool* crashed);
}  // namespace sim
