// Tracks allocations made by the code under test (linker --wrap), so that a
// case can check that everything the library allocated has been released.
#pragma once
#include <cstddef>
size_t heap_live();          // blocks allocated by the library and not freed
void heap_reset();           // forget everything
size_t heap_biggest();       // largest single request since heap_reset()
