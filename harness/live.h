// Accounting of live allocations (through the hooks of the sanitizers' allocator).
#pragma once
#include <functional>

namespace live {
    void install();
    long count();  // allocations minus releases so far in this process
    // Allocations left by an operation. The operation is repeated when something is left, so that what is only
    // allocated once (caches of the standard library) does not count.
    long leftBy(const std::function<void()>& operation);
}
