#include "live.h"
#include <cstddef>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));

namespace live {
    static long balance = 0;
    static void onMalloc(const volatile void*, size_t) { ++balance; }
    static void onFree(const volatile void* p) {
        if (p)
            --balance;
    }

    void install() {
        static bool done = false;
        if (!done)
            __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
        done = true;
    }

    long count() { return balance; }

    long leftBy(const std::function<void()>& operation) {
        install();
        long left = 0;
        for (int i = 0; i < 4; ++i) {
            long before = balance;
            operation();
            left = balance - before;
            if (left == 0)
                return 0;
        }
        return left;
    }
}
