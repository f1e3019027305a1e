// Freed memory is overwritten, so that code which still uses it fails soon even
// where AddressSanitizer cannot follow (fibers). Include in one source file.
#pragma once
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>

void* operator new(size_t n)
{
    if (void* p = std::malloc(n ? n : 1))
    {
        std::memset(p, 0xCD, n);
        return p;
    }
    throw std::bad_alloc();
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
    if (p) std::memset(p, 0xDD, malloc_usable_size(p));
    std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
