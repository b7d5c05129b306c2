// Memory is limited: a single request above the limit fails with std::bad_alloc (as on a small machine), so that
// sizes taken from corrupt files are seen as an ordinary exception instead of exhausting the sandbox.
#pragma once
#include <cstdlib>
#include <new>
static size_t const alloc_limit = 16u << 20;
static size_t alloc_refused = 0; // size of the last request above the limit
void* operator new(size_t n)
{
    if (n > alloc_limit) alloc_refused = n;
    void* p = n > alloc_limit ? nullptr : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
