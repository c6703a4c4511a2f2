// Counts the live heap allocations of the process (by interposing malloc, or by the sanitizer's hooks).
// To be included by one source file of a program.
#pragma once
#include <malloc.h>

#include <cerrno>
#include <cstddef>
#include <cstdint>

#if defined(__SANITIZE_ADDRESS__)
#define MEMTRACK_SANITIZER 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MEMTRACK_SANITIZER 1
#endif
#endif

namespace mem
{
static volatile int64_t blocks = 0, bytes = 0;
struct Live
{
    int64_t blocks, bytes;
};
inline Live live() { return {blocks, bytes}; }
} // namespace mem

#ifdef MEMTRACK_SANITIZER
extern "C"
{
    int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
    size_t __sanitizer_get_allocated_size(const volatile void*);
}
namespace mem
{
inline void on_malloc(const volatile void*, size_t n)
{
    blocks = blocks + 1;
    bytes  = bytes + int64_t(n);
}
inline void on_free(const volatile void* p)
{
    if (!p) return;
    blocks = blocks - 1;
    bytes  = bytes - int64_t(__sanitizer_get_allocated_size(p));
}
inline void start()
{
    static const int ok = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    (void)ok;
}
} // namespace mem
#else
// (the sizes that were asked for: what the allocator gives for the same request varies)
extern "C"
{
    void* __libc_malloc(size_t);
    void* __libc_memalign(size_t, size_t);
    void __libc_free(void*);
}
namespace mem
{
inline void start() {}
struct Head
{
    uint64_t size, offset;
};
inline Head& head(void* p) { return static_cast<Head*>(p)[-1]; }
inline void* got(void* base, size_t n, size_t offset)
{
    if (!base)
    {
        errno = ENOMEM;
        return nullptr;
    }
    void* p        = static_cast<char*>(base) + offset;
    head(p).size   = n;
    head(p).offset = offset;
    blocks         = blocks + 1;
    bytes          = bytes + int64_t(n);
    return p;
}
inline void* get(size_t n) { return got(n > SIZE_MAX / 2 ? nullptr : __libc_malloc(n + sizeof(Head)), n, sizeof(Head)); }
inline void* get(size_t a, size_t n)
{
    if (a < sizeof(Head)) a = sizeof(Head);
    return got(n > SIZE_MAX / 2 || a > SIZE_MAX / 4 ? nullptr : __libc_memalign(a, n + a), n, a);
}
inline void release(void* p)
{
    if (!p) return;
    blocks = blocks - 1;
    bytes  = bytes - int64_t(head(p).size);
    __libc_free(static_cast<char*>(p) - head(p).offset);
}
} // namespace mem
extern "C"
{
    void* malloc(size_t n) noexcept { return mem::get(n); }
    void* calloc(size_t a, size_t b) noexcept
    {
        size_t n;
        void* p = __builtin_mul_overflow(a, b, &n) ? nullptr : mem::get(n);
        if (p) __builtin_memset(p, 0, n);
        return p;
    }
    void* realloc(void* p, size_t n) noexcept
    {
        if (!p) return mem::get(n);
        if (!n)
        {
            mem::release(p);
            return nullptr;
        }
        void* q = mem::get(n);
        if (!q) return nullptr;
        __builtin_memcpy(q, p, n < mem::head(p).size ? n : mem::head(p).size);
        mem::release(p);
        return q;
    }
    void* memalign(size_t a, size_t n) noexcept { return mem::get(a, n); }
    void* aligned_alloc(size_t a, size_t n) noexcept { return mem::get(a, n); }
    int posix_memalign(void** p, size_t a, size_t n) noexcept
    {
        void* r = mem::get(a, n);
        if (!r) return ENOMEM;
        *p = r;
        return 0;
    }
    size_t malloc_usable_size(void* p) noexcept { return p ? mem::head(p).size : 0; }
    void free(void* p) noexcept { mem::release(p); }
}
#endif
