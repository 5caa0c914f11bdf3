// Live heap memory: counted by replaced operators, or by the sanitizer's allocator where one is present.
#include <atomic>
#include <cstdlib>
#include <new>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define VH_SANITIZED 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VH_SANITIZED 1
#endif
#ifdef VH_SANITIZED
extern "C" size_t __sanitizer_get_current_allocated_bytes();
namespace vh
{
long live_memory()
{
  return (long)__sanitizer_get_current_allocated_bytes();
}
}  // namespace vh
#else
static std::atomic<long> g_live(0);
namespace vh
{
long live_memory()
{
  return g_live.load();
}
}  // namespace vh
void *operator new(size_t n)
{
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  g_live.fetch_add(1, std::memory_order_relaxed);
  return p;
}
void operator delete(void *p) noexcept
{
  if (p)
    g_live.fetch_sub(1, std::memory_order_relaxed);
  free(p);
}
void *operator new[](size_t n)
{
  return operator new(n);
}
void operator delete[](void *p) noexcept
{
  operator delete(p);
}
void operator delete(void *p, size_t) noexcept
{
  operator delete(p);
}
void operator delete[](void *p, size_t) noexcept
{
  operator delete(p);
}
#endif
