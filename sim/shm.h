// A fork-shared arena. Everything the simulator itself remembers (the simulated disk, the event
// log, the counters) lives here, so that it survives the death of a simulated process and so that
// the simulator's own allocations never disturb the simulated heap.
#ifndef SIM_SHM_H_
#define SIM_SHM_H_
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {

void shmInit(size_t size);
void* shmAlloc(size_t n);
void shmFree(void* p, size_t n);

template <class T>
struct ShmAlloc {
  typedef T value_type;
  ShmAlloc() noexcept {}
  template <class U> ShmAlloc(const ShmAlloc<U>&) noexcept {}
  T* allocate(size_t n) { return static_cast<T*>(shmAlloc(n * sizeof(T))); }
  void deallocate(T* p, size_t n) noexcept { shmFree(p, n * sizeof(T)); }
  template <class U> bool operator==(const ShmAlloc<U>&) const noexcept { return true; }
  template <class U> bool operator!=(const ShmAlloc<U>&) const noexcept { return false; }
};

typedef std::basic_string<char, std::char_traits<char>, ShmAlloc<char>> Str;
template <class T> using Vec = std::vector<T, ShmAlloc<T>>;
template <class K, class V> using Map =
  std::map<K, V, std::less<K>, ShmAlloc<std::pair<const K, V>>>;

}  // namespace sim
#endif
