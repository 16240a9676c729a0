// Simulation build of the extension module: the real source of the binding
// is compiled as is, with
//   * the cooperative interruption facility switched on,
//   * "operator new"/"operator delete" of this shared object replaced
//     (failing allocations, junk filling, quarantine, address shuffling),
//   * function entries of the library (-finstrument-functions) counted, they
//     are simulated time and the points at which interruption requests arrive
//     and (only if the interpreter lock is not held) threads are switched,
//   * releases of the interpreter lock and basic blocks executed without it
//     (-fsanitize-coverage=trace-pc) made points of switching too.
#define USE_WAGYU_INTERRUPT
#include <Python.h>
__attribute__((no_instrument_function, no_sanitize_coverage,
               visibility("hidden"))) PyThreadState*
sim_save_thread(void);
#define PyEval_SaveThread sim_save_thread
#include SIM_MAIN_SOURCE
#undef PyEval_SaveThread

#include <malloc.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

// templates of the standard library would be instrumented too
#define LOAD(variable) __atomic_load_n(&variable, __ATOMIC_RELAXED)
#define INCREMENT(variable) __atomic_add_fetch(&variable, 1, __ATOMIC_RELAXED)
#define SIM_EXPORT extern "C" __attribute__((visibility("default")))
#define SIM_NOTRACE \
  __attribute__((no_instrument_function, no_sanitize_coverage))

namespace {
typedef void (*yield_t)(void);

const std::size_t QUARANTINE = 512;

// written by the running thread only, threads are never run in parallel
// unless the interpreter lock is released by the library itself
std::uint64_t allocations = 0;
std::uint64_t all_allocations = 0;
std::uint64_t entries = 0;
std::int64_t live = 0;
std::int64_t live_bytes = 0;
std::uint64_t failed = 0;
std::uint64_t requested = 0;
std::uint64_t yields = 0;
std::uint64_t fail_at = 0;
std::uint64_t request_at = 0;
std::uint64_t budget = 0;
yield_t yield_callback = nullptr;
bool junk = false;
bool shuffle = false;
std::uint64_t state = 88172645463325252ull;
void* quarantine[QUARANTINE];
std::size_t quarantine_index = 0;
bool heap_lock = false;

thread_local int depth = 0;
thread_local bool busy = false;
thread_local std::uint64_t blocks = 0;
thread_local void* frames[64];

// places are told apart by functions which have led to them, one of passages
// of each of them is kept
struct place {
  std::uint64_t key, count, index;
};
const std::size_t PLACES = 1 << 13;
struct places {
  place items[PLACES];
  std::size_t size;
};
places allocation_places, entry_places;
bool recording = false;
std::uint64_t allocations_base = 0;
std::uint64_t entries_base = 0;
std::uint64_t place_state = 1;

SIM_NOTRACE std::uint64_t next_random() {
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  return state;
}

SIM_NOTRACE std::uint64_t mixed(std::uint64_t value, void* address) {
  value ^= static_cast<std::uint64_t>(reinterpret_cast<char*>(address) -
                                      reinterpret_cast<char*>(&recording));
  value *= 0x9e3779b97f4a7c15ull;
  return value ^ (value >> 29);
}

SIM_NOTRACE void record(places& where, void* address, std::uint64_t index) {
  std::uint64_t key = mixed(1, address);
  for (int i = depth - 1; i >= 0 && i >= depth - 3; --i)
    if (i < 64) key = mixed(key, frames[i]);
  if (key == 0) key = 1;
  for (std::size_t i = key % PLACES;; i = (i + 1) % PLACES) {
    place& item = where.items[i];
    if (item.key == 0) {
      if (where.size >= PLACES / 2) return;
      where.size++;
      item.key = key;
      item.count = 0;
    }
    if (item.key == key) {
      place_state = place_state * 6364136223846793005ull + 1442695040888963407ull;
      if ((place_state >> 33) % ++item.count == 0) item.index = index;
      return;
    }
  }
}

SIM_NOTRACE void forget(places& where) {
  std::memset(where.items, 0, sizeof(where.items));
  where.size = 0;
}

struct heap_guard {
  SIM_NOTRACE heap_guard() {
    while (__atomic_test_and_set(&heap_lock, __ATOMIC_ACQUIRE)) {
    }
  }
  SIM_NOTRACE ~heap_guard() { __atomic_clear(&heap_lock, __ATOMIC_RELEASE); }
};

// at the end of every block, blocks allocated by others have none
struct footer {
  std::uint64_t check, size;
};

SIM_NOTRACE std::uint64_t check_of(void* pointer) {
  return reinterpret_cast<std::uint64_t>(pointer) ^ 0x5bd1e995c6a4a793ull;
}

SIM_NOTRACE char* footer_of(void* pointer) {
  return static_cast<char*>(pointer) + malloc_usable_size(pointer) -
         sizeof(footer);
}

SIM_NOTRACE void acquired(void* pointer, std::size_t size) {
  footer const value = {check_of(pointer), size};
  std::memcpy(footer_of(pointer), &value, sizeof(value));
  INCREMENT(live);
  __atomic_add_fetch(&live_bytes, static_cast<std::int64_t>(size),
                     __ATOMIC_RELAXED);
}

SIM_NOTRACE void released(void* pointer) {
  footer value;
  std::memcpy(&value, footer_of(pointer), sizeof(value));
  __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
  if (value.check != check_of(pointer)) return;
  __atomic_sub_fetch(&live_bytes, static_cast<std::int64_t>(value.size),
                     __ATOMIC_RELAXED);
  value.check = 0;
  std::memcpy(footer_of(pointer), &value, sizeof(value));
}
}  // namespace

SIM_NOTRACE void* operator new(std::size_t requested_size) {
  INCREMENT(all_allocations);
  if (depth > 0) {
    std::uint64_t const index = INCREMENT(allocations);
    if (recording)
      record(allocation_places, __builtin_return_address(0),
             index - allocations_base);
    std::uint64_t const target = LOAD(fail_at);
    if (target != 0 && index == target) {
      INCREMENT(failed);
      throw std::bad_alloc();
    }
  }
  std::size_t const size =
      (requested_size == 0 ? 1 : requested_size) + sizeof(footer);
  if (size < requested_size) throw std::bad_alloc();
  void* result = nullptr;
  if (junk || shuffle) {
    heap_guard guard;
    if (shuffle) {
      void* spare[3];
      int const count = static_cast<int>(next_random() % 4);
      for (int i = 0; i < count; ++i) spare[i] = std::malloc(size);
      result = std::malloc(size);
      if (count) {
        int const choice = static_cast<int>(next_random() % (count + 1));
        if (choice < count) {
          void* const other = spare[choice];
          spare[choice] = result;
          result = other;
        }
      }
      for (int i = 0; i < count; ++i) std::free(spare[i]);
    } else {
      result = std::malloc(size);
    }
    if (result != nullptr && junk)
      std::memset(result, static_cast<int>(next_random() & 0xff),
                  malloc_usable_size(result));
  } else {
    result = std::malloc(size);
  }
  if (result == nullptr) throw std::bad_alloc();
  acquired(result, requested_size);
  return result;
}

SIM_NOTRACE void operator delete(void* pointer) noexcept {
  if (pointer == nullptr) return;
  released(pointer);
  if (junk) {
    heap_guard guard;
    std::memset(pointer, static_cast<int>(next_random() | 0x81),
                malloc_usable_size(pointer));
    void* victim = quarantine[quarantine_index];
    quarantine[quarantine_index] = pointer;
    quarantine_index = (quarantine_index + 1) % QUARANTINE;
    pointer = victim;
  }
  std::free(pointer);
}
SIM_NOTRACE void operator delete(void* pointer, std::size_t) noexcept {
  operator delete(pointer);
}

PyThreadState* sim_save_thread(void) {
  PyThreadState* const result = PyEval_SaveThread();
  yield_t const callback = LOAD(yield_callback);
  blocks = 0;
  if (callback != nullptr && !busy) {
    busy = true;
    INCREMENT(yields);
    callback();
    busy = false;
  }
  return result;
}

namespace {
SIM_NOTRACE void give_way(yield_t callback) {
  busy = true;
  INCREMENT(yields);
  callback();
  busy = false;
}
}  // namespace

extern "C" SIM_NOTRACE void __cyg_profile_func_enter(void* function,
                                                     void* call) {
  if (depth < 64) frames[depth] = function;
  ++depth;
  if (busy) return;
  std::uint64_t const index = INCREMENT(entries);
  if (recording) record(entry_places, call, index - entries_base);
  std::uint64_t const target = LOAD(request_at);
  if (target != 0 && index == target) {
    INCREMENT(requested);
    mapbox::geometry::wagyu::interrupt_request();
  }
  std::uint64_t const limit = LOAD(budget);
  if (limit != 0 && index > limit) {
    // no progress, the process is a disposable child of the simulator
    _exit(77);
  }
  yield_t const callback = LOAD(yield_callback);
  if (callback != nullptr && !PyGILState_Check()) give_way(callback);
}
extern "C" SIM_NOTRACE void __cyg_profile_func_exit(void*, void*) { --depth; }
// every basic block
extern "C" SIM_NOTRACE void __sanitizer_cov_trace_pc(void) {
  yield_t const callback = LOAD(yield_callback);
  if (callback == nullptr || busy || PyGILState_Check()) return;
  // long executions are not stopped at all of them
  if (++blocks > 3000 && blocks % 61 != 0) return;
  give_way(callback);
}

SIM_EXPORT SIM_NOTRACE void sim_environment(std::uint64_t seed, int fill,
                                            int shuffled) {
  state = seed * 2862933555777941757ull + 3037000493ull;
  if (state == 0) state = 1;
  junk = fill != 0;
  shuffle = shuffled != 0;
}
SIM_EXPORT SIM_NOTRACE void sim_arm(std::uint64_t allocation,
                                    std::uint64_t request,
                                    std::uint64_t entries_limit) {
  fail_at = allocation ? LOAD(allocations) + allocation : 0;
  request_at = request ? LOAD(entries) + request : 0;
  budget = entries_limit ? LOAD(entries) + entries_limit : 0;
}
SIM_EXPORT SIM_NOTRACE void sim_disarm(void) {
  fail_at = 0;
  request_at = 0;
  budget = 0;
}
SIM_EXPORT SIM_NOTRACE void sim_record(int on) {
  recording = on != 0;
  if (!recording) return;
  place_state = 1;
  allocations_base = LOAD(allocations);
  entries_base = LOAD(entries);
  forget(allocation_places);
  forget(entry_places);
}
SIM_EXPORT SIM_NOTRACE std::size_t sim_places(int of_allocations,
                                              std::uint64_t* result,
                                              std::size_t limit) {
  places const& where = of_allocations ? allocation_places : entry_places;
  std::size_t size = 0;
  for (std::size_t i = 0; i < PLACES && size < limit; ++i)
    if (where.items[i].key != 0) result[size++] = where.items[i].index;
  return size;
}
SIM_EXPORT SIM_NOTRACE void sim_request(void) {
  INCREMENT(requested);
  mapbox::geometry::wagyu::interrupt_request();
}
SIM_EXPORT SIM_NOTRACE int sim_pending(void) {
  return WAGYU_INTERRUPT_REQUESTED ? 1 : 0;
}
SIM_EXPORT SIM_NOTRACE void sim_reset_request(void) {
  mapbox::geometry::wagyu::interrupt_reset();
}
SIM_EXPORT SIM_NOTRACE void sim_set_yield(yield_t callback) {
  yield_callback = callback;
}
SIM_EXPORT SIM_NOTRACE void sim_counters(std::uint64_t* result) {
  result[0] = LOAD(allocations);
  result[1] = LOAD(entries);
  result[2] = static_cast<std::uint64_t>(LOAD(live));
  result[3] = LOAD(failed);
  result[4] = LOAD(requested);
  result[5] = LOAD(yields);
  result[6] = LOAD(all_allocations);
  result[7] = static_cast<std::uint64_t>(LOAD(live_bytes));
}
