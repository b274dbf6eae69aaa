// Code compiled with -fsanitize=thread calls the functions below before every
// memory access. They are not ThreadSanitizer's: each access to memory other
// threads can reach is a scheduling point for the controlled scheduler, so
// that missing locks show up as interleavings inside the critical section.
#include "ctl.h"
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <pthread.h>

namespace sched {
// Chance (per 65536) that a memory access is a scheduling point.
int access_rate = 0;
}

namespace {

thread_local std::uintptr_t stack_low = 0, stack_high = 0;
thread_local std::uint32_t state = 0;
thread_local bool inside = false;

void find_stack()
{
    pthread_attr_t attributes;
    stack_low = 1; stack_high = 1;
    if(pthread_getattr_np(pthread_self(), &attributes) == 0) {
        void* address; std::size_t size;
        pthread_attr_getstack(&attributes, &address, &size);
        stack_low = reinterpret_cast<std::uintptr_t>(address);
        stack_high = stack_low + size;
        pthread_attr_destroy(&attributes);
    }
}

std::uint32_t next_random()
{
    if(state == 0) { state = 0x9E3779B9u; }
    state ^= state << 13; state ^= state >> 17; state ^= state << 5;
    return state;
}

inline void access(void const* p, char kind=0, int size=0)
{
    if((sched::access_rate == 0 && !sched::on_event) || inside ||
        sched::internal() || !sched::active()) { return; }
    inside = true;
    if(stack_high == 0) { find_stack(); }
    auto const address = reinterpret_cast<std::uintptr_t>(p);
    if(!(address >= stack_low && address < stack_high) &&
            static_cast<int>(next_random() & 0xFFFF) < sched::access_rate) {
        sched::point();
    }
    if(kind) { sched::event(kind, p, size); }
    inside = false;
}

// An atomic operation orders threads, depending on its memory order.
inline void before(void const* p, int order)
{
    access(p);
    if(inside || sched::internal() || !sched::active()) { return; }
    // Acquire, before the operation takes place; nobody can come in between.
    if(order != 0 && order != 3) { sched::event('A', p); }
}
inline void release(void const* p, int order)
{
    if(inside || sched::internal() || !sched::active()) { return; }
    if(order >= 3) { sched::event('L', p); }
}

} // namespace

namespace sched {
void seed_accesses(std::uint32_t seed) { state = seed ? seed : 1; }
}

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) {
    if(*p == v) { access(p, 'R', sizeof(p)); } else { access(p, 'W', sizeof(p)); } }
void __tsan_vptr_read(void** p) { access(p, 'R', sizeof(p)); }
void __tsan_read_range(void* p, std::size_t n) { access(p, 'R', n); }
void __tsan_write_range(void* p, std::size_t n) { access(p, 'W', n); }

#define ACCESS(n)                                                              \
    void __tsan_read##n(void* p) { access(p, 'R', n); }                                \
    void __tsan_write##n(void* p) { access(p, 'W', n); }                               \
    void __tsan_unaligned_read##n(void* p) { access(p, 'R', n); }                      \
    void __tsan_unaligned_write##n(void* p) { access(p, 'W', n); }                     \
    void __tsan_volatile_read##n(void* p) { access(p, 'R', n); }                       \
    void __tsan_volatile_write##n(void* p) { access(p, 'W', n); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)

#define ATOMIC(bits, T)                                                        \
    T __tsan_atomic##bits##_load(T const volatile* p, int o) {                   \
        before(const_cast<T*>(p), o); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(T volatile* p, T v, int o) {              \
        access(const_cast<T*>(p)); release(const_cast<T*>(p), o); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(T volatile* p, T v, int o) {                \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o); \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }                  \
    T __tsan_atomic##bits##_fetch_add(T volatile* p, T v, int o) {               \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o); \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }                   \
    T __tsan_atomic##bits##_fetch_sub(T volatile* p, T v, int o) {               \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o); \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }                   \
    T __tsan_atomic##bits##_fetch_and(T volatile* p, T v, int o) {               \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o); \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }                   \
    T __tsan_atomic##bits##_fetch_or(T volatile* p, T v, int o) {                \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o); \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }                    \
    T __tsan_atomic##bits##_fetch_xor(T volatile* p, T v, int o) {               \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o); \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }                   \
    T __tsan_atomic##bits##_fetch_nand(T volatile* p, T v, int o) {              \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o); \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }                  \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* c,     \
            T v, int o, int) {                                                   \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o);                                             \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,   \
            __ATOMIC_SEQ_CST); }                                               \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* c,       \
            T v, int o, int) {                                                   \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o);                                             \
        return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,   \
            __ATOMIC_SEQ_CST); }                                               \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile* p, T c, T v, int o, \
            int) {                                                             \
        before(const_cast<T*>(p), o); release(const_cast<T*>(p), o);                                             \
        __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST,         \
            __ATOMIC_SEQ_CST);                                                 \
        return c; }
ATOMIC(8, std::uint8_t) ATOMIC(16, std::uint16_t) ATOMIC(32, std::uint32_t)
ATOMIC(64, std::uint64_t)

void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
