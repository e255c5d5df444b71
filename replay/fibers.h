// cooperative scheduling of the real code: every access to a queue cursor or slot mark is a scheduling point, chosen from the seed
#pragma once
#include <atomic>
#include <thread>
#include <chrono>
#include <map>
#include <vector>
#include <functional>
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <mutex>
#include <condition_variable>
struct Fibers
{
    struct F { ucontext_t c; std::function<void()> fn; bool done; std::vector<char> stack; std::map<const void*, unsigned long> seen; int weight; };
    std::vector<F*> f; ucontext_t main; int cur = -1; uint64_t s = 1; unsigned long steps = 0, limit = 400000; bool aba = false, stuck = false; int len = 1 << 30;
    uint64_t r() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    static Fibers& get() { static Fibers x; return x; }
    static void entry() { Fibers& x = get(); F* me = x.f[x.cur]; me->fn(); me->done = true; while (true) swapcontext(&me->c, &x.main); }
    void yield() { if (cur < 0) return; F* me = f[cur]; swapcontext(&me->c, &main); }
    void stall() { if (cur < 0) return; uint64_t k = r(); for (int i = k % 30 == 0 ? (int)(k / 30 % 1000) : k % 3 == 0 ? (int)(k / 3 % 8) : 1; i > 0; i--) yield(); }
    void run(std::vector<std::function<void()>> fs, uint64_t seed)
    {
        for (F* x : f) delete x;
        f.clear(); s = seed * 0x9E3779B97F4A7C15ULL | 1; steps = 0; aba = stuck = false;
        for (auto& fn : fs) { F* x = new F(); x->fn = fn; x->done = false; x->stack.resize(256 << 10); getcontext(&x->c); x->c.uc_stack.ss_sp = x->stack.data(); x->c.uc_stack.ss_size = x->stack.size(); x->c.uc_link = nullptr; makecontext(&x->c, (void(*)())entry, 0); x->weight = 1; f.push_back(x); }
        while (true)
        {
            int total = 0;
            if (r() % 40 == 0) for (F* x : f) x->weight = 1 << (r() % 7);
            for (F* x : f) if (!x->done) total += x->weight;
            if (!total) break;
            if (++steps > limit) { stuck = true; break; }
            int k = (int)(r() % total);
            for (size_t i = 0; i < f.size(); i++) { if (f[i]->done) continue; k -= f[i]->weight; if (k < 0) { cur = (int)i; break; } }
            swapcontext(&main, &f[cur]->c);
            cur = -1;
        }
    }
};
namespace std
{
    struct vp_atomic_int
    {
        int v; unsigned int gen;
        vp_atomic_int() = default;
        vp_atomic_int(int x) : v(x), gen(0) {}
        vp_atomic_int(const vp_atomic_int&) = delete;
        unsigned long& seen() const { Fibers& x = Fibers::get(); static unsigned long none; return x.cur < 0 ? none : x.f[x.cur]->seen[this]; }
        int load(memory_order = memory_order_seq_cst) const { Fibers::get().yield(); seen() = gen; return v; }
        void store(int x, memory_order = memory_order_seq_cst) { Fibers::get().yield(); v = x; gen++; }
        operator int() const { return load(); }
        int operator=(int x) { store(x); return x; }
        int exchange(int x, memory_order = memory_order_seq_cst) { Fibers::get().yield(); int o = v; v = x; gen++; return o; }
        bool compare_exchange_strong(int& e, int d, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst)
        {
            Fibers::get().yield();
            if (v != e) { e = v; seen() = gen; return false; }
            Fibers& x = Fibers::get();
            if (x.cur >= 0 && gen - (unsigned)seen() >= (unsigned)x.len) x.aba = true;
            v = d; gen++; return true;
        }
        bool compare_exchange_weak(int& e, int d, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) { if (Fibers::get().r() % 8 == 0) { Fibers::get().yield(); return false; } return compare_exchange_strong(e, d, a, b); }
        int fetch_add(int x, memory_order = memory_order_seq_cst) { Fibers::get().yield(); int o = v; v += x; gen++; return o; }
        int fetch_sub(int x, memory_order = memory_order_seq_cst) { Fibers::get().yield(); int o = v; v -= x; gen++; return o; }
        int operator++() { return fetch_add(1) + 1; }
        int operator++(int) { return fetch_add(1); }
    };
    namespace this_thread { template<class T> inline void vp_sleep_for(const T&) { Fibers::get().yield(); } inline void vp_yield() { Fibers::get().yield(); } }
}
#include <mutex>
#include <string>
#include <array>
namespace std { using ::fwrite; }
inline size_t vp_fwrite(const void* p, size_t a, size_t b, FILE* f) { Fibers& x = Fibers::get(); x.stall(); return fwrite(p, a, b, f); }
namespace std { using ::vp_fwrite; }
#define fwrite vp_fwrite
namespace std { struct vp_mutex { bool on = false; void lock() { Fibers& x = Fibers::get(); x.stall(); while (on && x.cur >= 0) x.yield(); on = true; } bool try_lock() { if (on) return false; return on = true; } void unlock() { on = false; } }; }
#define mutex vp_mutex
#define atomic_int vp_atomic_int
#define sleep_for vp_sleep_for
