// Cooperative scheduler: threads that run one at a time and change over only at the calls that
// acquire a reader/writer lock (or mutex), or where the test says so. Link with
//   -Wl,--wrap=pthread_rwlock_rdlock,... (see COOP_WRAP in lib/c_store.py).
#pragma once
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <semaphore>
#include <thread>
#include <vector>
#include <pthread.h>
#include <errno.h>

namespace coop
{

struct Lock { int readers = 0; int writer = -1; };

struct Sched
{
    struct T
    {
        std::thread thread;
        std::binary_semaphore go{0};
        bool done = false;
        void* wants = nullptr;      // lock that the thread waits for
        bool exclusive = false;
    };
    std::vector<std::unique_ptr<T>> threads;
    std::binary_semaphore back{0};
    std::map<void*, Lock> locks;
    bool ended = false;

    bool available(void* l, bool exclusive)
    {
        auto& k = locks[l];
        return k.writer < 0 && (!exclusive || k.readers == 0);
    }
};

inline Sched* current = nullptr;
inline thread_local int self = -1;

/** Gives control back to the scheduler, until it picks this thread again. */
inline void point(void* wants = nullptr, bool exclusive = false)
{
    if (self < 0 || !current) return;
    auto& t = *current->threads[self];
    t.wants = wants;
    t.exclusive = exclusive;
    current->back.release();
    t.go.acquire();
    t.wants = nullptr;
}

inline bool acquire(void* l, bool exclusive)
{
    if (self < 0 || !current) return false;
    point(l, exclusive);
    auto& k = current->locks[l];
    if (exclusive) k.writer = self; else ++k.readers;
    return true;
}

inline int tryAcquire(void* l, bool exclusive)   // -1: not ours
{
    if (self < 0 || !current) return -1;
    point();
    if (!current->available(l, exclusive)) return 0;
    auto& k = current->locks[l];
    if (exclusive) k.writer = self; else ++k.readers;
    return 1;
}

inline bool release(void* l)
{
    if (self < 0 || !current) return false;
    auto& k = current->locks[l];
    if (k.writer == self) k.writer = -1; else --k.readers;
    return true;
}

struct Outcome
{
    std::vector<int> chosen;    // thread per step
    std::vector<int> pick;      // index among the enabled ones
    std::vector<int> enabled;   // number of enabled threads
    bool deadlock = false;
};

/** Runs the bodies. choose(step, enabled threads, last) -> index into the enabled threads. */
inline Outcome run(std::vector<std::function<void()>> const& bodies,
                   std::function<size_t(size_t, std::vector<int> const&, int)> const& choose)
{
    Outcome out;
    auto s = std::make_unique<Sched>();
    for (size_t i = 0; i < bodies.size(); ++i) s->threads.push_back(std::make_unique<Sched::T>());
    current = s.get();
    for (size_t i = 0; i < bodies.size(); ++i)
        s->threads[i]->thread = std::thread([&, i] {
            self = (int)i;
            s->threads[i]->go.acquire();
            bodies[i]();
            s->threads[i]->done = true;
            s->back.release();
        });
    int last = -1;
    for (;;) {
        std::vector<int> enabled;
        bool all = true;
        for (size_t i = 0; i < bodies.size(); ++i) {
            auto& t = *s->threads[i];
            if (t.done) continue;
            all = false;
            if (!t.wants || s->available(t.wants, t.exclusive)) enabled.push_back((int)i);
        }
        if (all) break;
        if (enabled.empty()) { out.deadlock = true; break; }
        auto c = choose(out.chosen.size(), enabled, last);
        last = enabled[c];
        out.chosen.push_back(last);
        out.pick.push_back((int)c);
        out.enabled.push_back((int)enabled.size());
        s->threads[last]->go.release();
        s->back.acquire();
    }
    if (out.deadlock) {              // the threads cannot be ended
        for (auto& t : s->threads) if (t->thread.joinable()) t->thread.detach();
        s.release();
        return out;
    }
    for (auto& t : s->threads) t->thread.join();
    current = nullptr;
    return out;
}

/** A schedule as a list of thread ids: as long as it can be followed. */
inline std::function<size_t(size_t, std::vector<int> const&, int)> follow(std::vector<int> schedule)
{
    return [schedule, at = size_t(0)](size_t, std::vector<int> const& enabled, int last) mutable -> size_t {
        while (at < schedule.size()) {
            auto want = schedule[at++];
            for (size_t i = 0; i < enabled.size(); ++i) if (enabled[i] == want) return i;
        }
        for (size_t i = 0; i < enabled.size(); ++i) if (enabled[i] == last) return i;
        return 0;
    };
}

}

extern "C" {
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return coop::acquire(l, false) ? 0 : __real_pthread_rwlock_rdlock(l); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return coop::acquire(l, true) ? 0 : __real_pthread_rwlock_wrlock(l); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { auto r = coop::tryAcquire(l, false); return r < 0 ? __real_pthread_rwlock_tryrdlock(l) : r ? 0 : EBUSY; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { auto r = coop::tryAcquire(l, true); return r < 0 ? __real_pthread_rwlock_trywrlock(l) : r ? 0 : EBUSY; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) { return coop::release(l) ? 0 : __real_pthread_rwlock_unlock(l); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* l) { return coop::acquire(l, true) ? 0 : __real_pthread_mutex_lock(l); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* l) { auto r = coop::tryAcquire(l, true); return r < 0 ? __real_pthread_mutex_trylock(l) : r ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* l) { return coop::release(l) ? 0 : __real_pthread_mutex_unlock(l); }
}
