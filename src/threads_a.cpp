// Thread pools and parallel loops (C12, C13), locks and protected values (C25).
#include "gen.h"

#include "svs/lib/concurrency/readwrite_protected.h"
#include "svs/lib/spinlock.h"
#include "svs/lib/threads.h"

#include <chrono>

using namespace vh;
namespace th = svs::threads;

namespace {
#if defined(VH_TSAN)
constexpr bool tsan = true;
#else
constexpr bool tsan = false;
#endif

// A pool of a user's own kind: fresh std::threads for every loop.
struct SpawningPool {
    size_t n;
    size_t size() const { return n; }
    void run(th::FunctionRef f) {
        std::vector<std::thread> ts;
        for (size_t i = 1; i < n; ++i) ts.emplace_back([=] { f(i); });
        f(0);
        for (auto& t : ts) t.join();
    }
};

// Thrown out of loops that have gone astray.
struct Astray : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// Watches one parallel loop.
class Watch {
  public:
    Watch(size_t n, size_t workers, uint64_t delays)
        : done_(n)
        , value_(n, 0)
        , inside_(workers)
        , owner_(workers)
        , work_(workers, 0)
        , delays_{delays} {}
    // One index handled by worker tid.
    void item(size_t i, size_t tid) {
        if (tid >= inside_.size()) {
            bad("worker number out of range");
            return;
        }
        if (i >= done_.size()) {
            bad("index out of range");
            throw Astray("index out of range"); // or the loop may never end
        }
        if (done_[i].fetch_add(1, std::memory_order_relaxed) > 20) {
            bad("index executed over and over");
            throw Astray("index executed over and over");
        }
        value_[i] = mix(i); // plain writes: must be visible to the caller, and exclusive
        work_[tid]++;
        if (delays_ && mix(i + delays_) % 61 == 0) {
            auto us = mix(i * 3 + delays_) % 60;
            if (us < 20) std::this_thread::yield();
            else ::usleep(us);
        }
    }
    // A worker enters and leaves a call of the loop body.
    void enter(size_t tid) {
        if (tid >= inside_.size()) {
            bad("worker number out of range");
            return;
        }
        if (inside_[tid].exchange(1)) bad("one worker number used by two workers at once");
        auto me = std::hash<std::thread::id>()(std::this_thread::get_id()) | 1;
        size_t none = 0;
        if (!owner_[tid].compare_exchange_strong(none, me) && none != me) bad("one worker number used by two threads in one loop");
        active_.fetch_add(1);
    }
    void leave(size_t tid) {
        if (tid < inside_.size()) inside_[tid].store(0);
        active_.fetch_sub(1);
        bodies_.fetch_add(1);
    }
    // After the loop returned to its caller.
    void judge(Case& c, const std::string& ctx, bool complete = true) {
        c.expect(active_.load() == 0, "C12:early-return", "{}: {} workers still inside the loop body", ctx, active_.load());
        c.expect(error_.empty(), "C12:worker", "{}: {}", ctx, error_);
        if (!complete) return;
        size_t total = 0;
        for (size_t i = 0; i < done_.size(); ++i) {
            if (!c.expect(done_[i].load(std::memory_order_relaxed) == 1, "C12:exactly-once", "{}: index {} executed {} times", ctx, i, int(done_[i].load()))) return;
            if (!c.expect(value_[i] == mix(i), "C12:visible", "{}: effect of index {} is not visible", ctx, i)) return;
        }
        for (auto w : work_) total += w;
        c.expect(total == done_.size(), "C12:visible", "{}: {} of {} items visible", ctx, total, done_.size());
        c.obs("items", total);
        c.obs("loop_bodies", bodies_.load());
        size_t busy = 0;
        for (auto w : work_) busy += w > 0;
        c.obs(fmt::format("loops_with_{}_busy_workers", busy));
        // The distribution of work over workers identifies the schedule observed.
        c.distinct(hash_bytes(work_.data(), work_.size() * 8));
    }
    bool astray() {
        std::lock_guard g(m_);
        return !error_.empty();
    }
    void bad(const char* s) {
        std::lock_guard g(m_);
        error_ = s;
    }

  private:
    std::vector<std::atomic<uint8_t>> done_;
    std::vector<uint64_t> value_;
    std::vector<std::atomic<int>> inside_;
    std::vector<std::atomic<size_t>> owner_;
    std::vector<size_t> work_;
    std::atomic<long> active_{0};
    std::atomic<size_t> bodies_{0};
    uint64_t delays_;
    std::mutex m_;
    std::string error_;
};

struct Failure {
    std::mutex m;
    std::vector<std::pair<size_t, std::string>> thrown; // worker, message
};

// Run one loop of a random kind; body(i, tid) may throw.
template <typename Pool, typename Body>
void any_loop(Rng& r, Pool& pool, size_t n, Watch& w, Body&& body, int kind, size_t grain, size_t start, const std::vector<size_t>& list) {
    auto range = [&](const auto& is, size_t tid) {
        w.enter(tid);
        struct L {
            Watch& w;
            size_t tid;
            ~L() { w.leave(tid); }
        } l{w, tid};
        for (auto i : is) body(size_t(i), tid);
    };
    switch (kind) {
        case 0: th::run(pool, th::StaticPartition(n), range); break;
        case 1: th::run(pool, th::StaticPartition(start, start + n), [&](const auto& is, size_t tid) {
            w.enter(tid);
            struct L { Watch& w; size_t tid; ~L() { w.leave(tid); } } l{w, tid};
            for (auto i : is) body(size_t(i) - start, tid);
        }); break;
        case 2: th::run(pool, th::StaticPartition(list), range); break;
        case 3: th::run(pool, th::DynamicPartition(n, grain), range); break;
        case 4: th::run(pool, th::DynamicPartition(start, start + n, grain), [&](const auto& is, size_t tid) {
            w.enter(tid);
            struct L { Watch& w; size_t tid; ~L() { w.leave(tid); } } l{w, tid};
            for (auto i : is) body(size_t(i) - start, tid);
        }); break;
        case 5: th::run(pool, th::DynamicPartition(list, grain), range); break;
        case 6: th::run(pool, th::StaticPartition(uint32_t(n)), range); break;
        case 7: { // ranges over ranges
            auto u = th::UnitRange<size_t>(start, start + n);
            th::run(pool, th::DynamicPartition(u.eachindex(), grain), [&](const auto& is, size_t tid) {
                w.enter(tid);
                struct L { Watch& w; size_t tid; ~L() { w.leave(tid); } } l{w, tid};
                auto sub = th::UnitRange(is);
                for (auto i : sub) body(u[i] - start, tid);
            });
            break;
        }
    }
}
std::vector<size_t> permutation(Rng& r, size_t n) {
    std::vector<size_t> l(n);
    std::iota(l.begin(), l.end(), 0);
    r.shuffle(l);
    return l;
}
size_t pick_grain(Rng& r, size_t n) {
    return r.one_of({size_t(1), size_t(1 + r.below(7)), size_t(1 + r.below(n + 2)), n + 1, n ? n : 1, std::numeric_limits<size_t>::max()});
}
template <typename Pool> void loops(Case& c, Pool& pool, size_t count, const std::string& name) {
    auto& r = c.rng;
    for (size_t k = 0; k < count; ++k) {
        size_t n = r.chance(0.15) ? 0 : r.chance(0.4) ? 1 + r.below(12) : 1 + r.below(tsan ? 300 : 1200);
        int kind = r.below(8);
        size_t grain = pick_grain(r, n), start = r.below(1000);
        auto list = permutation(r, n);
        Watch w(n, pool.size(), r.chance(0.4) ? r() | 1 : 0);
        auto ctx = fmt::format("{} workers={} loop kind {} n={} grain={}", name, pool.size(), kind, n, grain);
        c.step("{}", ctx);
        try {
            any_loop(r, pool, n, w, [&](size_t i, size_t tid) { w.item(i, tid); }, kind, grain, start, list);
        } catch (...) {
            if (!w.astray()) throw;
        }
        w.judge(c, ctx);
        if (r.chance(0.15)) { // let the workers fall asleep
            ::usleep(r.below(1500));
            c.obs("pauses_between_loops");
        }
        if (r.chance(0.2)) { // each worker exactly once
            std::vector<std::atomic<int>> seen(pool.size());
            std::vector<size_t> plain(pool.size(), 0);
            std::atomic<int> wrong{0};
            th::run(pool, [&](size_t tid) {
                if (tid < seen.size()) {
                    seen[tid]++;
                    plain[tid] = tid + 7;
                } else wrong++;
            });
            for (size_t t = 0; t < seen.size(); ++t) c.expect(seen[t] == 1 && plain[t] == t + 7, "C12:per-worker", "{}: worker {} ran {} times", ctx, t, seen[t].load());
            c.expect(wrong == 0, "C12:per-worker", "{}: worker numbers beyond the pool size", ctx);
        }
        if (c.failed) return;
    }
}
struct Custom : std::exception {
    std::string m;
    explicit Custom(std::string s) : m{std::move(s)} {}
    const char* what() const noexcept override { return m.c_str(); }
};
// A loop some of whose workers throw.
template <typename Pool> void failing(Case& c, Pool& pool, const std::string& name, bool wrapped) {
    auto& r = c.rng;
    size_t n = 1 + r.below(300);
    int kind = r.below(8);
    size_t grain = 1 + r.below(20), start = r.below(100);
    auto list = permutation(r, n);
    std::set<size_t> poison;
    size_t np = r.chance(0.3) ? n : std::min(n, 1 + r.below(4));
    while (poison.size() < np) poison.insert(r.below(n));
    int type = r.below(4); // kinds of exceptions
    Failure f;
    size_t size = pool.size();
    Watch w(n, size, r.chance(0.4) ? r() | 1 : 0);
    auto ctx = fmt::format("{} workers={} failing loop kind {} n={} grain={} poisoned={} type={}", name, size, kind, n, grain, np, type);
    c.step("{}", ctx);
    bool threw = false;
    std::string what;
    try {
        any_loop(r, pool, n, w, [&](size_t i, size_t tid) {
            if (poison.count(i)) {
                auto msg = fmt::format("bad-item-{}-{}", i, mix(i) % 1000);
                {
                    std::lock_guard g(f.m);
                    f.thrown.push_back({tid, type == 3 ? "" : msg});
                }
                if (type == 0) throw std::runtime_error(msg);
                if (type == 1) throw Custom(msg);
                if (type == 2) throw ANNEXCEPTION("{}", msg);
                throw int(i);
            }
            w.item(i, tid);
        }, kind, grain, start, list);
    } catch (const th::ThreadingException& e) {
        threw = true;
        what = e.what();
    } catch (const std::exception& e) {
        threw = !wrapped;
        what = e.what();
        if (wrapped) c.fail("C12:exception-kind", "{}: {} instead of a threading exception", ctx, what);
    } catch (int) {
        threw = !wrapped;
        if (wrapped) c.fail("C12:exception-kind", "{}: an integer escaped", ctx);
    }
    w.judge(c, ctx, false);
    c.expect(threw, "C12:exception-lost", "{}: {} workers threw but the caller saw nothing", ctx, f.thrown.size());
    if (wrapped) {
        std::set<size_t> tids;
        for (auto& [tid, msg] : f.thrown) {
            c.expect(what.find(msg) != std::string::npos, "C12:exception-cause", "{}: \"{}\" does not name \"{}\"", ctx, what, msg);
            c.expect(what.find(fmt::format("Thread {}:", tid)) != std::string::npos, "C12:exception-worker", "{}: \"{}\" does not name worker {}", ctx, what, tid);
            c.expect(tids.insert(tid).second, "C12:exception-continued", "{}: worker {} went on after throwing", ctx, tid);
        }
    }
    c.expect(pool.size() == size, "C12:exception-size", "{}: {} workers left", ctx, pool.size());
    c.obs("failing_loops");
    c.obs("exceptions_thrown", f.thrown.size());
    loops(c, pool, 2, name + " after a failure");
}
} // namespace

VH_SCENARIO(pool_loops, "C12 C13 C14", 200, 8000) {
    auto& r = c.rng;
    size_t n = r.chance(0.1) ? 0 : 1 + r.below(r.chance(0.1) ? 24 : 9);
    th::NativeThreadPool pool(n);
    c.expect(pool.size() == std::max<size_t>(n, 1), "C12:size", "{} threads requested, {} workers", n, pool.size());
    loops(c, pool, 12, "native");
    c.sample("native pool of {}", n);
}
VH_SCENARIO(pool_other_kinds, "C12 C13 C14", 40, 2000) {
    auto& r = c.rng;
    th::SequentialThreadPool seq;
    loops(c, seq, 8, "sequential");
    SpawningPool own{1 + r.below(6)};
    loops(c, own, 3, "spawning");
    auto made = th::as_threadpool(1 + r.below(4));
    loops(c, made, 3, "default");
    auto& same = th::as_threadpool(made);
    c.expect(&same == &made, "C12:pass-through", "another pool");
}
// Exceptions cross threads inside the standard library, which the race detector cannot see.
#ifndef VH_TSAN
VH_SCENARIO(pool_exceptions, "C12 C14", 150, 6000) {
    auto& r = c.rng;
    th::NativeThreadPool pool(1 + r.below(r.chance(0.1) ? 20 : 7));
    size_t rounds = 1 + r.below(6);
    for (size_t i = 0; i < rounds && !c.failed; ++i) {
        failing(c, pool, "native", true);
        if (r.chance(0.3)) {
            pool.resize(r.below(8));
            loops(c, pool, 1, "native resized after a failure");
        }
    }
    if (r.chance(0.3)) {
        th::SequentialThreadPool seq;
        failing(c, seq, "sequential", false);
    }
}
#endif
VH_SCENARIO(pool_resize_move, "C12 C13 C14", 100, 4000) {
    auto& r = c.rng;
    auto pool = std::make_unique<th::NativeThreadPool>(1 + r.below(6));
    for (int i = 0; i < 10 && !c.failed; ++i) {
        size_t before = pool->size();
        switch (r.below(4)) {
            case 0: {
                size_t n = r.below(r.chance(0.1) ? 30 : 9);
                pool->resize(n);
                c.expect(pool->size() == std::max<size_t>(n, 1), "C12:resize", "{} to {} gives {}", before, n, pool->size());
                break;
            }
            case 1: {
                auto p = std::make_unique<th::NativeThreadPool>(std::move(*pool));
                pool = std::move(p);
                c.expect(pool->size() == before, "C12:move", "{} workers became {}", before, pool->size());
                break;
            }
            case 2: {
                th::NativeThreadPool other(1 + r.below(5));
                loops(c, other, 1, "assigned-from");
                size_t n = other.size();
                *pool = std::move(other);
                c.expect(pool->size() == n, "C12:move-assign", "{} workers became {}", n, pool->size());
                break;
            }
            case 3: break;
        }
        loops(c, *pool, 2, "moving");
    }
}
// Several threads share one pool: every loop is still complete, and loops do not overlap.
VH_SCENARIO(pool_shared, "C12 C13 C14", 80, 3000) {
    auto& r = c.rng;
    th::NativeThreadPool pool(1 + r.below(6));
    size_t callers = 2 + r.below(4), per = 3 + r.below(15);
    std::vector<std::atomic<int>> inside(pool.size());
    std::atomic<int> overlap{0};
    std::vector<std::thread> ts;
    c.step("pool of {} shared by {} callers", pool.size(), callers);
    std::vector<uint64_t> seeds(callers);
    for (auto& s : seeds) s = r();
    for (size_t k = 0; k < callers; ++k)
        ts.emplace_back([&, k] {
            Rng rr(seeds[k]);
            for (size_t i = 0; i < per; ++i) {
                size_t n = 1 + rr.below(200);
                Watch w(n, pool.size(), rr.chance(0.5) ? rr() | 1 : 0);
                auto list = permutation(rr, n);
                any_loop(rr, pool, n, w, [&](size_t j, size_t tid) {
                    if (inside[tid].fetch_add(1)) overlap++;
                    w.item(j, tid);
                    inside[tid].fetch_sub(1);
                }, rr.below(8), 1 + rr.below(20), rr.below(9), list);
                w.judge(c, fmt::format("caller {} of {} sharing {} workers", k, callers, pool.size()));
            }
        });
    for (auto& t : ts) t.join();
    c.expect(overlap == 0, "C12:overlap", "{} times one worker served two loops at once", overlap.load());
    c.obs("shared_loops", callers * per);
    loops(c, pool, 2, "after sharing");
}
// Destruction and creation with workers in every state.
VH_SCENARIO(pool_lifetime, "C12 C13 C14", 60, 2000) {
    auto& r = c.rng;
    for (int i = 0; i < 8; ++i) {
        th::NativeThreadPool pool(1 + r.below(8), r.one_of({uint64_t(1), uint64_t(50), uint64_t(5000)}));
        if (r.chance(0.5)) ::usleep(r.below(600));
        size_t k = r.below(3);
        loops(c, pool, k, "short-lived");
        if (r.chance(0.5)) ::usleep(r.below(600));
        c.obs("pools");
    }
}
// The building block: one worker thread.
VH_SCENARIO(worker_thread, "C12 C13 C14", 60, 2000) {
    auto& r = c.rng;
    for (int round = 0; round < 4; ++round) {
        th::ThreadImpl<th::telemetry::NoTelemetry> t(r.one_of({size_t(1), size_t(20), size_t(100000)}));
        c.expect(t.is_okay() && t.is_running() && !t.is_shutdown(), "C12:thread", "not running");
        size_t jobs = r.below(20), sum = 0, want = 0;
        for (size_t j = 0; j < jobs; ++j) {
            auto f = [&](size_t x) { sum += x; };
            th::ThreadFunctionRef ref(th::FunctionRef(f), j + 1);
            want += j + 1;
            if (r.chance(0.3)) ::usleep(r.below(300));
            if (r.chance(0.5)) {
                t.unsafe_assign_blocking(ref);
            } else {
                t.assign(ref);
                t.wait();
            }
            c.expect(sum == want, "C12:thread-job", "job {}: sum {} instead of {}", j, sum, want);
            c.obs("jobs");
        }
        // Assigning waits for the job before.
        size_t order = 0;
        bool ok = true;
        auto slow = [&](size_t x) {
            ::usleep(x * 10);
            ok &= order++ == x;
        };
        for (size_t x = 0; x < 5; ++x) t.assign({th::FunctionRef(slow), x});
        t.wait();
        c.expect(ok && order == 5, "C12:thread-order", "jobs ran out of order");
        t.shutdown();
        c.expect(t.is_shutdown() && !t.is_running(), "C12:thread-shutdown", "still running");
        t.shutdown();
        auto never = [](size_t) {};
        c.expect(throws([&] { t.assign({th::FunctionRef(never), 0}); }), "C12:thread-dead", "a stopped thread took work");
    }
}
#ifndef VH_TSAN
VH_SCENARIO(worker_thread_failure, "C12 C14", 60, 2000) {
    auto& r = c.rng;
    th::Thread t(r.one_of({size_t(1), size_t(1000)}));
    auto f = [](size_t x) { throw std::runtime_error("boom" + std::to_string(x)); };
    t.assign({th::FunctionRef(f), 3});
    t.wait();
    c.expect(!t.is_okay() && !t.is_running(), "C12:thread-failure", "a failed thread looks fine");
    std::string what;
    auto never = [](size_t) {};
    bool threw = false;
    if (r.chance(0.5)) {
        try {
            t.assign({th::FunctionRef(never), 0});
        } catch (const th::ThreadError& e) {
            threw = true;
            what = e.what();
        }
    } else {
        threw = throws([&] { t.unsafe_get_exception(); }, &what);
    }
    c.expect(threw && what.find("boom3") != std::string::npos, "C12:thread-cause", "\"{}\"", what);
    c.distinct(fmt::format("{}", c.index()));
}
#endif

// Partitioning arithmetic.
VH_SCENARIO(partition, "C12 C14", 16, 64) {
    auto& r = c.rng;
    auto judge = [&](size_t n, size_t threads) {
        size_t next = 0, lo = ~size_t(0), hi = 0;
        for (size_t t = 0; t < threads; ++t) {
            auto u = th::balance(n, threads, t);
            size_t len = u.size();
            c.expect(len == 0 || u.start() == next, "C12:balance", "n={} threads={} worker {} starts at {} after {}", n, threads, t, u.start(), next);
            if (len) next = u.stop();
            lo = std::min(lo, len);
            hi = std::max(hi, len);
        }
        c.expect(next == n, "C12:balance", "n={} threads={} covers {}", n, threads, next);
        c.expect(threads <= 1 || n == 0 || hi - lo <= 1, "C12:balance-even", "n={} threads={} parts of {} and {}", n, threads, lo, hi);
        c.obs("partitions");
    };
    // n = 0 gives everything to everyone (nothing).
    for (size_t n = c.index(); n < 400; n += 16)
        for (size_t t = 1; t <= 40; ++t) judge(n, t);
    for (int i = 0; i < 300; ++i) judge(r() >> (8 + r.below(50)), 1 + r.below(100));
    // Ranges.
    for (int i = 0; i < 200; ++i) {
        int64_t a = r.in(-1000, 1000), b = r.in(-1000, 1000);
        th::UnitRange<int64_t> u(a, b);
        size_t len = b > a ? b - a : 0;
        c.expect(u.size() == len && u.empty() == (len == 0), "C12:range", "[{},{}) has {}", a, b, u.size());
        int64_t x = a;
        for (auto v : u) c.expect(v == x++, "C12:range", "wrong element {}", v);
        c.expect(x == std::max(a, b), "C12:range", "wrong number of elements");
        int64_t probe = r.in(-1100, 1100);
        if (len) c.expect(u.contains(probe) == (probe >= a && probe < b) && u.front() == a && u.back() == b - 1, "C12:range-contains", "[{},{}) {}", a, b, probe);
        size_t k = r.below(len + 5);
        c.expect(throws([&] { c.expect(u.at(k) == a + int64_t(k) && u[k] == u.at(k), "C12:range-at", "wrong"); }) == (k >= len), "C12:range-at", "[{},{}) at {}", a, b, k);
        c.expect(u.eachindex() == th::UnitRange<size_t>(0, len), "C12:range-indices", "wrong");
        auto it = u.begin();
        if (len) c.expect(*(it + int64_t(len - 1)) == u.back() && u.end() - it == int64_t(len) && it[0] == a && *(1 + it) == a + 1 && *(u.end() - 1) == b - 1, "C12:range-iterator", "wrong");
    }
    c.distinct(fmt::format("{}", c.index()));
}
// Per-worker storage.
VH_SCENARIO(worker_storage, "C12 C14", 60, 1000) {
    auto& r = c.rng;
    size_t n = 1 + r.below(9);
    th::SequentialTLS<std::vector<int>> tls(std::vector<int>{1, 2, int(n)}, n);
    c.expect(tls.size() == n, "C12:storage", "size");
    th::NativeThreadPool pool(n);
    for (int rep = 0; rep < 4; ++rep) {
        size_t items = r.below(500);
        th::run(pool, th::DynamicPartition(items, 1 + r.below(9)), [&](const auto& is, size_t tid) {
            for (auto i : is) tls[tid].push_back(int(i));
        });
        std::vector<int> all;
        size_t visited = 0;
        tls.visit([&](std::vector<int>& v) {
            ++visited;
            c.expect(v.size() >= 3 && v[0] == 1 && v[1] == 2, "C12:storage-init", "wrong initial value");
            all.insert(all.end(), v.begin() + 3, v.end());
            v.resize(3);
        });
        std::sort(all.begin(), all.end());
        bool ok = all.size() == items && visited == tls.size();
        for (size_t i = 0; ok && i < items; ++i) ok = all[i] == int(i);
        c.expect(ok, "C12:storage-items", "{} items, {} collected", items, all.size());
        for (size_t i = 0; i < tls.size(); ++i) c.expect(&tls[i] == &tls.at(i) && reinterpret_cast<uintptr_t>(&tls[i]) % 64 == 0, "C12:storage-align", "slot {} at {}", i, fmt::ptr(&tls[i]));
        c.expect(throws([&] { (void)tls.at(tls.size()); }), "C12:storage-bounds", "out of bounds accepted");
        size_t m = r.below(9);
        tls.resize(m);
        pool.resize(m);
        c.expect(tls.size() == std::max<size_t>(m, 1) && pool.size() == tls.size(), "C12:storage-resize", "{} gives {}", m, tls.size());
    }
    c.distinct(fmt::format("{}|{}", n, c.index()));
}

//// Locks.
VH_SCENARIO(spin_lock, "C25 C13 C14", 80, 3000) {
    auto& r = c.rng;
    size_t nt = 2 + r.below(5), per = 100 + r.below(400);
    svs::SpinLock lock, second;
    uint64_t plain = 0, twice = 0; // protected by the lock, not atomic
    std::atomic<int> inside{0}, broken{0};
    std::atomic<uint64_t> entered{0}, missed{0};
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds(nt);
    for (auto& s : seeds) s = r();
    c.step("spin lock, {} threads", nt);
    for (size_t t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            Rng rr(seeds[t]);
            auto critical = [&] {
                if (inside.fetch_add(1) != 0) broken++;
                if (!lock.islocked()) broken++;
                if (lock.try_lock()) broken++; // never re-entered
                auto x = plain;
                if (rr.chance(0.05)) std::this_thread::yield();
                plain = x + 1;
                if (inside.fetch_sub(1) != 1) broken++;
                entered++;
            };
            for (size_t i = 0; i < per; ++i) {
                switch (rr.below(5)) {
                    case 0: {
                        std::lock_guard g(lock);
                        critical();
                        break;
                    }
                    case 1: {
                        std::unique_lock g(lock);
                        critical();
                        g.unlock();
                        break;
                    }
                    case 2: {
                        if (lock.try_lock()) {
                            critical();
                            lock.unlock();
                        } else {
                            missed++;
                        }
                        break;
                    }
                    case 3: {
                        std::scoped_lock g(lock, second);
                        twice++;
                        critical();
                        break;
                    }
                    case 4: {
                        std::unique_lock g(lock, std::try_to_lock);
                        if (g.owns_lock()) critical();
                        else missed++;
                        break;
                    }
                }
            }
        });
    for (auto& t : ts) t.join();
    c.expect(broken == 0, "C25:exclusion", "{} violations among {} threads", broken.load(), nt);
    c.expect(plain == entered.load(), "C25:lost-update", "{} of {} updates survived", plain, entered.load());
    c.expect(!lock.islocked() && lock.try_lock() && lock.islocked() && !lock.try_lock(), "C25:try-lock", "wrong state after use");
    lock.unlock();
    c.expect(!lock.islocked(), "C25:unlock", "still locked");
    c.obs("critical_sections", entered.load());
    c.obs("failed_tries", missed.load());
    c.obs("double_locks", twice);
    c.distinct(mix(missed.load() * 1000003 + entered.load()));
}

namespace {
struct Wide {
    std::array<uint64_t, 24> w{};
    Wide() = default;
    explicit Wide(uint64_t v) {
        for (auto& x : w) x = v;
    }
    std::optional<uint64_t> value() const {
        for (auto x : w)
            if (x != w[0]) return {};
        return w[0];
    }
};
struct Heap {
    std::string s;
    std::vector<uint64_t> v;
    Heap() : s("0"), v(3, 0) {}
    explicit Heap(uint64_t x) : s(std::string(x % 50, 'x') + std::to_string(x)), v(x % 40 + 1, x) {}
    std::optional<uint64_t> value() const {
        if (v.empty()) return {};
        for (auto x : v)
            if (x != v[0]) return {};
        if (v[0] != 0 && s != std::string(v[0] % 50, 'x') + std::to_string(v[0])) return {};
        return v[0];
    }
};
struct Op {
    uint64_t begin, end, value;
    bool write;
};
// A register with unique written values is linearizable exactly when the zones of its values
// are compatible (Gibbons and Korach).
std::string linearizable(std::vector<Op> ops) {
    struct Zone {
        uint64_t f = ~uint64_t(0), s = 0, wb = 0, v = 0;
        bool has_write = false;
    };
    std::map<uint64_t, Zone> z;
    z[0].has_write = true; // the initial value, written before everything
    z[0].f = 0;
    for (auto& o : ops) {
        auto& x = z[o.value];
        x.v = o.value;
        x.f = std::min(x.f, o.end);
        x.s = std::max(x.s, o.begin);
        if (o.write) {
            x.has_write = true;
            x.wb = o.begin;
        }
    }
    for (auto& [v, x] : z) {
        if (!x.has_write) return fmt::format("value {} was never written", v);
        if (x.f < x.wb) return fmt::format("value {} was read before it was written", v);
    }
    std::vector<Zone> fwd;
    for (auto& [v, x] : z)
        if (x.f < x.s) fwd.push_back(x);
    std::sort(fwd.begin(), fwd.end(), [](auto& a, auto& b) { return a.f < b.f; });
    for (size_t i = 1; i < fwd.size(); ++i)
        if (fwd[i].f < fwd[i - 1].s) return fmt::format("values {} and {} alternate", fwd[i - 1].v, fwd[i].v);
    for (auto& [v, x] : z)
        if (x.f >= x.s)
            for (auto& y : fwd)
                if (y.f < x.s && x.f < y.s) return fmt::format("value {} appears and vanishes while {} is in place", v, y.v);
    return "";
}
template <typename T> void protected_value(Case& c) {
    auto& r = c.rng;
    size_t nw = 1 + r.below(3), nr = 1 + r.below(4), per = tsan ? 60 : 150;
    svs::lib::ReadWriteProtected<T> p{T(0)};
    std::atomic<uint64_t> clock{1};
    std::vector<std::vector<Op>> logs(nw + nr);
    std::atomic<int> torn{0};
    std::vector<std::thread> ts;
    std::atomic<bool> go{false};
    std::vector<uint64_t> seeds(nw + nr);
    for (auto& s : seeds) s = r();
    c.step("protected value, {} writers {} readers", nw, nr);
    for (size_t t = 0; t < nw + nr; ++t)
        ts.emplace_back([&, t] {
            Rng rr(seeds[t]);
            while (!go.load()) std::this_thread::yield();
            for (size_t i = 0; i < per; ++i) {
                Op o{};
                o.write = t < nw;
                if (o.write) {
                    o.value = 1 + t * 100000 + i;
                    T v(o.value);
                    svs::lib::ReadWriteProtected<T> src{v};
                    int kind = rr.below(4);
                    o.begin = clock.fetch_add(1);
                    if (kind == 0) p.set(v);
                    if (kind == 1) p.set(std::move(v));
                    if (kind == 2) p = src;
                    if (kind == 3) p = std::move(src);
                    o.end = clock.fetch_add(1);
                } else {
                    o.begin = clock.fetch_add(1);
                    std::optional<uint64_t> x;
                    int kind = rr.below(3);
                    if (kind == 0) x = p.get().value();
                    if (kind == 1) {
                        svs::lib::ReadWriteProtected<T> copy(p);
                        x = copy.get().value();
                    }
                    if (kind == 2) {
                        svs::lib::ReadWriteProtected<T> copy{T(77)};
                        copy = p;
                        x = std::move(copy).get().value();
                    }
                    o.end = clock.fetch_add(1);
                    if (!x) {
                        torn++;
                        continue;
                    }
                    o.value = *x;
                }
                logs[t].push_back(o);
                if (rr.chance(0.1)) std::this_thread::yield();
            }
        });
    go = true;
    for (auto& t : ts) t.join();
    c.expect(torn == 0, "C25:torn", "{} incomplete values read", torn.load());
    std::vector<Op> all;
    uint64_t h = 7;
    for (auto& l : logs) {
        for (auto& o : l)
            if (!o.write) h = mix(h ^ o.value);
        all.insert(all.end(), l.begin(), l.end());
    }
    auto err = linearizable(all);
    c.expect(err.empty(), "C25:order", "{} operations: {}", all.size(), err);
    c.obs("operations_logged", all.size());
    c.distinct(h);
    c.sample("{} writers {} readers {} operations", nw, nr, all.size());
}
} // namespace
VH_SCENARIO(protected_wide, "C25 C13 C14", 60, 2500) { protected_value<Wide>(c); }
VH_SCENARIO(protected_heap, "C25 C13 C14", 60, 2500) { protected_value<Heap>(c); }
// The checker itself must notice bad histories.
VH_SCENARIO(protected_checker, "C25 C14", 1, 1) {
    auto bad = [&](std::vector<Op> h, const char* n) { c.expect(!linearizable(h).empty(), "C25:checker", "{} accepted", n); };
    bad({{1, 2, 5, true}, {3, 4, 0, false}}, "stale read");
    bad({{1, 2, 5, false}, {3, 4, 5, true}}, "read from the future");
    bad({{1, 2, 9, false}}, "value from nowhere");
    bad({{1, 10, 5, true}, {2, 3, 5, false}, {4, 5, 0, false}}, "new then old");
    c.expect(linearizable({{1, 10, 5, true}, {2, 3, 0, false}, {4, 5, 5, false}}).empty(), "C25:checker", "good history refused");
    c.distinct("checker");
}
// Sequential transfers.
VH_SCENARIO(protected_transfer, "C25 C14", 40, 1000) {
    auto& r = c.rng;
    using P = svs::lib::ReadWriteProtected<Heap>;
    auto value = [](const P& p) { return p.get().value().value_or(~uint64_t(0)); };
    for (int i = 0; i < 100; ++i) {
        uint64_t a = 1 + r.below(1000), b = 2000 + r.below(1000);
        P x{Heap(a)}, y{Heap(b)}, d;
        c.expect(value(x) == a && value(d) == 0, "C25:construct", "wrong");
        P cp(x);
        c.expect(value(cp) == a && value(x) == a, "C25:copy", "wrong");
        auto& ref = (y = x);
        c.expect(&ref == &y && value(y) == a && value(x) == a, "C25:assign", "wrong");
        y.set(Heap(b));
        c.expect(value(y) == b && value(x) == a && value(cp) == a, "C25:independent", "wrong");
        auto& self = x;
        x = self;
        c.expect(value(x) == a, "C25:self-assign", "wrong");
        x = std::move(self);
        c.expect(value(x) == a, "C25:self-move", "wrong");
        P mv(std::move(x));
        c.expect(value(mv) == a, "C25:move", "wrong");
        auto& ref2 = (d = std::move(y));
        c.expect(&ref2 == &d && value(d) == b, "C25:move-assign", "wrong");
        Heap h(b + 1);
        d.set(h);
        c.expect(value(d) == b + 1 && h.value() == b + 1, "C25:set", "wrong");
        c.expect(std::move(d).get().value() == b + 1, "C25:take", "wrong");
    }
    c.distinct(fmt::format("{}", c.index()));
}
