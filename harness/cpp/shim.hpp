// Controlled scheduler: std::thread, mutex, condition_variable, atomic, atomic_flag, async/future, this_thread are
// replaced (by macros, after the standard headers are included) with versions whose every operation is a scheduling
// point; exactly one thread runs at a time and the order is a recorded list of choices.
#pragma once
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/wait.h>

namespace vp {
struct Thr {
    int id; bool done = false; bool yielded = false;
    std::function<bool()> pred;
    std::condition_variable cv; bool go = false;
};
struct Choice { int n, c; bool cur; };
struct Sched {
    std::mutex m;
    std::vector<std::unique_ptr<Thr>> t;
    int cur = 0;
    long steps = 0; long maxsteps = 20000;
    std::vector<int> prefix; std::vector<Choice> log;
    bool random = false; std::mt19937 rng; int preempt = 0; int bound = 1000000;
    std::vector<std::array<int, 2>> events;
    std::function<void()> stuck;
    unsigned hw = 4;
    void reset() {
        t.clear(); t.emplace_back(new Thr()); t[0]->id = 0; cur = 0; steps = 0; log.clear(); events.clear(); preempt = 0;
    }
    int choose(int n, bool iscur) {
        int c = 0;
        size_t k = log.size();
        if (k < prefix.size()) c = prefix[k];
        else if (random && n > 1) c = (int) (rng() % n);
        if (c >= n) c = n - 1;
        if (iscur && c > 0) preempt++;
        log.push_back({n, c, iscur});
        return c;
    }
    int pick() {            // m held
        std::vector<int> opt;
        auto ok = [](Thr & x) { return !x.done && (!x.pred || x.pred()); };
        if (!t[cur]->done && !t[cur]->yielded && ok(*t[cur])) opt.push_back(cur);
        for (auto & x : t) if (x->id != cur && !x->yielded && ok(*x)) opt.push_back(x->id);
        bool iscur = !opt.empty() && opt[0] == cur;
        if (opt.empty()) {
            for (auto & x : t) if (ok(*x)) opt.push_back(x->id);
            for (auto & x : t) x->yielded = false;
        }
        if (opt.empty()) return -1;
        int r = opt.size() == 1 ? opt[0] : opt[choose((int) opt.size(), iscur)];
        for (auto & x : t) if (x->id != r) x->yielded = false;
        return r;
    }
    void fail() { if (stuck) stuck(); _exit(9); }
    void point(std::function<bool()> pred = nullptr, bool yield = false) {
        std::unique_lock<std::mutex> l(m);
        int me = cur;
        Thr & x = *t[me];
        x.pred = pred; x.yielded = yield;
        if (++steps > maxsteps) fail();
        int n = pick();
        if (n < 0) fail();
        x.go = false;
        if (n != me) {
            cur = n; t[n]->go = true; t[n]->cv.notify_one();
            x.cv.wait(l, [&x] { return x.go; });
        }
        x.pred = nullptr; x.yielded = false;
    }
    int spawn() { std::unique_lock<std::mutex> l(m); t.emplace_back(new Thr()); t.back()->id = (int) t.size() - 1; return t.back()->id; }
    void enter(int id) { std::unique_lock<std::mutex> l(m); Thr & x = *t[id]; x.cv.wait(l, [&x] { return x.go; }); x.pred = nullptr; x.yielded = false; }
    void leave(int id) {
        std::unique_lock<std::mutex> l(m);
        t[id]->done = true;
        int n = pick();
        if (n < 0) fail();
        cur = n; t[n]->go = true; t[n]->cv.notify_one();
    }
};
inline Sched & S() { static Sched * s = new Sched(); return *s; }
inline void ev(int k, int i) { S().events.push_back({k, i}); }
}

namespace std {
class vp_mutex {
public:
    int owner = -1;
    vp_mutex() = default; vp_mutex(const vp_mutex &) = delete;
    void lock() { vp::S().point([this] { return owner < 0; }); owner = vp::S().cur; }
    bool try_lock() { vp::S().point(); if (owner >= 0) return false; owner = vp::S().cur; return true; }
    void unlock() { owner = -1; }
};
class vp_condition_variable {
    struct W { bool hit = false; };
    std::deque<std::shared_ptr<W>> q;
public:
    vp_condition_variable() = default; vp_condition_variable(const vp_condition_variable &) = delete;
    template <class L> void wait(L & l) {
        auto w = std::make_shared<W>(); q.push_back(w);
        auto * mu = l.mutex();
        mu->owner = -1;
        vp::S().point([w, mu] { return w->hit && mu->owner < 0; });
        mu->owner = vp::S().cur;
    }
    template <class L, class P> void wait(L & l, P p) { while (!p()) wait(l); }
    template <class L, class D> std::cv_status wait_for(L & l, const D &) {
        auto w = std::make_shared<W>(); q.push_back(w);
        auto * mu = l.mutex(); mu->owner = -1;
        vp::S().point([mu] { return mu->owner < 0; }, true);
        mu->owner = vp::S().cur;
        if (!w->hit) { q.erase(std::find(q.begin(), q.end(), w)); return std::cv_status::timeout; }
        return std::cv_status::no_timeout;
    }
    template <class L, class D, class P> bool wait_for(L & l, const D & d, P p) { while (!p()) wait_for(l, d); return true; }
    void notify_one() {
        vp::S().point();
        if (q.empty()) return;
        size_t k = q.size() == 1 ? 0 : (size_t) vp::S().choose((int) q.size(), false);
        q[k]->hit = true; q.erase(q.begin() + k);
    }
    void notify_all() { vp::S().point(); for (auto & w : q) w->hit = true; q.clear(); }
};
using vp_condition_variable_any = vp_condition_variable;
class vp_thread {
    int id_ = -1; std::thread th;
public:
    using id = int;
    vp_thread() noexcept = default;
    template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, vp_thread>::value>::type>
    explicit vp_thread(F && f, A &&... a) {
        auto g = std::bind(std::forward<F>(f), std::forward<A>(a)...);
        id_ = vp::S().spawn();
        int id = id_;
        th = std::thread([id, g]() mutable { vp::S().enter(id); g(); vp::S().leave(id); });
        vp::S().point();
    }
    vp_thread(vp_thread && o) noexcept : id_(o.id_), th(std::move(o.th)) { o.id_ = -1; }
    vp_thread & operator=(vp_thread && o) noexcept { if (joinable()) std::terminate(); id_ = o.id_; th = std::move(o.th); o.id_ = -1; return *this; }
    bool joinable() const { return id_ >= 0; }
    void join() { int i = id_; vp::S().point([i] { return vp::S().t[i]->done; }); th.join(); id_ = -1; }
    void detach() { th.detach(); id_ = -1; }
    id get_id() const { return id_; }
    static unsigned hardware_concurrency() { const char * e = getenv("VP_HW"); return e ? (unsigned) atoi(e) : 4u; }
    ~vp_thread() { if (joinable()) std::terminate(); }
};
class vp_atomic_flag {
    bool v = false; std::map<int, bool> failed;
public:
    vp_atomic_flag() noexcept = default;
    vp_atomic_flag(const bool b) noexcept : v(b) {}
    vp_atomic_flag(const vp_atomic_flag &) = delete;
    bool test_and_set(std::memory_order = std::memory_order_seq_cst) {
        int me = vp::S().cur;
        if (failed[me]) vp::S().point([this] { return !v; }); else vp::S().point();
        bool o = v; v = true; failed[me] = o; return o;
    }
    void clear(std::memory_order = std::memory_order_seq_cst) { vp::S().point(); v = false; }
};
template <class T> class vp_atomic {
    T v{};
public:
    vp_atomic() noexcept = default;
    vp_atomic(T x) noexcept : v(x) {}
    vp_atomic(const vp_atomic &) = delete;
    T load(std::memory_order = std::memory_order_seq_cst) const { vp::S().point(); return v; }
    void store(T x, std::memory_order = std::memory_order_seq_cst) { vp::S().point(); v = x; }
    operator T() const { return load(); }
    T operator=(T x) { store(x); return x; }
    T exchange(T x, std::memory_order = std::memory_order_seq_cst) { vp::S().point(); T o = v; v = x; return o; }
    bool compare_exchange_strong(T & e, T d, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) { vp::S().point(); if (v == e) { v = d; return true; } e = v; return false; }
    bool compare_exchange_weak(T & e, T d, std::memory_order a = std::memory_order_seq_cst, std::memory_order b = std::memory_order_seq_cst) { return compare_exchange_strong(e, d, a, b); }
    T fetch_add(T d, std::memory_order = std::memory_order_seq_cst) { vp::S().point(); T o = v; v = o + d; return o; }
    T fetch_sub(T d, std::memory_order = std::memory_order_seq_cst) { vp::S().point(); T o = v; v = o - d; return o; }
    T operator++() { return fetch_add(1) + 1; } T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; } T operator--(int) { return fetch_sub(1); }
    T operator+=(T d) { return fetch_add(d) + d; } T operator-=(T d) { return fetch_sub(d) - d; }
};
using vp_atomic_bool = vp_atomic<bool>;
namespace vp_this_thread {
    inline void yield() { vp::S().point(nullptr, true); }
    template <class D> void sleep_for(const D &) { vp::S().point(nullptr, true); }
    inline int get_id() { return vp::S().cur; }
}
enum class vp_launch { vp_async = 1, deferred = 2 };
inline vp_launch operator|(vp_launch a, vp_launch) { return a; }
template <class R> struct vp_state { bool ready = false; R val{}; std::exception_ptr ex; std::unique_ptr<vp_thread> th; template <class G> void run(G & g) { try { val = g(); } catch (...) { ex = std::current_exception(); } ready = true; } };
template <> struct vp_state<void> { bool ready = false; int val = 0; std::exception_ptr ex; std::unique_ptr<vp_thread> th; template <class G> void run(G & g) { try { g(); } catch (...) { ex = std::current_exception(); } ready = true; } };
template <class R> class vp_future {
public:
    std::shared_ptr<vp_state<R>> s;
    vp_future() = default; vp_future(vp_future &&) = default; vp_future(const vp_future &) = delete;
    vp_future & operator=(vp_future && o) { release(); s = std::move(o.s); return *this; }
    bool valid() const { return (bool) s; }
    void wait() const { auto p = s.get(); vp::S().point([p] { return p->ready; }); }
    template <class D> std::future_status wait_for(const D &) const { vp::S().point(nullptr, true); return s->ready ? std::future_status::ready : std::future_status::timeout; }
    R get() { wait(); auto k = std::move(s); if (k->th && k->th->joinable()) k->th->join(); if (k->ex) std::rethrow_exception(k->ex); return (R) (k->val); }
    void release() { if (s && s->th && s->th->joinable()) s->th->join(); s.reset(); }
    ~vp_future() { release(); }
};
template <class F, class... A> auto vp_async(vp_launch, F && f, A &&... a) -> vp_future<decltype(std::bind(std::forward<F>(f), std::forward<A>(a)...)())> {
    using R = decltype(std::bind(std::forward<F>(f), std::forward<A>(a)...)());
    auto g = std::bind(std::forward<F>(f), std::forward<A>(a)...);
    vp_future<R> r; r.s = std::make_shared<vp_state<R>>();
    vp_state<R> * p = r.s.get();
    p->th.reset(new vp_thread());
    vp_thread t([p, g]() mutable { p->run(g); });
    *p->th = std::move(t);
    return r;
}
template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, vp_launch>::value>::type>
auto vp_async(F && f, A &&... a) -> vp_future<decltype(std::bind(std::forward<F>(f), std::forward<A>(a)...)())> { return vp_async(vp_launch::vp_async, std::forward<F>(f), std::forward<A>(a)...); }
}

namespace vp {
// explores schedules of body(): depth-first with bounded preemptions, then at random; returns the distinct event lists
inline std::set<std::vector<std::array<int, 2>>> explore(const std::function<void()> & body, int ndfs, int bound, int nrandom, unsigned seed, long & count,
                                                         const std::function<void(const std::vector<std::array<int, 2>> &)> & onstuck) {
    std::set<std::vector<std::array<int, 2>>> res;
    Sched & s = S();
    s.stuck = [&] { s.events.push_back({4, 0}); onstuck(s.events); };
    s.random = false; s.prefix.clear();
    bool more = ndfs > 0;
    for (int k = 0; k < ndfs && more; k++) {
        s.reset(); body(); count++; res.insert(s.events);
        more = false;
        std::vector<Choice> log = s.log;
        for (int i = (int) log.size() - 1; i >= 0 && !more; i--) {
            if (log[i].c + 1 >= log[i].n) continue;
            int pre = 0;
            for (int j = 0; j < i; j++) if (log[j].cur && log[j].c > 0) pre++;
            if (log[i].cur) pre++;
            if (pre > bound) continue;
            s.prefix.clear();
            for (int j = 0; j < i; j++) s.prefix.push_back(log[j].c);
            s.prefix.push_back(log[i].c + 1);
            more = true;
        }
    }
    if (more || ndfs == 0) {
        s.prefix.clear(); s.random = true; s.rng.seed(seed);
        for (int k = 0; k < nrandom; k++) { s.reset(); body(); count++; res.insert(s.events); }
        s.random = false;
    }
    return res;
}
template <class C> void dump(std::FILE * f, const C & runs, const char * status, long count) {
    std::fprintf(f, "{\"status\":\"%s\",\"count\":%ld,\"runs\":[", status, count);
    bool a = false;
    for (auto & r : runs) {
        std::fprintf(f, "%s[", a ? "," : ""); a = true;
        bool b = false;
        for (auto & e : r) { std::fprintf(f, "%s[%d,%d]", b ? "," : "", e[0], e[1]); b = true; }
        std::fprintf(f, "]");
    }
    std::fprintf(f, "]}\n"); std::fflush(f);
}
}
#define mutex vp_mutex
#define condition_variable vp_condition_variable
#define thread vp_thread
#define atomic_flag vp_atomic_flag
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT { false }
#define atomic vp_atomic
#define atomic_bool vp_atomic_bool
#define this_thread vp_this_thread
#define launch vp_launch
#define async vp_async
#define future vp_future
