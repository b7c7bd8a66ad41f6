// Thread pool and blocking queue.
// SOURCES:
// FLAGS: -fsanitize=thread
#include <atomic>
#include <chrono>
#include <string>
#include <thread>
#include <vector>
#include <pbt.hpp>
#include <esl/computation/blocking_queue.hpp>
#include <esl/computation/thread_pool.hpp>
using namespace esl::computation;
// the reference counts of exceptions live in the uninstrumented run-time library
extern "C" const char *__tsan_default_suppressions() { return "race:std::__exception_ptr\nrace:std::runtime_error\n"; }
typedef uint64_t u64; typedef int64_t i64;
static void dawdle(u64 k) { if(k < 6) return; if(k < 9) { std::this_thread::yield(); return; } std::this_thread::sleep_for(std::chrono::microseconds(20 * (k - 8))); }
// one thread: a queue is a queue
template<class T> static void single(pbt::Ctx &c, T (*make)(u64), u64 (*read)(const T &))
{
    blocking_queue<T> q; std::deque<u64> w; bool closed = false, after = false, empty = false; u64 k = 1; size_t most = 0;
    while(c.more(12, 0, 60)) { switch(c.below(closed ? 12 : 7)) {
        case 0: if(closed) break; q.push(make(k)); w.push_back(k++); NOTE("push"); break;
        case 1: if(closed) break; { T t = make(k); if constexpr(std::is_copy_constructible<T>::value) q.push(t); else q.push(std::move(t)); if constexpr(std::is_copy_constructible<T>::value) c.eq(read(t), k, "the pushed original"); w.push_back(k++); NOTE("push a copy"); break; }
        case 2: if(closed) break; c.check(q.try_push(make(k)), "an idle queue refused an element"); w.push_back(k++); NOTE("try to push"); break;
        case 3: if(closed) break; { T t = make(k); if constexpr(std::is_copy_constructible<T>::value) { c.check(q.try_push(t), "an idle queue refused an element"); c.eq(read(t), k, "the pushed original"); } else c.check(q.try_push(std::move(t)), "an idle queue refused an element"); w.push_back(k++); NOTE("try to push a copy"); break; }
        case 4: case 8: { T t = make(0); bool got = q.try_pop(t); NOTE("try to pop"); c.eq(got, !w.empty(), "whether there was an element"); if(got) { c.eq(read(t), w.front(), "element"); w.pop_front(); } else { c.eq(read(t), (u64)0, "element when there was none"); empty = true; } break; }
        case 5: case 9: case 10: { if(w.empty() && !closed) break; T t = make(0); bool got = q.pop(t); NOTE("pop"); c.eq(got, !w.empty(), "whether there was an element"); if(got) { c.eq(read(t), w.front(), "element"); w.pop_front(); after |= closed; } else c.eq(read(t), (u64)0, "element when there was none"); break; }
        default: if(c.below(8) == 0) { q.close(); closed = true; NOTE("close"); } }
        c.eq(q.empty(), w.empty(), "whether the queue is empty"); c.eq((size_t)q.size(), w.size(), "elements in the queue"); most = std::max(most, w.size()); }
    c.nontrivial(most >= 3 && empty); if(after) c.label("drained after closing");
}
struct sole { std::unique_ptr<u64> v; };
PBT(queue, 60000, 1500000, "at least three elements at once, and the queue found empty")
{
    switch(c.below(3)) { case 0: single<u64>(c, [](u64 k) { return k; }, [](const u64 &k) { return k; }); break; case 1: single<std::string>(c, [](u64 k) { return std::to_string(k) + " a text too long to be stored in place"; }, [](const std::string &s) -> u64 { return s.empty() ? ~u64(0) : (u64)std::stoull(s); }); break; default: single<std::vector<u64>>(c, [](u64 k) { return std::vector<u64>(3, k); }, [](const std::vector<u64> &v) -> u64 { return v.size() == 3 ? v[0] : ~u64(0); }); }
}
PBT(closed_queue, 20000, 300000, "elements are held when the queue is closed")
{
    blocking_queue<u64> q; size_t n = c.few(5); for(size_t i = 0; i < n; ++i) q.push(i); q.close(); if(c.flip()) q.close(); NOTE(n << " elements when closed"); bool accepted = q.try_push(77); if(accepted) c.known("push-after-close", "a closed queue accepts elements"); u64 v = 0; for(size_t i = 0; i < n; ++i) { c.check(q.pop(v), "a closed queue lost an element"); c.eq(v, (u64)i, "element"); } if(accepted) { c.check(q.pop(v), "an accepted element is lost"); c.eq(v, (u64)77, "element"); } c.check(!q.pop(v) && !q.try_pop(v) && q.empty(), "an exhausted queue yields an element"); c.nontrivial(n > 0);
}
PBT_SCHED(producers_and_consumers, 12000, 200000, "at least two producers, two consumers and ten elements")
{
    size_t np = 1 + c.below(4), nc = 1 + c.below(5), each = c.few(30); struct plan { std::vector<u64> how, wait; }; std::vector<plan> p(np), r(nc); for(auto *v : {&p, &r}) for(auto &x : *v) for(size_t i = 0; i < 8; ++i) { x.how.push_back(c.below(4)); x.wait.push_back(c.below(14)); } for(auto &x : r) x.how[7] = 1; u64 late = c.below(14); bool text = c.flip(); NOTE(np << " producers of " << each << ", " << nc << " consumers"); c.nontrivial(np >= 2 && nc >= 2 && np * each >= 10);
    blocking_queue<u64> q; blocking_queue<std::string> qs; std::vector<std::vector<u64>> got(nc); std::vector<std::thread> tp, tc; std::atomic<bool> bad(false);
    for(size_t k = 0; k < nc; ++k) tc.emplace_back([&, k] { for(size_t i = 0;; ++i) { dawdle(r[k].wait[i % 8]); u64 v = ~0ull; std::string s; bool tried = r[k].how[i % 8] == 0, have = text ? (tried ? qs.try_pop(s) : qs.pop(s)) : tried ? q.try_pop(v) : q.pop(v); if(have && text) v = s.empty() ? ~0ull : std::stoull(s); if(have) got[k].push_back(v); else if(!tried) break; } u64 v; std::string s; if(text ? qs.pop(s) : q.pop(v)) bad = true; });
    for(size_t k = 0; k < np; ++k) tp.emplace_back([&, k] { for(size_t i = 0; i < each; ++i) { dawdle(p[k].wait[i % 8]); u64 v = k * 1000000 + i; std::string s = std::to_string(v) + " a text too long to be stored in place"; switch(p[k].how[i % 8]) { case 0: if(text) { while(!qs.try_push(s)) std::this_thread::yield(); } else while(!q.try_push(v)) std::this_thread::yield(); break; case 1: if(text) qs.push(s); else q.push(v); break; case 2: if(text) { while(!qs.try_push(std::move(s))) std::this_thread::yield(); } else while(!q.try_push(u64(v))) std::this_thread::yield(); break; default: if(text) qs.push(std::move(s)); else q.push(u64(v)); } } });
    for(auto &t : tp) t.join(); dawdle(late); text ? qs.close() : q.close(); for(auto &t : tc) t.join(); c.check(!bad, "an exhausted queue yielded an element"); std::map<u64, int> seen; for(auto &g : got) { std::map<u64, u64> last; for(u64 v : g) { ++seen[v]; if(last.count(v / 1000000)) c.check(last[v / 1000000] < v, "elements of one producer arrived out of order"); last[v / 1000000] = v; } } for(size_t k = 0; k < np; ++k) for(size_t i = 0; i < each; ++i) c.eq(seen[k * 1000000 + i], 1, "times an element was popped"); c.eq(seen.size(), np * each, "elements popped"); c.check(text ? qs.empty() : q.empty(), "elements were left behind");
}
// as many elements as consumers that wait for one: nobody keeps waiting while an element is held
PBT_SCHED(waiting_consumers, 6000, 100000, "at least two consumers, and two elements pushed in succession")
{
    size_t nc = 1 + c.below(6), burst = 1 + c.below(3), np = 1 + c.below(2); u64 settle = c.below(4) * 60, kind = c.below(5); NOTE(nc << " consumers, elements in bursts of " << burst << " from " << np << " producers, pushed in manner " << kind << " after " << settle << " us"); c.nontrivial(nc >= 2 && burst >= 2);
    blocking_queue<u64> q; std::atomic<size_t> served(0); std::vector<std::thread> t, p; std::vector<u64> got(nc, ~0ull); for(size_t k = 0; k < nc; ++k) t.emplace_back([&, k] { u64 v = ~0ull; if(q.pop(v)) got[k] = v; ++served; }); if(settle) std::this_thread::sleep_for(std::chrono::microseconds(settle));
    for(size_t g = 0; g < np; ++g) p.emplace_back([&, g] { size_t n = 0; for(size_t i = g; i < nc; i += np) { switch(kind == 4 ? i % 4 : kind) { case 0: q.push(u64(i)); break; case 1: { u64 v = i; q.push(v); break; } case 2: while(!q.try_push(u64(i))) std::this_thread::yield(); break; default: { u64 v = i; while(!q.try_push(v)) std::this_thread::yield(); } } if(++n % burst == 0) std::this_thread::sleep_for(std::chrono::microseconds(30)); } });
    for(auto &x : p) x.join(); auto t0 = std::chrono::steady_clock::now(); bool stalled = false; size_t held = 0; while(served < nc) { std::this_thread::sleep_for(std::chrono::microseconds(50)); if(std::chrono::steady_clock::now() - t0 > std::chrono::seconds(10)) { stalled = true; held = q.size(); break; } } q.close(); for(auto &x : t) x.join(); c.check(!stalled, PBT_STR("a consumer keeps waiting while the queue holds " << held << " elements")); std::set<u64> all(got.begin(), got.end()); c.check(all.size() == nc && (nc == 0 || *all.rbegin() == nc - 1), "the consumers did not get every element once");
}
struct oops : std::runtime_error { u64 k; explicit oops(u64 k) : std::runtime_error("oops " + std::to_string(k)), k(k) {} };
PBT_SCHED(pool, 12000, 200000, "at least two threads, ten tasks, of which one throws and one is given by another task")
{
    unsigned threads = c.below(20) == 0 ? 0 : 1 + (unsigned)c.below(c.below(3) ? 4 : 16); size_t n = c.few(60), givers = c.below(3) ? 1 : 1 + c.below(3); struct job { int kind; u64 wait; }; std::vector<job> jobs(n); bool throws = false, nests = false; for(auto &j : jobs) { j = {(int)c.below(6), c.below(16)}; throws |= j.kind == 2; nests |= j.kind == 5; } NOTE(threads << " threads, " << n << " tasks from " << givers << " threads"); c.nontrivial(threads >= 2 && n >= 10 && throws && nests);
    std::vector<std::atomic<int>> ran(n), inner(n); for(auto &x : ran) x = 0; for(auto &x : inner) x = 0; std::mutex m; std::set<std::thread::id> ids; auto mark = [&](size_t i) { dawdle(jobs[i].wait); ++ran[i]; std::lock_guard<std::mutex> l(m); ids.insert(std::this_thread::get_id()); }; std::vector<std::string> wrong(givers); unsigned used = 0;
    { thread_pool p(threads); used = p.threads; if(threads) c.eq(used, threads, "threads of the pool"); else c.check(used >= 1, "the pool has no threads"); std::vector<std::thread> t; auto give = [&](size_t g) { std::vector<std::pair<size_t, std::future<u64>>> f; std::vector<std::pair<size_t, std::future<void>>> fv; std::vector<std::pair<size_t, std::future<std::future<u64>>>> ff; std::vector<std::pair<size_t, std::future<std::unique_ptr<u64>>>> fu;
            for(size_t i = g; i < n; i += givers) switch(jobs[i].kind) { case 0: p.enqueue_work([&mark, i] { mark(i); }); break; case 1: f.emplace_back(i, p.enqueue_task([&mark](size_t i, u64 k) { mark(i); return k * 3 + i; }, i, u64(7))); break; case 2: f.emplace_back(i, p.enqueue_task([&mark, i]() -> u64 { mark(i); throw oops(i); })); break; case 3: if(i % 2) fu.emplace_back(i, p.enqueue_task([&mark, i] { mark(i); return std::make_unique<u64>(i); })); else fv.emplace_back(i, p.enqueue_task([&mark](const std::string &s, size_t i) { if(s == "text") mark(i); }, std::string("text"), i)); break; case 4: p.enqueue_work([&mark](size_t i, const std::string &s) { if(s == "text") mark(i); }, i, std::string("text")); break; default: ff.emplace_back(i, p.enqueue_task([&, i] { mark(i); return p.enqueue_task([&inner, i] { ++inner[i]; return u64(i + 1); }); })); }
            for(auto &[i, x] : f) try { u64 v = x.get(); if(jobs[i].kind == 2) wrong[g] = "the exception of a task is lost"; else if(v != 21 + i) wrong[g] = "a future holds another result"; } catch(const oops &e) { if(jobs[i].kind != 2 || e.k != i || e.what() != "oops " + std::to_string(i)) wrong[g] = "a future holds another exception"; } for(auto &[i, x] : fv) x.get(); for(auto &[i, x] : fu) { auto v = x.get(); if(!v || *v != i) wrong[g] = "a future holds another result"; } for(auto &[i, x] : ff) if(x.get().get() != i + 1) wrong[g] = "a future of a task given by a task holds another result"; };
        if(givers == 1) give(0); else { for(size_t g = 0; g < givers; ++g) t.emplace_back(give, g); for(auto &x : t) x.join(); } }
    for(auto &s : wrong) c.check(s.empty(), s); for(size_t i = 0; i < n; ++i) { c.eq((int)ran[i], 1, PBT_STR("times task " << i << " ran")); c.eq((int)inner[i], jobs[i].kind == 5 ? 1 : 0, PBT_STR("times the task given by task " << i << " ran")); } c.check(ids.size() <= used && !ids.count(std::this_thread::get_id()), "tasks ran outside the threads of the pool");
}
PBT_SCHED(destruction, 12000, 200000, "more tasks than threads, some of them slow")
{
    unsigned threads = 1 + (unsigned)c.below(6); size_t n = c.few(40); u64 wait = c.below(20); std::atomic<size_t> ran(0); std::vector<std::future<size_t>> f; NOTE(threads << " threads, " << n << " tasks"); { thread_pool p(threads); for(size_t i = 0; i < n; ++i) { if(i % 3 == 0) f.push_back(p.enqueue_task([&ran, i, wait] { if(i % 4 == 0) dawdle(wait); ++ran; return i; })); else p.enqueue_work([&ran, wait, i] { if(i % 4 == 0) dawdle(wait); ++ran; }); } } c.eq((size_t)ran, n, "tasks run when the pool is gone"); for(size_t i = 0; i < f.size(); ++i) c.eq(f[i].get(), 3 * i, "result after the pool is gone"); c.nontrivial(n > threads && wait > 8);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
