// Block pool: model of live elements.
// FLAGS: -fsanitize=address
#include <pbt.hpp>
#include <map>
#include <set>
#include <esl/computation/block_pool.hpp>
using esl::computation::block_pool::static_block_pool;
using esl::computation::block_pool::block;
typedef uint64_t u64;

template<typename V> static V value(u64 n);
template<> u64 value<u64>(u64 n) { return n * 0x9E3779B97F4A7C15ull; }
template<> std::string value<std::string>(u64 n) { return std::string(n % 40, 'a' + (char)(n % 26)) + std::to_string(n); }

template<typename V> static void history(pbt::Ctx &c)
{
    size_t cap = c.below(4) ? 1 + c.below(9) : 1 + c.below(70);
    static_block_pool<V> pool(cap); const static_block_pool<V> &view = pool;
    std::map<u64, std::pair<V, block<V> *>> live; std::vector<u64> dead; u64 stamp = 1, last = 0; bool any = false; int reused = 0, refused = 0, stale = 0;
    std::set<block<V> *> slots; int bias = 1 + (int)c.below(7);
    NOTE("capacity " << cap);
    auto verify = [&](const char *when) {
        c.eq(pool.size(), live.size(), std::string("size after ") + when); c.eq(pool.capacity(), cap, "capacity");
        for(auto &[i, e] : live) {
            c.check(pool[i] == e.first, "value of live element " + std::to_string(i) + " changed after " + when);
            c.check(view[i] == e.first, "value of live element " + std::to_string(i) + " read through a constant pool");
            c.check(&pool[i] == &e.second->data, "element " + std::to_string(i) + " moved");
        }
    };
    while(c.more(40, 0, 4000)) {
        unsigned op = (unsigned)c.below(10);
        if(op < (unsigned)bias + 1) {
            V v = value<V>(stamp++);
            if(live.size() == cap) {
                ++refused; NOTE("emplace on full pool");
                c.check(pbt::throws_a<std::length_error>([&] { pool.emplace(v); }), "a full pool accepted another element"); verify("refused emplace"); continue;
            }
            auto [i, b] = pool.emplace(v); NOTE("emplace -> " << i);
            if(any) c.check(i > last, "index " + std::to_string(i) + " does not increase over " + std::to_string(last)); any = true; last = i;
            c.check(b != nullptr, "no block for the element");
            for(auto &l : live) c.check(l.second.second != b, "slot of live element " + std::to_string(l.first) + " handed out again");
            if(!slots.insert(b).second) ++reused; c.check(slots.size() <= cap, "more slots than capacity");
            c.check(b->data == v, "block does not hold the element"); live.emplace(i, std::make_pair(v, b)); verify("emplace");
        } else if(op < 9 || dead.empty()) {
            if(live.empty()) { u64 i = c.below(2 * cap); NOTE("erase from empty " << i); ++stale;
                c.eq((u64)pool.erase(i), (u64)0, "elements erased from an empty pool"); verify("erase on empty"); continue; }
            auto it = live.begin(); std::advance(it, c.below(live.size())); u64 i = it->first; NOTE("erase " << i);
            c.eq((u64)pool.erase(i), (u64)1, "elements erased"); live.erase(it); dead.push_back(i); verify("erase");
        } else {
            u64 i = c.below(3) ? dead[c.below(dead.size())] : last + 1 + c.below(3 * cap);
            if(c.below(4) == 0) { auto it = live.begin(); if(!live.empty()) { std::advance(it, c.below(live.size())); i = it->first; } i = c.flip() ? i ^ (u64(1) << c.below(64)) : i + cap * (1 + c.big(~u64(0) / cap - 2)); if(live.count(i)) continue; } NOTE("stale erase " << i); ++stale;
            c.eq((u64)pool.erase(i), (u64)0, "elements erased with an index that is not live"); verify("stale erase");
        }
    }
    // the pool can always be filled to its capacity, and emptied again
    while(live.size() < cap) { V v = value<V>(stamp++); auto [i, b] = pool.emplace(v); c.check(!any || i > last, "index does not increase while filling"); any = true; last = i;
        for(auto &l : live) c.check(l.second.second != b, "slot of a live element handed out again while filling"); live.emplace(i, std::make_pair(v, b)); }
    verify("filling"); V x = value<V>(0); c.check(pbt::throws_a<std::length_error>([&] { pool.emplace(x); }), "a filled pool accepted another element"); verify("filling");
    while(!live.empty()) { c.eq((u64)pool.erase(live.begin()->first), (u64)1, "erase while emptying"); live.erase(live.begin()); } verify("emptying");
    c.nontrivial(reused >= 2 && stale); c.label(refused ? "reached capacity" : "below capacity");
}
PBT(numbers, 60000, 1500000, "at least two slots were reused and a stale erase was attempted") { history<u64>(c); }
PBT(strings, 20000, 500000, "at least two slots were reused and a stale erase was attempted") { history<std::string>(c); }
// pools that are used for a long time
PBT(long_lives, 160, 4000, "more than a thousand rounds through the pool")
{
    bool vast = c.below(4) == 0; size_t cap = 1 + (vast ? c.big(1 << 16) : c.below(4)), keep = c.below(std::min<size_t>(cap, 5)), burst = 1 + c.below(std::min<size_t>(cap - keep, 5)); u64 n = c.below(3) ? 100 + c.below(3000) : c.below(c.flip() ? 300000 : 4000000); static_block_pool<u64> pool(cap); NOTE("capacity " << cap << ", " << keep << " elements stay, " << n << " times " << burst << " are added and removed"); c.nontrivial(n > 1000);
    std::vector<std::pair<u64, u64>> stay; u64 last = 0; bool any = false; for(size_t i = 0; i < keep; ++i) { auto k = pool.emplace(value<u64>(i)).first; c.check(!any || k > last, "index does not increase"); last = k; any = true; stay.emplace_back(k, value<u64>(i)); } bool lifo = c.flip();
    for(u64 r = 0; r < n; ++r) {
        std::vector<u64> v; for(size_t i = 0; i < burst; ++i) { u64 k = pool.emplace(value<u64>(r + i)).first; if(any && k <= last) c.fail(PBT_STR("index " << k << " does not increase over " << last << " in round " << r)); last = k; any = true; v.push_back(k); }
        for(size_t i = 0; i < burst; ++i) if(pool[v[i]] != value<u64>(r + i)) c.fail(PBT_STR("value of live element " << v[i] << " changed in round " << r)); if(lifo) std::reverse(v.begin(), v.end());
        for(auto k : v) { if(pool.erase(k) != 1) c.fail(PBT_STR("live element " << k << " could not be erased in round " << r)); if(pool.erase(k) != 0) c.fail(PBT_STR("element " << k << " was erased twice in round " << r)); }
        for(auto &[k, x] : stay) if(pool[k] != x) c.fail(PBT_STR("value of live element " << k << " changed in round " << r)); if(pool.size() != keep) c.fail(PBT_STR("size in round " << r));
    }
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
