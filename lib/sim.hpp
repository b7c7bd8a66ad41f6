// Generated agent programs, run by the library's model and by a discrete-event reference simulator.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <pbt.hpp>
#include <esl/agent.hpp>
#include <esl/computation/environment.hpp>
#include <esl/interaction/message.hpp>
#include <esl/simulation/model.hpp>
#include <esl/simulation/parameter/parametrization.hpp>
namespace sim {
using namespace esl; using namespace esl::simulation;
typedef uint64_t u64; typedef int64_t i64;

struct send { int to; i64 delay; int type; int ttl; };                // delay relative to the time of sending, may be negative
struct act_rule { i64 wake; std::vector<send> sends; };               // wake: -1 the end of the window, otherwise relative to now
struct reaction { bool handled = false; int priority = 0; i64 wake = -1; std::vector<send> sends; bool second = false; int priority2 = 0; i64 wake2 = -1; int rank() const { return second ? std::max(priority, priority2) : priority; } };   // second: another handler that only asks to be woken
struct actor_program { int parent = -1; u64 born = 0; i64 dies = -1; bool random = false; std::vector<act_rule> script; reaction on[3]; };   // born, dies: step number before which it is created, removed
struct program {
    u64 start = 0, end = 0, sample = 0; std::vector<actor_program> actors; std::vector<u64> windows;       // windows: per step, 0 = until the end, otherwise at most this long
    int budget = 25;                                                  // messages one agent may send
};
struct event { u64 time, upper; int kind; u64 tag; int sender; u64 sent, received; u64 due_in_inbox;      // kind -1: acts
    bool operator==(const event &o) const { return time == o.time && upper == o.upper && kind == o.kind && tag == o.tag && sender == o.sender && sent == o.sent && received == o.received && due_in_inbox == o.due_in_inbox; } };
inline std::string show(const event &e) { return e.kind < 0 ? PBT_STR("[" << e.time << "," << e.upper << ") acts with " << e.due_in_inbox << " due messages") : PBT_STR("[" << e.time << "," << e.upper << ") gets message " << (e.tag >> 20) << "." << (e.tag & 0xFFFFF) << " type " << e.kind << " from " << e.sender << " sent " << e.sent << " due " << e.received); }
struct message_record { int from, to, type; u64 tag, sent, received; };
struct history {
    std::vector<std::vector<event>> log;                              // per agent
    std::vector<message_record> messages; std::vector<u64> steps;    // all messages sent; start of every step and the final time
    u64 rounds = 0;
};
inline u64 plus(u64 t, i64 d) { return d < 0 && (u64)-d > t ? 0 : t + d; }

// what an agent does, shared by both simulators: state local to the agent
struct actor_state { size_t acts = 0; int sent = 0; };
template<class F> u64 behave_act(const program &p, int me, actor_state &s, u64 now, u64 upper, const std::vector<char> &alive, F post)
{
    auto &a = p.actors[me]; if(s.acts >= a.script.size()) return upper;
    auto &r = a.script[s.acts++]; for(auto &x : r.sends) if(s.sent < p.budget && alive[x.to]) { u64 tag = ((u64)(me + 1) << 20) + s.sent++; post(x, tag, x.ttl); }
    return r.wake < 0 ? upper : now + r.wake;
}
template<class F> u64 behave_message(const program &p, int me, actor_state &s, int type, int ttl, u64 now, u64 upper, const std::vector<char> &alive, F post)
{
    auto &r = p.actors[me].on[type]; if(ttl > 0) for(auto &x : r.sends) if(s.sent < p.budget && alive[x.to]) { u64 tag = ((u64)(me + 1) << 20) + s.sent++; post(x, tag, ttl - 1); }
    u64 w = r.wake < 0 ? upper : std::min(upper, now + (u64)r.wake); return w;
}

inline u64 second_wake(const reaction &r, u64 now, u64 upper) { return !r.second || r.wake2 < 0 ? upper : std::min(upper, now + (u64)r.wake2); }

// ---- reference -------------------------------------------------------------------------------------------------
// rank: the agents in the order in which the model visits them
inline history reference(const program &p, const std::vector<int> &rank, size_t max_steps = 5000)
{
    struct pending { u64 due; int priority; u64 seq; message_record m; int ttl; };
    size_t n = p.actors.size(); history h; h.log.resize(n); std::vector<actor_state> st(n); std::vector<char> alive(n, 0), born(n, 0); std::vector<u64> wake(n, 0); std::vector<std::vector<pending>> inbox(n); u64 seq = 0;
    u64 t = p.start;
    for(size_t step = 0; t < p.end && step < max_steps; ++step) {
        for(size_t i = 0; i < n; ++i) { if(p.actors[i].born == step) { alive[i] = born[i] = 1; wake[i] = t; } if(p.actors[i].dies == (i64)step && alive[i]) { alive[i] = 0; inbox[i].clear(); } }
        h.steps.push_back(t); u64 w = step < p.windows.size() ? p.windows[step] : 0, upper = w ? std::min(p.end, t + w) : p.end; u64 next;
        do {
            std::vector<std::pair<pending, int>> mail; ++h.rounds;
            std::vector<int> acting; for(int i : rank) if(alive[i] && wake[i] <= t) acting.push_back(i);
            for(int i : acting) {
                std::vector<pending> due, later; for(auto &m : inbox[i]) (m.due <= t ? due : later).push_back(m);
                std::stable_sort(due.begin(), due.end(), [](auto &a, auto &b) { return a.priority != b.priority ? a.priority > b.priority : a.due != b.due ? a.due < b.due : a.seq < b.seq; });
                u64 want = upper;
                for(auto &d : due) if(p.actors[i].on[d.m.type].handled) {
                    h.log[i].push_back({t, upper, d.m.type, d.m.tag, d.m.from, d.m.sent, d.m.received, 0});
                    want = std::min(want, behave_message(p, i, st[i], d.m.type, d.ttl, t, upper, alive, [&](const send &x, u64 tag, int ttl) { mail.push_back({{plus(t, x.delay), 0, 0, {i, x.to, x.type, tag, t, plus(t, x.delay)}, ttl}, x.to}); })), want = std::min(want, second_wake(p.actors[i].on[d.m.type], t, upper));
                }
                h.log[i].push_back({t, upper, -1, 0, 0, 0, 0, due.size()});
                want = std::min(want, behave_act(p, i, st[i], t, upper, alive, [&](const send &x, u64 tag, int ttl) { mail.push_back({{plus(t, x.delay), 0, 0, {i, x.to, x.type, tag, t, plus(t, x.delay)}, ttl}, x.to}); }));
                inbox[i] = later; for(auto &m : later) want = std::min(want, m.due); wake[i] = want;
            }
            for(auto &[m, to] : mail) { m.seq = seq++; m.priority = p.actors[to].on[m.m.type].rank(); inbox[to].push_back(m); h.messages.push_back(m.m); wake[to] = std::min(wake[to], m.due); }
            next = p.end; for(size_t i = 0; i < n; ++i) if(alive[i]) next = std::min(next, wake[i]);
        } while(next <= t);
        t = next;
    }
    h.steps.push_back(t); return h;
}

// ---- the library -----------------------------------------------------------------------------------------------
template<unsigned n> struct msg : interaction::message<msg<n>, (u64(3) << 60) | n> { u64 tag = 0; int ttl = 0; msg() = default; msg(u64 t, int l) : tag(t), ttl(l) {} };
struct bench;
struct actor : agent {
    bench *b; int me; actor_state s; std::shared_ptr<data::output<u64>> out;
    actor(identity<actor> i, bench *b, int me);
    time_point act(time_interval step, std::seed_seq &seed) override;
    template<unsigned n> void handle(int priority);
    template<class S> void post(const S &x, u64 tag, int ttl, u64 now);
};
struct stream_key { int who; u64 time, sample; std::vector<uint32_t> words; };
struct bench {
    const program &p; history h; std::vector<std::shared_ptr<actor>> actors; std::vector<identity<agent>> ids; std::vector<char> alive; std::vector<std::vector<std::pair<u64, std::vector<uint32_t>>>> streams;     // per agent: time, seed words
    std::vector<std::vector<message_record>> sent; std::vector<std::string> wrong; std::vector<std::vector<u64>> draws; int throws_at_act = -1; int thrower = -1; int thrower2 = -1;
    explicit bench(const program &p) : p(p) { size_t n = p.actors.size(); h.log.resize(n); actors.resize(n); ids.resize(n); alive.resize(n, 0); streams.resize(n); sent.resize(n); wrong.resize(n); draws.resize(n); }
    parameter::parametrization parameters(unsigned threads, u64 verbosity = 0) const { return parameter::parametrization(p.sample, p.start, p.end, verbosity, threads); }
    int index(const identity<agent> &i) const { for(size_t k = 0; k < ids.size(); ++k) if(ids[k].digits == i.digits) return (int)k; return -1; }
    void create(model &m, int i)
    {
        int q = p.actors[i].parent; if(q >= 0 && actors[q]) actors[i] = m.create<actor, agent>(*actors[q], this, i); else actors[i] = m.create<actor>(this, i);
        ids[i] = actors[i]->identifier; alive[i] = 1;
    }
    void populate(model &m, u64 step)
    {
        for(size_t i = 0; i < p.actors.size(); ++i) { if(p.actors[i].born == step) create(m, (int)i); if(p.actors[i].dies == (i64)step && alive[i]) { m.agents.deactivate(actors[i]); alive[i] = 0; } }
    }
    std::string trouble() const { std::string r; for(auto &w : wrong) r += w; return r; }
    void collect() { h.messages.clear(); for(auto &v : sent) h.messages.insert(h.messages.end(), v.begin(), v.end()); }
};
inline actor::actor(identity<actor> i, bench *b, int me) : agent(identity<agent>(i.digits)), b(b), me(me)
{
    schedule = b->p.actors[me].random ? random : in_order; out = create_output<u64>("out"); out->streams.clear();
    handle<0>(b->p.actors[me].on[0].priority); handle<1>(b->p.actors[me].on[1].priority); handle<2>(b->p.actors[me].on[2].priority);
}
template<class S> void actor::post(const S &x, u64 tag, int ttl, u64 now)
{
    auto go = [&](auto m) { m->sender = identifier; m->sent = now; }; u64 due = plus(now, x.delay); b->sent[me].push_back({me, x.to, x.type, tag, now, due});
    if(x.type == 0) go(create_message<msg<0>>(b->ids[x.to], due, tag, ttl)); else if(x.type == 1) go(create_message<msg<1>>(b->ids[x.to], due, tag, ttl)); else go(create_message<msg<2>>(b->ids[x.to], due, tag, ttl));
}
template<unsigned n> void actor::handle(int priority)
{
    if(!b->p.actors[me].on[n].handled) return;
    register_callback<msg<n>>([this](std::shared_ptr<msg<n>> m, time_interval step, std::seed_seq &seed) -> time_point {
        b->h.log[me].push_back({step.lower, step.upper, (int)n, m->tag, b->index(m->sender), m->sent, m->received, 0});
        if(m->recipient.digits != identifier.digits) b->wrong[me] += "a message for another agent was processed; ";
        if(m->type != msg<n>::code) b->wrong[me] += "a message changed its type; ";
        std::minstd_rand g(seed); b->draws[me].push_back(g());
        return behave_message(b->p, me, s, (int)n, m->ttl, step.lower, step.upper, b->alive, [&](const send &x, u64 tag, int ttl) { post(x, tag, ttl, step.lower); });
    }, (priority_t)priority, "test");
    if(b->p.actors[me].on[n].second) register_callback<msg<n>>([this](std::shared_ptr<msg<n>> m, time_interval step, std::seed_seq &) -> time_point { if(m->recipient.digits != identifier.digits) b->wrong[me] += "a message for another agent was processed; "; return second_wake(b->p.actors[me].on[n], step.lower, step.upper); }, (priority_t)b->p.actors[me].on[n].priority2, "second");
}
inline time_point actor::act(time_interval step, std::seed_seq &seed)
{
    size_t due = 0; for(auto &[t, m] : inbox) due += t <= step.lower; b->h.log[me].push_back({step.lower, step.upper, -1, 0, 0, 0, 0, due});
    std::vector<uint32_t> w(seed.size()); seed.param(w.begin()); b->streams[me].push_back({step.lower, w}); std::mt19937_64 g(seed); b->draws[me].push_back(g()); out->put(step.lower, g());
    if((me == b->thrower || me == b->thrower2) && (int)s.acts == b->throws_at_act) throw std::runtime_error("agent " + std::to_string(me));
    return behave_act(b->p, me, s, step.lower, step.upper, b->alive, [&](const send &x, u64 tag, int ttl) { post(x, tag, ttl, step.lower); });
}
// runs the program step by step
struct options { unsigned threads = 1; int drive = 0; size_t max_steps = 5000; };    // drive 0: model::step, 1: environment::step (only with full windows)
inline void run(bench &b, options o)
{
    computation::environment e; model m(e, b.parameters(o.threads)); u64 t = b.p.start; if(m.threads != std::max(1u, o.threads)) b.wrong[0] += "the model does not use the number of threads asked for; ";
    size_t step = 0;
    for(; t < b.p.end && step < o.max_steps; ++step) {
        b.populate(m, step); b.h.steps.push_back(t);
        u64 w = step < b.p.windows.size() ? b.p.windows[step] : 0, upper = w ? std::min(b.p.end, t + w) : b.p.end, next;
        if(o.drive == 1) { e.step(m); next = m.time; } else if(o.drive == 2 && upper == b.p.end) next = m.step(); else next = m.step({t, upper});
        if(m.time != next) b.wrong[0] += "the model's time is not the time reached; ";
        for(size_t i = 0; i < b.actors.size(); ++i) if(b.alive[i]) {
            if(!b.actors[i]->outbox.empty()) b.wrong[0] += PBT_STR("agent " << i << " still has unsent messages after a step; ");
            for(auto &[due, x] : b.actors[i]->inbox) if(due <= t) b.wrong[0] += PBT_STR("agent " << i << " still holds a message that was due; ");
        }
        if(next <= t) { b.wrong[0] += PBT_STR("time does not advance: " << t << " to " << next << "; "); break; }
        t = next;
    }
    b.h.steps.push_back(t); b.h.rounds = 0; b.collect(); if(m.messages_sent != b.h.messages.size()) b.wrong[0] += PBT_STR("the model counts " << m.messages_sent << " messages, " << b.h.messages.size() << " were sent; ");
}
inline std::vector<int> rank(const bench &b) { std::vector<int> r; for(size_t i = 0; i < b.ids.size(); ++i) r.push_back((int)i); std::sort(r.begin(), r.end(), [&](int x, int y) { return b.ids[x].digits < b.ids[y].digits; }); return r; }

// ---- generator -------------------------------------------------------------------------------------------------
struct shape { int max_actors = 8; bool random = false, population = false, windows = true, negative = true, crowd = false; };
inline send gen_send(pbt::Ctx &c, size_t n, bool negative)
{
    send s; s.to = (int)c.below(n); switch(c.below(4)) { case 0: s.delay = 0; break; case 1: s.delay = 1; break; case 2: s.delay = (i64)c.below(15); break; default: s.delay = negative ? c.range(-4, 20) : (i64)c.below(20); }
    s.type = (int)c.below(3); s.ttl = (int)c.below(4); return s;
}
inline program generate(pbt::Ctx &c, shape sh)
{
    program p; p.start = c.below(3) ? c.below(10) : c.big(u64(1) << 61); u64 len = c.below(6) ? 1 + c.below(40) : 1 + c.big(u64(1) << 40); p.end = p.start + len; p.sample = c.below(4) ? c.below(5) : c.big(u64(1) << 32);
    size_t n = 1 + c.below(sh.max_actors); p.budget = 8 + (int)c.below(20);
    for(size_t i = 0; i < n; ++i) {
        actor_program a; if(i && c.below(4) == 0) a.parent = (int)c.below(i); a.random = sh.random && c.flip();
        if(sh.population) { if(c.below(3) == 0) a.born = c.below(6); if(c.below(3) == 0) a.dies = (i64)(a.born + c.below(6)); }
        while(c.more(3, a.script.size(), 12)) { act_rule r; r.wake = c.below(4) == 0 ? -1 : c.below(8) == 0 ? 0 : c.below(12) == 0 ? (i64)c.big(u64(1) << 41) : 1 + (i64)c.below(10); while(c.more(1, r.sends.size(), 4)) r.sends.push_back(gen_send(c, n, sh.negative)); a.script.push_back(r); }
        for(auto &r : a.on) { r.handled = c.below(5) != 0; r.priority = r.handled ? (int)c.range(-2, 2) : 0; if(r.handled && c.below(4) == 0) { r.second = true; r.priority2 = (int)c.range(-2, 2); r.wake2 = c.flip() ? (i64)c.below(8) : -1; } r.wake = c.below(3) ? -1 : (i64)c.below(8); if(c.flip()) while(c.more(1, r.sends.size(), 3)) r.sends.push_back(gen_send(c, n, sh.negative)); }
        p.actors.push_back(a);
    }
    if(sh.crowd) {       // one agent sends hundreds to thousands of messages at once, following a short pattern
        auto &a = p.actors[c.below(n)]; if(a.script.empty()) a.script.push_back({1, {}}); auto &r = a.script[c.below(a.script.size())]; std::vector<send> pattern; for(size_t k = 1 + c.below(5); k; --k) { pattern.push_back(gen_send(c, n, sh.negative)); pattern.back().ttl = 0; }
        size_t many = 60 + (c.below(4) ? c.below(400) : c.below(3000)); r.sends.clear(); for(size_t k = 0; k < many; ++k) r.sends.push_back(pattern[k % pattern.size()]); p.budget = (int)many + 20; for(auto &x : p.actors) for(auto &o : x.on) for(auto &s : o.sends) s.ttl = 0;
    }
    if(sh.windows && len <= 40 && c.below(3) == 0) for(size_t i = 0; i < 12; ++i) p.windows.push_back(c.flip() ? 0 : 1 + c.below(8));
    return p;
}
inline std::string show(const std::vector<send> &v) { std::string r; for(auto &s : v) r += PBT_STR(" (type " << s.type << " to " << s.to << " delay " << s.delay << " ttl " << s.ttl << ")"); return r; }
inline void describe(pbt::Ctx &c, const program &p)
{
    if(!c.noting) return; NOTE("time " << p.start << " to " << p.end << ", sample " << p.sample << ", at most " << p.budget << " messages each");
    for(size_t i = 0; i < p.windows.size(); ++i) if(p.windows[i]) NOTE("step " << i << " has a window of " << p.windows[i]);
    for(size_t i = 0; i < p.actors.size(); ++i) { auto &a = p.actors[i]; NOTE("agent " << i << (a.parent >= 0 ? PBT_STR(" created by " << a.parent) : std::string()) << (a.born ? PBT_STR(" created before step " << a.born) : std::string()) << (a.dies >= 0 ? PBT_STR(" removed before step " << a.dies) : std::string()) << (a.random ? " random" : ""));
        for(auto &r : a.script) NOTE("   acts: wake " << (r.wake < 0 ? std::string("at the end") : "after " + std::to_string(r.wake)) << " sends" << show(r.sends));
        for(int k = 0; k < 3; ++k) if(a.on[k].handled) NOTE("   message type " << k << " priority " << a.on[k].priority << ": wake " << (a.on[k].wake < 0 ? std::string("at the end") : "after " + std::to_string(a.on[k].wake)) << " sends" << show(a.on[k].sends) << (a.on[k].second ? PBT_STR("; second handler priority " << a.on[k].priority2 << " wake " << a.on[k].wake2) : std::string())); }
}
// first difference between the logs of one agent, restricted by `keep`
template<class F> std::string difference(const std::vector<event> &got, const std::vector<event> &want, F keep)
{
    std::vector<event> a, b; for(auto &e : got) if(keep(e)) a.push_back(e); for(auto &e : want) if(keep(e)) b.push_back(e);
    for(size_t i = 0; i < std::max(a.size(), b.size()); ++i) if(i >= a.size() || i >= b.size() || !(a[i] == b[i])) return PBT_STR("event " << i << ": got " << (i < a.size() ? show(a[i]) : std::string("nothing")) << ", expected " << (i < b.size() ? show(b[i]) : std::string("nothing")));
    return "";
}
}
#endif
