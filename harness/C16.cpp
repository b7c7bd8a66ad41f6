// Reproducibility and independence of the number of threads, with data race detection.
// SOURCES: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
// FLAGS: -fsanitize=thread
#include <sim.hpp>
using namespace sim;
// reference counts of exceptions live in the C++ runtime, which is not instrumented
extern "C" const char *__tsan_default_suppressions() { return "race:std::__exception_ptr\nrace:std::runtime_error\n"; }
struct outcome { history h; std::vector<std::vector<std::pair<u64, std::vector<uint32_t>>>> streams; std::vector<std::vector<u64>> draws; std::vector<std::vector<std::tuple<time_point, u64>>> outputs; };
static outcome execute(pbt::Ctx &c, const program &p, options o)
{
    bench b(p); run(b, o); c.check(b.trouble().empty(), b.trouble()); outcome r; for(auto &a : b.actors) r.outputs.push_back(a ? a->out->values : decltype(a->out->values){}); r.h = b.h; r.streams = b.streams; r.draws = b.draws; return r;
}
static void same(pbt::Ctx &c, const outcome &a, const outcome &b, const std::string &what)
{
    for(size_t i = 0; i < a.h.log.size(); ++i) { auto d = difference(a.h.log[i], b.h.log[i], [](auto &) { return true; }); c.check(d.empty(), PBT_STR("agent " << i << " behaves differently " << what << ": " << d)); c.check(a.streams[i] == b.streams[i] && a.draws[i] == b.draws[i], PBT_STR("agent " << i << " has other random numbers " << what)); c.check(a.outputs[i] == b.outputs[i], PBT_STR("agent " << i << " has other outputs " << what)); }
    auto key = [](const message_record &m) { return std::make_tuple(m.tag, m.from, m.to, m.type, m.sent, m.received); }; std::set<decltype(key(a.h.messages[0]))> A, B; for(auto &m : a.h.messages) A.insert(key(m)); for(auto &m : b.h.messages) B.insert(key(m)); c.check(A == B, "other messages are sent " + what); c.check(a.h.steps == b.h.steps, "time advances differently " + what);
}
static void compare(pbt::Ctx &c, shape s, bool threads)
{
    s.random = true; program p = generate(c, s); describe(c, p); options o; o.drive = p.windows.empty() ? (int)c.below(3) : 0; outcome a = execute(c, p, o); size_t acts = 0, msgs = a.h.messages.size(); for(auto &l : a.h.log) for(auto &e : l) acts += e.kind < 0;
    if(!threads) { same(c, execute(c, p, o), a, "when run again"); c.nontrivial(p.actors.size() >= 2 && acts >= 6 && msgs >= 3); return; }
    options q = o; q.threads = 2 + (unsigned)c.below(c.below(8) ? 15 : 80); q.drive = p.windows.empty() ? (int)c.below(3) : 0; NOTE(q.threads << " threads"); same(c, execute(c, p, q), a, PBT_STR("with " << q.threads << " threads")); c.nontrivial(p.actors.size() >= 2 && acts >= 6 && msgs >= 3); c.label(q.threads > p.actors.size() ? "more threads than agents" : "fewer threads than agents");
}
PBT(repeated_runs, 2500, 60000, "at least two agents, six acts and three messages") { compare(c, shape{}, false); }
PBT_SCHED(threads, 4000, 100000, "at least two agents, six acts and three messages") { shape s; s.max_actors = 16; compare(c, s, true); }
PBT_SCHED(crowds, 150, 5000, "at least two agents, six acts and three messages") { shape s; s.crowd = true; compare(c, s, true); }
PBT_SCHED(many_agents, 150, 4000, "at least two agents, six acts and three messages") { shape s; s.max_actors = 120; compare(c, s, true); }
PBT_SCHED(changing_population, 1500, 40000, "at least two agents, six acts and three messages") { shape s; s.population = true; s.max_actors = 12; compare(c, s, true); }
// every (agent, time, round, sample) has a random stream of its own
PBT(streams, 3000, 80000, "at least two agents and six acts")
{
    program p = generate(c, shape{}); p.sample = c.flip() ? c.below(5) : c.big(~0ull >> 1); describe(c, p); outcome a = execute(c, p, {}); std::map<std::vector<uint32_t>, std::string> seen; size_t acts = 0;
    auto add = [&](const outcome &o, u64 sample) { for(size_t i = 0; i < o.streams.size(); ++i) for(size_t k = 0; k < o.streams[i].size(); ++k) { std::string who = PBT_STR("agent " << i << " at " << o.streams[i][k].first << " act " << k << " sample " << sample); auto f = seen.emplace(o.streams[i][k].second, who); c.check(f.second, who + " has the random stream of " + f.first->second); ++acts; } };
    add(a, p.sample); program q = p; if(c.flip()) q.sample += 1 + c.below(3); else q.sample ^= u64(1) << (31 + c.below(33)); NOTE("other sample " << q.sample); add(execute(c, q, {}), q.sample); c.nontrivial(p.actors.size() >= 2 && acts >= 12);
}
PBT(many_rounds, 60, 1500, "the agent acts more than fifty times at one time")
{
    program p; p.start = c.moment(20); p.end = p.start + 3 + c.below(3); actor_program a; size_t n = c.below(3) ? 20 + c.below(600) : c.below(20000); for(size_t i = 0; i < n; ++i) a.script.push_back({0, {}}); a.script.push_back({1, {}}); for(size_t i = 0; i < n / 2; ++i) a.script.push_back({0, {}}); p.actors.push_back(a); NOTE("an agent acts " << n + 1 << " times at " << p.start); c.nontrivial(n > 50);
    outcome o = execute(c, p, {}); c.check(o.streams[0].size() >= n, "the agent does not act as often as it asks to"); std::map<std::vector<uint32_t>, size_t> seen; for(size_t k = 0; k < o.streams[0].size(); ++k) { auto f = seen.emplace(o.streams[0][k].second, k); c.check(f.second, PBT_STR("acts " << f.first->second << " and " << k << " have the same random stream")); }
}
PBT(distant_times, 3000, 80000, "the times differ by a multiple of 2^32")
{
    program p; p.start = c.below(100); u64 d = c.flip() ? (1 + c.below(1000)) << 32 : 1 + c.big(u64(1) << 50); p.end = p.start + d + 5; actor_program a; a.script.push_back({(i64)d, {}}); p.actors.push_back(a); describe(c, p); outcome o = execute(c, p, {}); c.check(o.streams[0].size() >= 2, "the agent does not act at both times"); c.nontrivial(d % (u64(1) << 32) == 0);
    c.check(o.streams[0][0].second != o.streams[0][1].second, PBT_STR("times " << o.streams[0][0].first << " and " << o.streams[0][1].first << " have the same random stream"));
}
// an agent that fails is reported to the caller, whatever the number of threads
PBT_SCHED(errors, 2000, 50000, "the failing agent acts before the end")
{
    shape s; s.max_actors = 12; program p = generate(c, s); describe(c, p); int who = (int)c.below(p.actors.size()), at = (int)c.below(4), who2 = c.flip() ? (int)c.below(p.actors.size()) : -1; NOTE("agents " << who << ", " << who2 << " fail after " << at << " acts");
    auto result = [&](unsigned threads) { bench b(p); b.thrower = who; b.thrower2 = who2; b.throws_at_act = at; options o; o.threads = threads; o.drive = p.windows.empty() ? 1 : 0; try { run(b, o); return std::string("no error"); } catch(const std::runtime_error &e) { return std::string(e.what()); } };
    unsigned k = 2 + (unsigned)c.below(7); auto a = result(1), b = result(k); c.nontrivial(a != "no error"); c.eq(b, a, PBT_STR("error reported with " << k << " threads"));
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
