// Simulation time and wake-ups.
// SOURCES: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/interaction/communicator.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp
#include <sim.hpp>
using namespace sim;
static bool is_act(const event &e) { return e.kind < 0; }
static void timing(pbt::Ctx &c, shape sh)
{
    program p = generate(c, sh); describe(c, p); options o; o.threads = c.below(3) ? 1 : 2 + (unsigned)c.below(4); o.drive = p.windows.empty() ? (int)c.below(3) : 0; NOTE(o.threads << " threads, drive " << o.drive);
    bench b(p); run(b, o); c.check(b.trouble().empty(), b.trouble()); history w = reference(p, rank(b)); size_t acts = 0, same = 0;
    for(size_t i = 0; i < p.actors.size(); ++i) {
        u64 last = p.start; std::set<u64> at;
        for(auto &e : b.h.log[i]) { c.check(e.time >= p.start && e.time < p.end && e.upper <= p.end && e.time < e.upper, PBT_STR("agent " << i << " is shown a window outside the simulated interval: " << show(e))); c.check(e.time >= last, PBT_STR("time goes backwards for agent " << i << " from " << last << ": " << show(e))); last = e.time; if(is_act(e)) { ++acts; same += !at.insert(e.time).second; } }
        auto d = difference(b.h.log[i], w.log[i], is_act); c.check(d.empty(), PBT_STR("acts of agent " << i << ": " << d));
        if(p.actors[i].born == 0 && p.actors[i].dies != 0) c.check(at.count(p.start), PBT_STR("agent " << i << " does not act at the start"));
    }
    c.check(b.h.steps == w.steps, [&] { std::string s = "steps"; for(auto t : b.h.steps) s += " " + std::to_string(t); s += ", expected"; for(auto t : w.steps) s += " " + std::to_string(t); return s; }());
    for(size_t i = 1; i < b.h.steps.size(); ++i) c.check(b.h.steps[i] > b.h.steps[i - 1], "time does not advance"); c.eq(b.h.steps.back(), p.end, "time at the end of the simulation");
    c.nontrivial(p.actors.size() >= 2 && acts >= 6 && b.h.steps.size() >= 4); if(same) c.label("acts twice at one time"); if(b.h.steps.size() > 15) c.label("more than 15 steps"); if(!p.windows.empty()) c.label("limited windows");
}
PBT(crowds, 1000, 25000, "at least two agents, six acts and three steps") { shape s; s.max_actors = 6; s.crowd = true; timing(c, s); }
PBT(programs, 50000, 1200000, "at least two agents, six acts and three steps") { timing(c, shape{}); }
PBT(changing_population, 30000, 800000, "at least two agents, six acts and three steps") { shape s; s.population = true; timing(c, s); }
PBT(large_programs, 6000, 150000, "at least two agents, six acts and three steps") { shape s; s.max_actors = 40; timing(c, s); }
// agents that act again and again over a long time
PBT(long_runs, 40, 800, "more than a thousand steps")
{
    struct periodic : agent { u64 every, acts = 0, last = 0; bool wrong = false; periodic(identity<periodic> i, u64 e) : agent(identity<agent>(i.digits)), every(e) {} time_point act(time_interval s, std::seed_seq &) override { if(acts && s.lower != last + every) wrong = true; last = s.lower; ++acts; return s.lower + every; } };
    u64 start = c.moment(20), n = 200 + (c.below(3) ? c.below(3000) : c.below(100000)), x = 1 + c.below(3), y = 1 + c.below(50), end = start + n * x; NOTE("from " << start << " to " << end << ", one agent acts every " << x << ", the other every " << y); c.nontrivial(n > 1000);
    computation::environment e; model m(e, parameter::parametrization(0, start, end, 0, 1)); auto a = m.create<periodic>(u64(x)), b = m.create<periodic>(u64(y)); u64 t = start, steps = 0;
    while(t < end && steps <= end - start) { u64 want = std::min({end, start + ((t - start) / x + 1) * x, start + ((t - start) / y + 1) * y}), got = m.step({t, end}); if(got != want) c.fail(PBT_STR("after the step at " << t << " the time is " << got << ", expected " << want)); t = got; ++steps; }
    c.eq(a->acts, (end - start + x - 1) / x, "acts of the first agent"); c.eq(b->acts, (end - start + y - 1) / y, "acts of the second agent"); c.check(!a->wrong && !b->wrong, "an agent acts at another time than it asked for");
}
// an agent asking for a time before the current one is refused
PBT(asking_for_the_past, 20000, 300000, "the agent asks after the first step")
{
    struct past : agent { u64 when, ask; past(identity<past> i, u64 w, u64 a) : agent(identity<agent>(i.digits)), when(w), ask(a) {} time_point act(time_interval s, std::seed_seq &) override { return s.lower < when ? when : ask; } };
    u64 start = c.moment(20), when = start + c.below(20); c.require(when > 0); u64 ask = c.below(when); u64 end = when + 1 + c.below(20); NOTE("start " << start << ", at " << when << " asks for " << ask << ", end " << end); c.nontrivial(when > start);
    computation::environment e; model m(e, parameter::parametrization(0, start, end, 0, 1 + (unsigned)c.below(3))); m.create<past>(u64(when), u64(ask)); u64 t = start; if(when > start) { t = m.step({t, end}); c.eq(t, when, "next event"); }
    c.check(pbt::throws_a<std::logic_error>([&] { m.step({t, end}); }), "asking for a time in the past was not refused");
}
PBT(empty_windows, 20000, 300000, "the window is reversed")
{
    computation::environment e; model m(e, parameter::parametrization(0, 0, 100, 0, 1)); struct never : agent { int acts = 0; explicit never(identity<never> i) : agent(identity<agent>(i.digits)) {} time_point act(time_interval s, std::seed_seq &) override { ++acts; return s.upper; } }; auto a = m.create<never>(); u64 up = c.below(50), lo = up + c.below(50); NOTE("window " << lo << " to " << up); c.nontrivial(lo > up);
    c.check(pbt::throws([&] { m.step({lo, up}); }), "a step over an empty window was not refused"); c.eq(a->acts, 0, "acts");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
