// Cash flow statements.
// SOURCES: esl/data/channel.cpp esl/data/output_base.cpp esl/economics/accounting/standard.cpp
#include <pbt.hpp>
#include <esl/economics/accounting/cash_flow_statement.hpp>
using namespace esl; using namespace esl::economics; using namespace esl::economics::accounting; using namespace esl::simulation;
typedef uint64_t u64; typedef int64_t i64; typedef std::vector<std::pair<u64, i64>> flows;
static i64 sum(const flows &f, u64 lo, u64 hi, int sign) { i64 t = 0; for(auto &[d, v] : f) if(d >= lo && d < hi && (sign == 0 || (sign > 0) == (v > 0))) t += v; return t; }
PBT(statements, 250000, 7000000, "flows of both signs inside the window, one at its start, and one at its end or outside")
{
    auto cur = c.flip() ? currencies::USD : currencies::JPY; standard s(cur); cash_flow_statement st, parts[2], merged; flows f; u64 base = c.below(4) ? 0 : c.big(u64(1) << 60), span = 1 + c.below(20);
    while(c.more(7, f.size(), 40)) { u64 t = base + c.below(span + 1); i64 v = c.sbig(i64(1) << 45); f.emplace_back(t, v); st.mutations.emplace(t, price(v, cur)); parts[c.below(2)].mutations.emplace(t, price(v, cur)); NOTE("flow " << v << " at " << t); }
    for(int i : {1, 0}) merged.mutations.insert(parts[i].mutations.begin(), parts[i].mutations.end());
    u64 lo = base + c.below(span + 1), hi = base + c.below(span + 2); NOTE("window " << lo << " to " << hi); auto copy = st.mutations; time_interval w{lo, hi};
    auto is = [&](const price &p, i64 v, const char *what) { c.check(p.value == v && p.valuation == cur, PBT_STR(what << ": got " << std::string(p.valuation) << " " << p.value << ", expected " << v)); };
    is(st.history(w, s), sum(f, lo, hi, 0), "net flow"); is(st.revenue(w, s), sum(f, lo, hi, 0), "revenue"); is(st.income(w, s), sum(f, lo, hi, 1), "income"); is(st.expenses(w, s), sum(f, lo, hi, -1), "expenses");
    is(merged.history(w, s), sum(f, lo, hi, 0), "net flow of the combined statement"); is(merged.income(w, s), sum(f, lo, hi, 1), "income of the combined statement"); is(parts[0].history(w, s) + parts[1].history(w, s), sum(f, lo, hi, 0), "sum over the partial statements");
    if(lo < hi) { u64 mid = lo + c.below(hi - lo + 1); NOTE("split at " << mid); is(st.history({lo, mid}, s) + st.history({mid, hi}, s), sum(f, lo, hi, 0), "sum over two windows"); }
    flows seen; i64 k = c.range(-3, 3); auto t = st.history(w, [&](time_point at, const price &p) { seen.emplace_back(at, p.value); return price(p.value * k, p.valuation); }, s); is(t, k * sum(f, lo, hi, 0), "transformed net flow"); flows want; for(auto &x : f) if(x.first >= lo && x.first < hi) want.push_back(x); std::sort(seen.begin(), seen.end()); std::sort(want.begin(), want.end()); c.check(seen == want, "the transformation is not applied to exactly the flows of the window");
    c.check(copy == st.mutations, "asking for a statement changed it"); bool a = false, b = false, pos = false, neg = false; for(auto &[d, v] : f) { a |= d == lo && d < hi; b |= d >= hi; if(d >= lo && d < hi) (v > 0 ? pos : neg) = true; } c.nontrivial(a && b && pos && neg);
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
