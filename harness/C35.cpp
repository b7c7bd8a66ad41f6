// The Python package, driven through an embedded interpreter and compared with the C++ library.
// The module needs the automatic differentiation library: lib/adept is a stand-in for it.
// SOURCES: esl/agent.cpp esl/computation/environment.cpp esl/data/channel.cpp esl/data/output_base.cpp esl/economics/asset.cpp esl/economics/markets/differentiable_demand_supply_function.cpp esl/economics/markets/walras/differentiable_order_message.cpp esl/economics/markets/walras/price_setter.cpp esl/economics/markets/walras/tatonnement.cpp esl/interaction/communicator.cpp esl/law/property.cpp esl/simulation/agent_collection.cpp esl/simulation/model.cpp esl/simulation/world.cpp esl/economics/finance/securities_lending_contract.cpp
// FLAGS: -fsanitize=address -include functional -I$ROOT/lib/adept
// OPT: -O0
#include <esl/python_module_esl.cpp>
#include <pbt.hpp>
namespace {
namespace bp = boost::python; namespace ob = esl::economics::markets::order_book; namespace sim = esl::simulation; namespace fin = esl::economics::finance; namespace geo = esl::geography; namespace wal = esl::economics::markets::walras; namespace cur = esl::economics::currencies;
typedef uint64_t u64; typedef int64_t i64; using esl::quantity; using esl::economics::price; using esl::economics::iso_4217; using esl::economics::markets::quote; using esl::economics::markets::ticker; using esl::python_identity; using sim::time_interval; using sim::time_point;
struct silence { std::ostringstream o; std::streambuf *a, *b; silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::clog.rdbuf(o.rdbuf())) {} ~silence() { std::cout.rdbuf(a); std::clog.rdbuf(b); } };
struct peek : std::remove_reference_t<decltype(esl::data::main_log)> { static std::ostringstream &of(std::remove_reference_t<decltype(esl::data::main_log)> &l) { return l.*(&peek::buffer_); } };

// what Python does in each check, as the lines of text it has to say
const char *SCRIPT = R"PY(
import sys, os, builtins
sys.dont_write_bytecode = True
import _esl
for n in [n for n in sys.modules if n == '_esl' or n.startswith('_esl.')]: sys.modules['esl.' + n] = sys.modules[n]
import importlib.util
repo = os.environ.get('VERIF_REPO', '/repo')
E = _esl._economics; M = E._markets; OB = M._order_book; S = _esl._simulation; C = E._currencies; G = _esl._geography; F = E._finance; L = _esl._law; P = S._parameter; A = E._accounting; I = _esl._interaction; W = M._walras; D = _esl._data
def text(x):
    if isinstance(x, bool): return '1' if x else '0'
    if isinstance(x, float): return repr(x)
    if isinstance(x, (list, tuple)): return '[' + ','.join(text(i) for i in x) + ']'
    return str(x)
def attempt(f):
    try: return text(f())
    except Exception as x: return 'refused'
import operator as op
compare6 = [op.lt, op.gt, op.le, op.ge, op.eq, op.ne]
def comparisons(a, b): return ''.join(text(f(a, b)) for f in compare6)
def quantities(start, program):
    r = [_esl.quantity(x) for x in start]; out = []
    for (o, i, j, k, n) in program:
        def step():
            if o == 0: r[k] = r[i] + r[j]
            elif o == 1: r[k] = r[i] - r[j]
            elif o == 2: r[k] = r[i] * r[j]
            elif o == 3: r[k] = r[i] * n
            elif o == 4:
                a = r[i]; a += r[j]
            elif o == 5:
                a = r[i]; a -= r[j]
            elif o == 6:
                a = r[i]; a *= n
            elif o == 7: return r[i] / n
            elif o == 8: return comparisons(r[i], r[j])
            elif o == 9: return repr(float(r[i]))
            elif o == 10: return repr(r[i])
            elif o == 11: r[k] = _esl.quantity(n)
            elif o == 12: r[k] = _esl.quantity(n)
            return ''
        out.append(attempt(step) + '|' + text(r))
    return '\n'.join(out)
def currency(n): return getattr(C, n)
def prices(v, w, cv, cw, f):
    a = E.price(v, currency(cv)); b = E.price(w, currency(cw))
    out = [text(a.value), text(a.valuation), a.valuation.code, text(a.valuation.denominator), text(a), repr(a), attempt(lambda: comparisons(a, b)), repr(float(a)), attempt(lambda: E.price.approximate(f, currency(cv)))]
    return '\n'.join(out)
def quotes(v, w, c, lv, lw, n):
    a = M.quote(E.price(v, currency(c))); b = M.quote(E.price(w, currency(c)))
    out = [text(a.lot), text(a.price)]
    a.lot = lv; b.lot = lw
    out += [text(a), repr(a), text(a.lot), attempt(lambda: comparisons(a, b)), repr(float(a))]
    x = a.price; a.price = b.price; b.price = x
    out += [text(a), text(b), attempt(lambda: comparisons(a, b)), attempt(lambda: setattr(a, 'lot', n)), text(a.lot)]
    return '\n'.join(out)
def identities(a, b, w):
    i = S.identity(a); j = S.identity(b); p = L.property_identity(a); q = L.property_identity(b)
    out = [comparisons(i, j), comparisons(p, q), str(i), repr(j), i.__str__(w), str(p), text(hash(i) == hash(S.identity(a))), text(hash(p) == hash(L.property_identity(a)))]
    e = S.entity(i); f = S.entity(j)
    out += [text(e == f), text(e != f), str(e.identifier), text(list({i: 1, j: 2}.values())), str(L.property(i).identifier), L.property(i).name()]
    t = M.ticker(i, j); u = M.ticker(j, i)
    out += [str(t.base), str(t.quote), comparisons(t, u)]
    t.base = j; out += [str(t.base), str(t.quote)]
    t.quote = i; out += [str(t.base), str(t.quote), text(t == u)]
    g = _esl.agent(i); out += [str(g.identifier), g.describe(), str(g)]
    h = [e.create(), e.create(), g.create(), g.create()]; out += [text(h)]
    wd = S.world(); out += [str(wd.identifier), text([wd.create(), wd.create()])]
    return '\n'.join(out)
def headers(t, a, b, s, r, n):
    i = S.identity(a); j = S.identity(b)
    h = [I.header(t, i, j, s, r), I.header(t, i, j, s), I.header(t, i, j), I.header(t, i), I.header(t)][n]
    show = lambda: text([h.type, h.sender, h.recipient, h.sent, h.received])
    out = [show()]
    h.sender, h.recipient = h.recipient, h.sender; out.append(show())
    h.sent, h.received = r, s; h.type = t + 1; out.append(show())
    m = W.differentiable_order_message(i, j, s, r); out.append(text(list(m.supply.items())))
    m.supply = {i: (_esl.quantity(s), _esl.quantity(r)), j: (_esl.quantity(1), _esl.quantity(2))}; out.append(text(sorted((str(k), text(v)) for k, v in m.supply.items())))
    m.supply = {i: (_esl.quantity(r), _esl.quantity(7))}; out.append(text(sorted((str(k), text(v)) for k, v in m.supply.items())))
    return '\n'.join(out)
def intervals(a, b, t):
    def go():
        i = S.time_interval(a, b); return [i.lower, i.upper, i.empty(), i.singleton(), i.degenerate(), i.contains(t), i, repr(i)]
    return attempt(go) + '\n' + text([S.time_point(a), S.time_duration(b)])
def codes(kind, s, n):
    def go():
        if kind == 0: x = M.iso_10383(s); y = M.iso_10383(n); return [x, repr(x), comparisons(x, y)]
        if kind == 1: x = F.iso_6166(s); return [x, repr(x), x.issuer, x.code, x.checksum()]
        if kind == 2: x = F.iso_6166(n, s); return [x, x.issuer, x.code, x.checksum()]
        if kind == 3: x = F.iso_6166(G.iso_3166_1_alpha_2(n), s); return [x, x.issuer, x.code, x.checksum()]
        if kind == 4: x = F.cusip(s); return [x, repr(x), x.issuer, x.checksum()]
        if kind == 5: x = F.iso_6166(G.iso_3166_1_alpha_2(n), F.cusip(s)); return [x, x.issuer, x.code, x.checksum()]
        if kind == 6: x = G.iso_3166_1_alpha_2(s); return [x, repr(x), x.code, L.natural_person(x).nationality]
        if kind == 7: x = L.iso_17442(s); return [x.local, x.code, x.checksum()]
    return attempt(go)
def constants(k):
    out = []
    mod = [C, G._countries, L._jurisdictions][k]
    for n in sorted(x for x in dir(mod) if not x.startswith('_') and len(x) == 2 + (k == 0)):
        v = getattr(mod, n)
        out.append(text([n, v.code, v.denominator, v, repr(v)] if k == 0 else [n, v.code, v, repr(v)] if k == 1 else [n, v.sovereign, v.tender, v.sovereign.code, v.tender.code]))
    return '\n'.join(out)
def shares(classes, steps, dates, cn):
    cs = [F.share_class(*x) for x in classes]; out = [text([[c.rank, c.votes, round(c.preference, 5), c.dividend, c.cumulative, c.redeemable] for c in cs])]
    out += [text([[a == b, a < b] for b in cs]) for a in cs]
    m = E.map_share_class_uint64_t(); show = lambda: text([[[cs.index(k) for k in m.keys()], m.values(), len(m)]])
    for (o, i, n) in steps:
        def go():
            if o == 0: m[cs[i]] = n
            elif o == 1: return m[cs[i]]
            elif o == 2: del m[cs[i]]
            elif o == 3: return cs[i] in m
            return ''
        out.append(attempt(go) + show())
    d = F.dividend_policy(dates[0], dates[1], S.time_interval(dates[2], dates[3]), dates[4], currency(cn), F.map_share_class_uint64_t_price())
    out.append(text([d.announcement_date, d.ex_dividend_date, d.dividend_period, d.payable_date, d.dividend_currency, d.total_dividends(), len(d.dividend_per_share)]))
    c = E.company(S.identity(dates), L.jurisdiction(G.iso_3166_1_alpha_2('NL'), currency(cn)))
    out.append(text([c.total_shares(), c.unique_shareholders()]))
    r = M.position_report(*dates[:3]); out.append(text([r.supply, r.bought, r.sold, r.liquidity_provided(), r.liquidity_taken()]))
    return '\n'.join(out)
sides = [OB.side_t.buy, OB.side_t.sell]; lives = [OB.lifetime_t.good_until_cancelled, OB.lifetime_t.immediate_or_cancel, OB.lifetime_t.fill_or_kill]
def books(kind, low, high, lot, size, steps, big):
    def q(v):
        x = M.quote(E.price(v, C.USD)); x.lot = lot; return x
    b = OB.binary_tree_order_book() if kind else OB.static_order_book(q(low), q(high), size)
    t = M.ticker(S.identity([1]), S.identity([2])); known = []
    out = [attempt(lambda: OB.limit_order(t, S.identity([3]), sides[0], q(low), n, lives[0]).quantity) for n in (big, -1, 2**32 - 1)]
    for (o, who, side, value, n, life) in steps:
        if o == 0:
            l = OB.limit_order(t, S.identity([3, who]), sides[side], q(value), n, lives[life])
            out.append(text([l.symbol.base, l.symbol.quote, l.owner, l.side, l.limit, l.quantity, l.lifetime]))
            b.insert(l)
        elif o == 1:
            l = OB.limit_order(t, S.identity([9]), sides[1 - side], q(value + 1), n + 1, lives[0])
            l.owner = S.identity([3, who]); l.side = sides[side]; l.limit = q(value); l.quantity = n; l.lifetime = lives[life]
            b.insert(l)
        elif o == 2:
            if known: b.cancel(known[value % len(known)])
        elif o == 3: b.reports.clear()
        rs = [[r.state, r.side, r.identifier, r.quantity, r.limit, r.owner, str(r)] for r in b.reports]
        for r in b.reports:
            if r.state == OB.execution_state.placement and r.identifier not in known: known.append(r.identifier)
        out.append(text([rs, len(b.reports), b.bid() , b.ask(), [i for i in b.orders()]]))
    return '\n'.join(out)
def report(state, side, i, n, v, who):
    r = OB.execution_report([OB.execution_state.invalid, OB.execution_state.cancel, OB.execution_state.match, OB.execution_state.placement][state], sides[side], i, n, M.quote(E.price(v, C.USD)), S.identity([who]))
    a = text([r.state, r.side, r.identifier, r.quantity, r.limit, r.owner, r])
    r.owner = S.identity([who, 1]); r.quantity = n + 1; r.side = sides[1 - side]
    return a + '\n' + text([r.state, r.side, r.identifier, r.quantity, r.limit, r.owner, r])
package = None
def load():
    global package
    if package is None:
        sys.path.insert(0, repo); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        import esl; package = esl
    return package
class Failure(Exception): pass
def make(base, hooks, bodies): return type('x', (base,), {k: v for k, v in bodies.items() if k in hooks or k == '__init__'})
def simulate(start, end, sample, verbosity, plans, ehooks, mhooks, runs, helper, skip):
    log = {}; hooks = []
    for i in range(len(plans)): log[i] = []
    crew = {}
    class agent(_esl.agent):
        def __init__(self, i, plan): super().__init__(S.identity([5, i])); self.i = i; self.plan = list(plan)
        def act(self, step, seed):
            log[self.i].append(text([step.lower, step.upper, seed.generate()]))
            if not self.plan: return super().act(step, seed)
            what, n = self.plan.pop(0)
            if what == 0: return step.lower + n
            if what == 1: return None
            if what == 2: raise Failure('agent %d' % self.i)
            if what == 3 and n in crew: m.agents.activate(crew[n])
            if what == 4 and n in crew: m.agents.deactivate(crew[n])
            return step.lower + 1
    def note(f):
        hooks.append(f)
    ebodies = {
        'before_step': lambda self: (note('before'), super(env, self).before_step())[1],
        'after_step': lambda self, x: (note('after %d %d' % (x.time, x is m)), super(env, self).after_step(x))[1],
        'after_run': lambda self, x: (note('done %d %d' % (x.time, x is m)), super(env, self).after_run(x))[1],
        'run': lambda self, x: (note('run %d' % (x is m)), super(env, self).run(x))[1],
        'activate': lambda self: count('activate', super(env, self).activate()),
        'deactivate': lambda self: count('deactivate', super(env, self).deactivate()),
        'send_messages': lambda self, x: count('send', super(env, self).send_messages(x)) }
    def count(n, k): note('%s %d' % (n, k)); return k
    mbodies = {
        'initialize': lambda self: (note('initialize'), super(mod, self).initialize())[1],
        'step': lambda self, t: stepped(super(mod, self).step(t), t),
        'terminate': lambda self: (note('terminate'), super(mod, self).terminate())[1] }
    def stepped(r, t): note('step %s %d' % (t, r)); return None if skip else r
    env = make(_esl._computation.environment, ehooks, ebodies); mod = make(S.model, mhooks, mbodies)
    p = P.parametrization()
    for n, v in (('start', start), ('end', end), ('sample', sample), ('verbosity', verbosity)):
        if helper: import numpy; p.add_constant(n, numpy.uint64(v))
        else: p.values[n] = P.constant_uint64(v)
    e = env(); m = mod(e, p)
    hooks.append(text([m.start, m.end, m.time, m.sample]))
    for i, (at, plan) in enumerate(plans):
        crew[i] = agent(i, plan)
        if at: m.agents.activate(crew[i])
    for r in range(runs):
        try: e.run(m)
        except Failure as x: hooks.append('error ' + str(x))
        hooks.append(text([m.time, sorted(str(k) for k in m.agents.local_agents().keys())]))
        if r + 1 < runs: m.end = m.end + 3
    same = all(v is crew[k2] for k2 in crew for k, v in m.agents.local_agents().items() if k == crew[k2].identifier)
    return '\n'.join(hooks + [text(same)] + ['%d: %s' % (i, ' '.join(log[i])) for i in sorted(log)])
def parameters(steps):
    p = P.parametrization(); out = []; esl = load(); import numpy
    for (o, n, i, f) in steps:
        name = 'p%d' % n
        def go():
            if o == 0: p.values[name] = P.constant_double(f)
            elif o == 1: p.values[name] = P.constant_int64(i)
            elif o == 2: p.values[name] = P.constant_uint64(abs(i))
            elif o == 3: p.values[name] = P.constant_price(E.price(i, C.EUR))
            elif o == 4: p.add_constant(name, i)
            elif o == 5: p.add_constant(name, f)
            elif o == 6: p.add_constant(name, E.price(i, C.EUR))
            elif o == 7: p.add_constant(name, numpy.int64(i))
            elif o == 8: p.add_constant(name, numpy.uint64(abs(i)))
            elif o == 9: p.add_constant(name, 'text')
            elif o == 10: del p.values[name]
            elif o == 11: return name in p.values
            elif o == 12: return [len(p.values), sorted(p.values.keys())]
            return ''
        out.append(attempt(go) + '|' + text([attempt(lambda: p['p%d' % k]) for k in range(4)]))
    q = P.parametrization(); out.append(text([attempt(lambda: q[n]) for n in ('sample', 'verbosity', 'threads')]))
    m, e = esl.simple_experiment(q); out.append(text([m.start, m.end, m.sample]))
    return '\n'.join(out)
def market(properties, orders, breaker):
    class order(W.differentiable_order_message):
        def __init__(self, i, terms): super().__init__(S.identity([8, i]), S.identity([9]), 0, 0); self.terms = terms
        def excess_demand(self, quotes): return {k: self.terms[int(str(k).strip('"').split('-')[-1])][0] - self.terms[int(str(k).strip('"').split('-')[-1])][1] * float(v[0]) * v[1] for k, v in quotes.items()}
    def q(v, lot):
        x = M.quote(E.price(v, C.USD)); x.lot = lot; return x
    ps = [(L.property(S.identity([7, k])), q(v, lot)) for k, (v, lot) in enumerate(properties)]
    m = W.excess_demand_model({p: x for p, x in ps})
    os = [order(i, t) for i, t in enumerate(orders)]
    if breaker: m.excess_demand_functions = os[:1]
    m.excess_demand_functions = os
    n = [len(m.excess_demand_functions)]
    r = m.compute_clearing_quotes()
    return text(n) + '\n' + '\n'.join('%s %s' % (k, float(v).hex()) for k, v in sorted((str(k), v) for k, v in r.items()))
def logs(lines, helper):
    ss = [D.severity.trace, D.severity.notice, D.severity.warning, D.severity.error]
    for (s, t, line) in lines:
        if helper: load().log(t, ss[s])
        else: D.log_detailed(ss[s], t, 'function', 'somewhere/file.py', line)
    return ''
def seeds(v): s = _esl.seed(v); return text([s.size, s.generate(), str(s), s.generate()])
)PY";
bp::object *space = nullptr;
bp::object fn(const char *n) { return (*space)[n]; }
std::string trace() { PyObject *a, *b, *c; PyErr_Fetch(&a, &b, &c); PyErr_NormalizeException(&a, &b, &c); std::string s = "Python error"; if(b) { bp::object o{bp::handle<>(bp::borrowed(b))}; s = bp::extract<std::string>(bp::str(o.attr("__class__").attr("__name__")) + ": " + bp::str(o)); } return s; }
template<class... A> std::string call(const char *n, A &&...a) { try { return bp::extract<std::string>(fn(n)(a...)); } catch(bp::error_already_set &) { return trace(); } }
template<class T> bp::list seq(const std::vector<T> &v) { bp::list l; for(auto &x : v) l.append(x); return l; }
template<class T> std::string str(const T &x) { std::ostringstream o; if constexpr(std::is_same_v<T, bool>) o << (x ? '1' : '0'); else if constexpr(std::is_same_v<T, std::uint8_t>) o << (int)x; else o << x; return o.str(); }
template<class I> std::string ident(const identity<I> &i) { return i.representation(); }
struct rec { std::string s = "["; bool first = true; rec &add(const std::string &t) { if(!first) s += ','; first = false; s += t; return *this; } template<class T> rec &operator<<(const T &x) { return add(str(x)); } std::string done() const { return s + "]"; } };
struct lines { std::string s; bool first = true; lines &operator<<(const std::string &t) { if(!first) s += '\n'; first = false; s += t; return *this; } };
template<class F> std::string attempt(F &&f) { try { return f(); } catch(const std::exception &) { return "refused"; } }
template<class A, class B> std::string comparisons(const A &a, const B &b) { return str(a < b) + str(a > b) + str(a <= b) + str(a >= b) + str(a == b) + str(a != b); }
std::string pyfloat(double d) { bp::object o(d); return bp::extract<std::string>(o.attr("__repr__")()); }
void same(pbt::Ctx &c, const std::string &got, const std::string &want) { if(got == want) return; std::istringstream a(got), b(want); std::string x, y; int n = 0; for(;;) { bool p = (bool)std::getline(a, x), q = (bool)std::getline(b, y); ++n; if(!p) x = "(nothing)"; if(!q) y = "(nothing)"; if(x != y || (!p && !q)) break; } c.fail(PBT_STR("line " << n << ": Python has " << x << ", the library " << y)); }
const std::vector<std::pair<std::string, iso_4217>> &some() { static std::vector<std::pair<std::string, iso_4217>> v{{"USD", cur::USD}, {"EUR", cur::EUR}, {"JPY", cur::JPY}, {"BHD", cur::BHD}, {"GBP", cur::GBP}}; return v; }

PBT(quantities, 9000, 600000, "an operation is refused or at least three are not")
{
    static const u64 P32 = u64(1) << 32; size_t n = 1 + c.below(3); std::vector<u64> start; for(size_t i = 0; i < n; ++i) start.push_back(c.below(3) ? c.below(20) : c.below(P32)); bp::list prog; std::vector<quantity> r; for(auto x : start) r.emplace_back(x); lines want; int refused = 0, fine = 0;
    auto all = [&] { rec o; for(auto &x : r) o.add(x.representation()); return o.done(); };
    for(size_t k = 0; c.more(6, k, 20); ++k) {
        int o = (int)c.below(12); size_t i = c.below(n), j = c.below(n), d = c.below(n); u64 m = c.below(4) ? c.below(9) : c.below(1000); if(o == 11 || c.below(30) == 0) { o = 11; m = c.big(~u64(0) >> 1); }
        if((o == 2 && (r[i].amount > P32 || r[j].amount > P32)) || ((o == 3 || o == 6) && r[i].amount > P32) || ((o == 0 || o == 4) && r[i].amount > (~u64(0) >> 1)) ) o = 8;
        if(o == 0 || o == 4) if(r[j].amount > (~u64(0) >> 1)) o = 10;
        prog.append(bp::make_tuple(o, i, j, d, m)); NOTE("op " << o << " on " << i << ", " << j << " -> " << d << " with " << m);
        auto say = attempt([&]() -> std::string {
            switch(o) {
            case 0: r[d] = r[i] + r[j]; break; case 1: r[d] = r[i] - r[j]; break; case 2: r[d] = r[i] * r[j]; break; case 3: r[d] = r[i] * m; break;
            case 4: r[i] += r[j]; break; case 5: r[i] -= r[j]; break; case 6: r[i] *= m; break;
            case 7: { if(!m) return "refused"; rec x; for(auto &p : r[i] / m) x.add(p.representation()); return x.done(); }
            case 8: return comparisons(r[i], r[j]); case 9: return pyfloat((double)r[i]); case 10: return r[i].representation(); default: r[d] = quantity(m);
            } return "";
        });
        (say == "refused" ? refused : fine)++; want << say + "|" + all();
        // names in Python stand for objects, so that r[k] = r[i] does not happen: every result is a new object
    }
    c.nontrivial(refused || fine > 2); same(c, call("quantities", seq(start), prog), want.s);
    bp::list bad; bad.append(bp::make_tuple(12, 0, 0, 0, -1 - (i64)c.below(5))); auto got = call("quantities", seq(start), bad); c.check(got.rfind("refused|", 0) == 0, "a negative quantity is made: " + got);
}
PBT(prices, 9000, 600000, "the currencies are equal or the prices are")
{
    auto &cv = c.pick(some()); auto &cw = c.below(3) ? cv : c.pick(some()); i64 v = c.sbig(INT64_MAX / 4), w = c.below(3) ? v + (i64)c.below(3) - 1 : c.sbig(INT64_MAX / 4); double f = c.below(3) ? (double)c.range(-100000, 100000) / 1000. : c.real(1e9); NOTE(v << " " << cv.first << ", " << w << " " << cw.first << ", " << f);
    price a(v, cv.second), b(w, cw.second); lines want; want << str(v) << cv.first << cv.first << str(cv.second.denominator) << a.representation() << a.representation() << attempt([&] { return comparisons(a, b); }) << pyfloat((double)a) << attempt([&] { return price::approximate(f, cv.second).representation(); });
    c.nontrivial(cv.first == cw.first || v == w); same(c, call("prices", v, w, cv.first, cw.first, f), want.s);
}
PBT(quotes, 9000, 600000, "the prices or the lots differ")
{
    auto &cv = c.pick(some()); i64 v = (i64)c.below(c.flip() ? 50 : 1000000), w = c.flip() ? v + (i64)c.below(3) - 1 : (i64)c.below(1000000); unsigned lv = 1 + (unsigned)c.below(100), lw = c.flip() ? lv : 1 + (unsigned)c.below(100); i64 n = c.flip() ? -1 - (i64)c.below(3) : (i64(1) << 32) + (i64)c.below(5); NOTE(v << "/" << lv << " " << w << "/" << lw << " " << cv.first);
    quote a(price(v, cv.second)), b(price(w, cv.second)); lines want; want << "1" << price(v, cv.second).representation(); a.lot = lv; b.lot = lw; want << a.representation() << a.representation() << str(lv) << attempt([&] { return comparisons(a, b); }) << pyfloat((double)a); std::swap(a.type, b.type); want << a.representation() << b.representation() << attempt([&] { return comparisons(a, b); }) << "refused" << str(lv);
    c.nontrivial(v != w || lv != lw); same(c, call("quotes", v, w, cv.first, lv, lw, n), want.s);
}
std::vector<u64> digits(pbt::Ctx &c, size_t least = 0) { std::vector<u64> v; size_t n = least + c.below(4); for(size_t i = 0; i < n; ++i) v.push_back(c.below(3) ? c.below(4) : c.big(~u64(0) >> 1)); return v; }
PBT(identities, 9000, 600000, "the identities differ")
{
    auto a = digits(c, 1), b = c.below(4) ? digits(c, 1) : a; if(c.flip() && b.size() < a.size()) b = std::vector<u64>(a.begin(), a.begin() + (std::ptrdiff_t)b.size()); unsigned w = (unsigned)c.below(8); python_identity i(a), j(b); identity<law::property> p(a), q(b); NOTE(i << " " << j);
    lines want; want << comparisons(i, j) << comparisons(p, q) << ident(i) << ident(j) << i.representation(w) << ident(p) << "1" << "1" << str(a == b) << str(a != b) << ident(i) << (a == b ? "[2]" : "[1,2]") << ident(i) << law::property(p).name();
    ticker t(p, q), u(q, p); want << ident(i) << ident(j) << comparisons(t, u) << ident(j) << ident(j) << ident(j) << ident(i) << "1";
    esl::agent g{identity<esl::agent>(a)}; want << ident(i) << g.describe() << g.describe(); auto child = [&](u64 k) { auto d = a; d.push_back(k); return ident(python_identity(d)); }; esl::agent e2{identity<esl::agent>(a)}; rec h; for(int k = 0; k < 2; ++k) h.add(ident(e2.template create<esl::agent>())); for(int k = 0; k < 2; ++k) h.add(ident(g.template create<esl::agent>())); want << h.done();
    sim::world wd; auto w1 = ident(wd.identifier); rec x; for(int k = 0; k < 2; ++k) x.add(ident(wd.template create<esl::agent>())); want << w1 << x.done();
    c.nontrivial(a != b); same(c, call("identities", seq(a), seq(b), w), want.s);
}
PBT(headers, 6000, 300000, "sender and recipient differ")
{
    auto a = digits(c, 1), b = digits(c, 1); u64 t = c.below(1000), s = c.big(INT64_MAX), r = c.big(INT64_MAX); int n = (int)c.below(5); python_identity i(a), j(b); identity<esl::agent> ai(a), aj(b); NOTE(i << " " << j << " " << s << " " << r << " form " << n); using esl::interaction::header;
    header h = n == 0 ? header(t, ai, aj, s, r) : n == 1 ? header(t, ai, aj, s) : n == 2 ? header(t, ai, aj) : n == 3 ? header(t, ai) : header(t); auto show = [&] { return (rec() << h.type).add(ident(h.sender)).add(ident(h.recipient)).add(str(h.sent)).add(str(h.received)).done(); };
    lines want; want << show(); std::swap(h.sender, h.recipient); want << show(); h.sent = r; h.received = s; ++h.type; want << show() << "[]"; auto amount = [](u64 x, u64 y) { return "[" + quantity(x).representation() + "," + quantity(y).representation() + "]"; };
    std::map<std::string, std::string> m; m[ident(i)] = amount(s, r); m[ident(j)] = amount(1, 2); rec o; for(auto &[k, v] : m) o.add("[" + k + "," + v + "]"); want << o.done() << "[[" + ident(i) + "," + amount(r, 7) + "]]";
    c.nontrivial(a != b); same(c, call("headers", t, seq(a), seq(b), s, r, n), want.s);
}
PBT(intervals, 6000, 300000, "the interval is not empty")
{
    u64 a = c.below(20), b = c.below(20), t = c.below(22); NOTE(a << " " << b << " " << t); lines want; want << attempt([&] { time_interval i(a, b); rec r; r << i.lower << i.upper << i.empty() << i.singleton() << i.degenerate() << i.contains(t); return r.add(i.representation()).add(i.representation()).done(); }) << (rec() << a << b).done();
    c.nontrivial(a < b); same(c, call("intervals", a, b, t), want.s);
}
PBT(codes, 15000, 800000, "the code is accepted")
{
    static const std::string up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; int k = (int)c.below(8); static const size_t want_len[] = {4, 12, 9, 9, 9, 9, 2, 18}; auto &al = up; size_t n = want_len[k]; std::string s, m; for(size_t i = 0; i < n; ++i) s += al[c.below(k == 6 ? 26 : al.size())]; if(k == 1 && c.below(4)) for(size_t i = 0; i < 2 && i < n; ++i) s[i] = up[c.below(26)];
    if(k == 7) for(size_t i = 0; i < 6; ++i) s[i] = i < 4 ? (char)(48 + c.below(10)) : '0'; if(k == 0) { m = c.flip() ? s : c.str("ABCD", 4); if(m.size() != 4) m = "ABCD"; } else for(int i = 0; i < 2; ++i) m += up[c.below(26)]; NOTE("kind " << k << " " << s << " " << m); using namespace esl; using fin::isin; using fin::cusip; typedef economics::markets::iso_10383 mic; typedef geo::iso_3166_1_alpha_2 land;
    auto show = [](const isin &x) { return rec().add(x.representation()).add(str(x.issuer)).add(std::string(x.code.begin(), x.code.end())).add(std::string(1, x.checksum())); };
    auto want = attempt([&]() -> std::string { switch(k) {
        case 0: { mic x(s), y(m); std::string z = x.representation(); return rec().add(str(x)).add(z).add(comparisons(x, y)).done(); }
        case 1: { isin x(s); return rec().add(x.representation()).add(x.representation()).add(str(x.issuer)).add(std::string(x.code.begin(), x.code.end())).add(std::string(1, x.checksum())).done(); }
        case 2: return show(isin(m, s)).done(); case 3: return show(isin(land(m), s)).done();
        case 4: { cusip x(s); return rec().add(x.representation()).add(x.representation()).add(std::string(x.issuer.begin(), x.issuer.end())).add(std::string(1, x.checksum())).done(); }
        case 5: return show(isin(land(m), cusip(s))).done(); case 6: { land x(s); return rec().add(x.representation()).add(x.representation()).add(s).add(x.representation()).done(); }
        default: { law::iso_17442 x(s); auto q = x.checksum(); return rec().add(std::string(x.local.begin(), x.local.end())).add(std::string(x.code.begin(), x.code.end())).add(str(std::get<0>(q)) + str(std::get<1>(q))).done(); } } });
    c.label(want == "refused" ? "refused" : "accepted"); c.nontrivial(want != "refused"); same(c, call("codes", k, s, m), want);
}
// every constant is the one that its name says
PBT(constants, 60, 120, "always")
{
    int k = (int)c.below(3); std::istringstream i(call("constants", k)); std::string line; size_t n = 0; c.nontrivial();
    while(std::getline(i, line)) { ++n; std::string name = line.substr(1, k ? 2 : 3); NOTE(line); if(k == 0) { auto f = line.find(',', 5); c.eq(line.substr(1, 7), name + "," + name, "currency code"); auto g = line.find(',', f + 1); c.eq(line.substr(g), "," + name + "," + name + "]", "currency text"); (void)f; } else if(k == 1) c.eq(line, "[" + name + "," + name + "," + name + "," + name + "]", "country"); else { c.eq(line.substr(0, 6), "[" + name + "," + name, "jurisdiction"); } }
    c.check(n >= (k ? 200u : 150u), PBT_STR("only " << n << " constants"));
}
PBT(known_constants, 60, 120, "always")
{
    c.nontrivial(); auto expect = [&](const char *s, const std::string &want) { bp::object r; try { r = bp::eval(s, *space); c.eq(bp::extract<std::string>(bp::str(r))(), want, s); } catch(bp::error_already_set &) { c.fail(std::string(s) + ": " + trace()); } };
#define CURRENCY(n) expect("text([C." #n ".code, C." #n ".denominator])", "[" #n "," + str(cur::n.denominator) + "]");
    CURRENCY(USD) CURRENCY(EUR) CURRENCY(GBP) CURRENCY(JPY) CURRENCY(CHF) CURRENCY(CAD) CURRENCY(AUD) CURRENCY(NZD) CURRENCY(SEK) CURRENCY(NOK) CURRENCY(DKK) CURRENCY(BHD) CURRENCY(KWD) CURRENCY(TND) CURRENCY(KRW) CURRENCY(CLP) CURRENCY(INR) CURRENCY(CNY) CURRENCY(MXN) CURRENCY(XAU)
#define STATE(n) expect("text([L._jurisdictions." #n ".sovereign, L._jurisdictions." #n ".tender, L._jurisdictions." #n ".tender.denominator, G._countries." #n "])", "[" + esl::law::jurisdictions::n.sovereign.representation() + "," + str(esl::law::jurisdictions::n.tender) + "," + str(esl::law::jurisdictions::n.tender.denominator) + "," #n "]");
    STATE(US) STATE(NL) STATE(GB) STATE(DE) STATE(FR) STATE(JP) STATE(CH) STATE(SE) STATE(BH) STATE(KW) STATE(CA) STATE(BR)
}
PBT(shares, 6000, 300000, "two classes and three steps")
{
    size_t n = 1 + c.below(4); bp::list cs, st; std::vector<fin::share_class> v; for(size_t i = 0; i < n; ++i) { int a = (int)c.below(4), b = (int)c.below(3); float f = (float)c.below(4) / 4.f; bool x = c.flip(), y = c.flip(), z = c.flip(); fin::share_class s((std::uint8_t)a, (std::uint8_t)b, f, x, y, z); bool dup = false; for(auto &o : v) dup = dup || o == s || (!(o < s) && !(s < o)); if(dup) continue; v.push_back(s); cs.append(bp::make_tuple(a, b, f, x, y, z)); NOTE("class " << a << " " << b << " " << f << " " << x << y << z); }
    auto num = [](double d) { return pyfloat(d); }; lines want; { rec r; for(auto &s : v) r.add(((rec() << s.rank << s.votes).add(num(s.preference)) << s.dividend << s.cumulative << s.redeemable).done()); want << r.done(); } for(auto &a : v) { rec r; for(auto &b : v) r.add((rec() << (a == b) << (a < b)).done()); want << r.done(); }
    std::map<fin::share_class, u64> m; auto show = [&] { rec k, x; for(auto &[s, y] : m) { k << (size_t)(std::find(v.begin(), v.end(), s) - v.begin()); x << y; } return "[[" + k.done() + "," + x.done() + "," + str(m.size()) + "]]"; }; size_t steps = 0;
    for(; c.more(6, steps, 15); ++steps) { int o = (int)c.below(4); size_t i = c.below(v.size()); u64 a = c.big(INT64_MAX); st.append(bp::make_tuple(o, i, a)); NOTE("step " << o << " " << i << " " << a); std::string say; if(o == 0) m[v[i]] = a; else if(o == 1) say = m.count(v[i]) ? str(m[v[i]]) : "refused"; else if(o == 2) m.erase(v[i]); else say = str(m.count(v[i]) > 0); want << say + show(); }
    std::vector<u64> d; for(int i = 0; i < 5; ++i) d.push_back(c.below(100)); if(d[3] < d[2]) std::swap(d[2], d[3]); auto &cc = c.pick(some()); fin::dividend_policy dp(d[0], d[1], time_interval(d[2], d[3]), d[4], cc.second, {}); want << ((rec() << dp.announcement_date << dp.ex_dividend_date).add(dp.dividend_period.representation()) << dp.payable_date).add(cc.first).add(dp.total_dividends().representation()).add("0").done() << "[0,[]]";
    esl::economics::markets::centralized_exchange::position_report r(d[0], d[1], d[2]); want << (rec() << r.supply << r.bought << r.sold << r.liquidity_provided() << r.liquidity_taken()).done(); c.nontrivial(v.size() >= 2 && steps >= 3); same(c, call("shares", cs, st, seq(d), cc.first), want.s);
}
std::string side_text(ob::limit_order::side_t s) { return s == ob::limit_order::side_t::buy ? "buy" : "sell"; }
std::string state_text(ob::execution_report::state_t s) { typedef ob::execution_report::state_t t; return s == t::invalid ? "invalid" : s == t::cancel ? "cancel" : s == t::match ? "match" : "placement"; }
std::string report_text(const ob::execution_report &r, bool full = true) { auto x = rec().add(state_text(r.state)).add(side_text(r.side)) << r.identifier << r.quantity; x.add(r.limit.representation()).add(ident(r.owner)); (void)full; return x.add(r.representation()).done(); }
PBT(books, 9000, 400000, "an order is matched")
{
    typedef ob::limit_order::side_t sd; typedef ob::limit_order::lifetime_t lt; static const lt lives[] = {lt::good_until_cancelled, lt::immediate_or_cancel, lt::fill_or_kill}; static const char *names[] = {"good_until_cancelled", "immediate_or_cancel", "fill_or_kill"};
    bool tree = c.flip(); i64 low = 1 + (i64)c.below(5), high = low + 2 + (i64)c.below(10); unsigned lot = c.below(3) ? 1 : 1 + (unsigned)c.below(10); auto q = [&](i64 v) { quote x(price(v, cur::USD)); x.lot = lot; return x; }; std::unique_ptr<ob::basic_book> b; if(tree) b = std::make_unique<ob::binary_tree_order_book>(); else b = std::make_unique<ob::static_order_book>(q(low), q(high), 200); NOTE((tree ? "tree" : "ticks") << " " << low << ".." << high << " lot " << lot);
    lines want; u64 big = (u64(1) << 32) + c.below(1000); want << "refused" << "refused" << "4294967295"; std::vector<u64> known; bp::list steps; bool matched = false; ticker t(identity<law::property>(std::vector<u64>{1}), identity<law::property>(std::vector<u64>{2}));
    for(size_t k = 0; c.more(12, k, 40); ++k) {
        int o = c.below(6) ? 0 : 1 + (int)c.below(3); u64 who = c.below(3), n = 1 + c.below(c.below(4) ? 6 : 4294967295ull); int side = (int)c.below(2), life = c.below(3) ? 0 : (int)c.below(3); i64 v = c.range(low, high); steps.append(bp::make_tuple(o, who, side, v, n, life)); NOTE("step " << o << " by " << who << " side " << side << " at " << v << " for " << n << " " << names[life]); sd s = side ? sd::sell : sd::buy; identity<esl::agent> owner(std::vector<u64>{3, who});
        if(o <= 1) { ob::limit_order l(t, owner, s, q(v), n, lives[life]); if(o == 0) want << (rec().add(ident(l.symbol.base)).add(ident(l.symbol.quote)).add(ident(l.owner)).add(side_text(l.side)).add(l.limit.representation()) << l.quantity).add(names[life]).done(); b->insert(l); } else if(o == 2) { if(!known.empty()) b->cancel(known[(size_t)v % known.size()]); } else b->reports.clear();
        rec rs; for(auto &r : b->reports) { rs.add(report_text(r)); matched = matched || r.state == ob::execution_report::state_t::match; if(r.state == ob::execution_report::state_t::placement && std::find(known.begin(), known.end(), r.identifier) == known.end()) known.push_back(r.identifier); }
        rec os; for(auto &x : b->orders()) os << x; auto best = [](const std::optional<quote> &x) { return x ? x->representation() : std::string("None"); }; want << (rec().add(rs.done()) << b->reports.size()).add(best(b->bid())).add(best(b->ask())).add(os.done()).done();
    }
    c.nontrivial(matched); same(c, call("books", (int)tree, low, high, lot, 200, steps, big), want.s);
}
PBT(reports, 1800, 100000, "always")
{
    int st = (int)c.below(4), s = (int)c.below(2); u64 id = c.below(100), n = c.below(4294967290ull), who = c.below(9); i64 v = (i64)c.below(1000); c.nontrivial(); typedef ob::execution_report::state_t t; static const t states[] = {t::invalid, t::cancel, t::match, t::placement}; typedef ob::limit_order::side_t sd;
    ob::execution_report r(states[st], s ? sd::sell : sd::buy, (std::uint32_t)id, n, quote(price(v, cur::USD)), identity<esl::agent>(std::vector<u64>{who})); lines want; want << report_text(r); r.owner = identity<esl::agent>(std::vector<u64>{who, 1}); r.quantity = n + 1; r.side = s ? sd::buy : sd::sell; want << report_text(r); same(c, call("report", st, s, id, n, v, who), want.s);
}
// --- simulations
struct plan { bool at_start = true; std::vector<std::pair<int, u64>> todo; };
struct failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct world_log { std::vector<std::string> hooks; std::map<size_t, std::vector<std::string>> acts; };
struct bench {
    struct actor : esl::agent { bench *b; size_t i; std::vector<std::pair<int, u64>> todo; actor(bench *b, size_t i, const plan &p) : esl::agent(identity<esl::agent>(std::vector<u64>{5, i})), b(b), i(i), todo(p.todo) {}
        time_point act(time_interval s, std::seed_seq &seed) override { std::vector<std::uint32_t> g(1); seed.generate(g.begin(), g.end()); b->log.acts[i].push_back((rec() << s.lower << s.upper << g[0]).done()); if(todo.empty()) return esl::agent::act(s, seed); auto [w, n] = todo.front(); todo.erase(todo.begin()); switch(w) { case 0: return s.lower + n; case 1: return s.upper; case 2: throw failure("agent " + str(i)); case 3: if(n < b->crew.size()) b->m->agents.activate(b->crew[n]); break; case 4: if(n < b->crew.size()) b->m->agents.deactivate(b->crew[n]); } return s.lower + 1; } };
    struct env : computation::environment { bench *b; typedef computation::environment base; bool on(const char *n) const { return b->eh.count(n) > 0; } void say(std::string s) { b->log.hooks.push_back(std::move(s)); }
        void before_step() override { if(on("before_step")) say("before"); base::before_step(); } void after_step(sim::model &m) override { if(on("after_step")) say("after " + str(m.time) + " 1"); base::after_step(m); } void after_run(sim::model &m) override { if(on("after_run")) say("done " + str(m.time) + " 1"); base::after_run(m); } void run(sim::model &m) override { if(on("run")) say("run 1"); base::run(m); }
        size_t activate() override { auto k = base::activate(); if(on("activate")) say("activate " + str(k)); return k; } size_t deactivate() override { auto k = base::deactivate(); if(on("deactivate")) say("deactivate " + str(k)); return k; } size_t send_messages(sim::model &m) override { auto k = base::send_messages(m); if(on("send_messages")) say("send " + str(k)); return k; } };
    struct mod : sim::model { bench *b; mod(computation::environment &e, const sim::parameter::parametrization &p, bench *b) : model(e, p), b(b) {} bool on(const char *n) const { return b->mh.count(n) > 0; } void initialize() override { if(on("initialize")) b->log.hooks.push_back("initialize"); model::initialize(); } void terminate() override { if(on("terminate")) b->log.hooks.push_back("terminate"); model::terminate(); } time_point step(time_interval t) override { auto r = model::step(t); if(on("step")) { b->log.hooks.push_back("step " + t.representation() + " " + str(r)); if(b->skip) return t.upper; } return r; } };
    std::set<std::string> eh, mh; bool skip = false; world_log log; env e; std::vector<std::shared_ptr<actor>> crew; std::unique_ptr<mod> m;
};
void simulation(pbt::Ctx &c, bool failures, bool helper)
{
    bench b; b.e.b = &b; b.skip = c.below(5) == 0; u64 start = c.below(6), end = start + 1 + c.below(12), sample = c.big(u64(1) << 40), verb = 1 + c.below(3); size_t n = c.below(4), runs = 1 + c.below(2); std::vector<plan> plans(n); bp::list pl, eh, mh; size_t events = 0;
    for(auto s : {"before_step", "after_step", "after_run", "run", "activate", "deactivate", "send_messages"}) if(c.flip()) { b.eh.insert(s); eh.append(s); } for(auto s : {"initialize", "step", "terminate"}) if(c.flip()) { b.mh.insert(s); mh.append(s); }
    for(size_t i = 0; i < n; ++i) { auto &p = plans[i]; p.at_start = c.below(4) != 0; size_t k = 0; bp::list todo; for(; c.more(4, k, 10); ++k) { int w = c.below(3) ? 0 : (int)c.below(5); if(w == 2 && !failures) w = 0; u64 x = w == 0 ? 1 + c.below(4) : c.below(n + 1); p.todo.push_back({w, x}); todo.append(bp::make_tuple(w, x)); NOTE("agent " << i << ": " << w << " " << x); } pl.append(bp::make_tuple(p.at_start, todo)); events += k; }
    NOTE(start << ".." << end << " sample " << sample << " runs " << runs); sim::parameter::parametrization p; p.values["start"] = std::make_shared<sim::parameter::constant<u64>>(start); p.values["end"] = std::make_shared<sim::parameter::constant<u64>>(end); p.values["sample"] = std::make_shared<sim::parameter::constant<u64>>(sample); p.values["verbosity"] = std::make_shared<sim::parameter::constant<u64>>(verb);
    std::string got, want; { silence hush; b.m = std::make_unique<bench::mod>(b.e, p, &b); auto &hooks = b.log.hooks; hooks.push_back((rec() << b.m->start << b.m->end << b.m->time << b.m->sample).done()); for(size_t i = 0; i < n; ++i) { b.log.acts[i]; b.crew.push_back(std::make_shared<bench::actor>(&b, i, plans[i])); } for(size_t i = 0; i < n; ++i) if(plans[i].at_start) b.m->agents.activate(b.crew[i]);
        for(size_t r = 0; r < runs; ++r) { try { b.e.run(*b.m); } catch(failure &x) { hooks.push_back(std::string("error ") + x.what()); } std::vector<std::string> who; for(auto &[k, v] : b.m->agents.local_agents_) who.push_back(ident(k)); std::sort(who.begin(), who.end()); rec w; for(auto &x : who) w.add(x); hooks.push_back((rec() << b.m->time).add(w.done()).done()); if(r + 1 < runs) b.m->end += 3; }
        lines l; for(auto &h : hooks) l << h; l << "1"; for(auto &[i, a] : b.log.acts) { std::string s = str(i) + ": "; for(size_t k = 0; k < a.size(); ++k) s += (k ? " " : "") + a[k]; l << s; } want = l.s; got = call("simulate", start, end, sample, verb, pl, eh, mh, runs, helper, b.skip); }
    c.nontrivial(n >= 1 && events >= 3); same(c, got, want);
}
PBT(simulations, 7200, 400000, "an agent with three planned acts or more") { simulation(c, false, false); }
PBT(failing_agents, 2400, 150000, "an agent with three planned acts or more") { simulation(c, true, false); }
PBT(parameters, 4800, 300000, "three steps")
{
    bp::list st; std::map<int, std::string> v; lines want; size_t k = 0; for(; c.more(6, k, 15); ++k) { int o = (int)c.below(13), n = (int)c.below(4); i64 i = c.sbig(INT64_MAX / 2); double f = c.real(1e6); st.append(bp::make_tuple(o, n, i, f)); NOTE("step " << o << " p" << n << " " << i << " " << f); std::string say; switch(o) { case 0: case 5: v[n] = pyfloat(f); break; case 1: case 4: case 7: v[n] = str(i); break; case 2: case 8: v[n] = str((u64)std::abs(i)); break; case 3: case 6: v[n] = price(i, cur::EUR).representation(); break; case 9: say = "refused"; break; case 10: v.erase(n); break; case 11: say = str(v.count(n) > 0); break; case 12: { std::set<std::string> names; sim::parameter::parametrization d; for(auto &[a, b] : d.values) names.insert(a); for(auto &[a, b] : v) names.insert("p" + str(a)); rec r; for(auto &x : names) r.add(x); say = (rec() << names.size()).add(r.done()).done(); } } rec r; for(int j = 0; j < 4; ++j) r.add(v.count(j) ? v[j] : "refused"); want << say + "|" + r.done(); }
    sim::parameter::parametrization d; want << (rec() << d.get<u64>("sample") << d.get<u64>("verbosity") << d.get<u64>("threads")).done() << (rec() << d.get<u64>("start") << d.get<u64>("end") << d.get<u64>("sample")).done(); c.nontrivial(k >= 3); same(c, call("parameters", st), want.s);
}
PBT(markets, 2400, 100000, "two properties or orders")
{
    typedef esl::economics::markets::tatonnement::excess_demand_model edm; struct order : wal::differentiable_order_message { std::vector<std::pair<double, double>> t; using wal::differentiable_order_message::excess_demand; std::map<identity<law::property>, esl::variable> excess_demand(const std::map<identity<law::property>, std::tuple<quote, esl::variable>> &q) const override { std::map<identity<law::property>, esl::variable> r; for(auto &[k, v] : q) { auto &x = t[k.digits.back()]; r.emplace(k, esl::variable(x.first - x.second * (double)std::get<0>(v) * esl::value(std::get<1>(v)))); } return r; } };
    size_t n = 1 + c.below(3), k = 1 + c.below(3); bool again = c.flip(); bp::list ps, os; law::property_map<quote> pm; for(size_t i = 0; i < n; ++i) { i64 v = 50 + (i64)c.below(1000); unsigned lot = c.below(3) ? 1 : 1 + (unsigned)c.below(5); ps.append(bp::make_tuple(v, lot)); quote q(price(v, cur::USD)); q.lot = lot; pm.try_emplace(std::make_shared<law::property>(identity<law::property>(std::vector<u64>{7, i})), q); NOTE("property " << v << "/" << lot); }
    auto mp = std::make_unique<edm>(pm); edm &m = *mp; m.methods = {edm::derivative_free_root, edm::derivative_free_minimization}; for(size_t i = 0; i < k; ++i) { auto o = std::make_shared<order>(); bp::list ts; for(size_t j = 0; j < n; ++j) { double a = 1 + (double)c.below(50), s = 1 + (double)c.below(5); o->t.push_back({a, s}); ts.append(bp::make_tuple(a, s)); NOTE("order " << i << ": " << a << " - " << s << " p" << j); } os.append(ts); m.excess_demand_functions_.push_back(o); }
    std::string got, want; { silence hush; auto r = m.compute_clearing_quotes(); lines l; l << "[" + str(k) + "]"; std::map<std::string, double> s; if(r) for(auto &[i, x] : *r) s[ident(i)] = x; std::string body; for(auto &[i, x] : s) { bp::object f(x); body += (body.empty() ? "" : "\n") + i + " " + (std::string)bp::extract<std::string>(f.attr("hex")()); } l << body; want = l.s; mp.reset(); got = call("market", ps, os, again); }
    c.nontrivial(n + k >= 4); same(c, got, want);
}
PBT(logs, 3000, 200000, "a warning or an error")
{
    bp::list l; auto &buf = peek::of(esl::data::main_log); buf.str(""); bool helper = c.below(4) == 0; std::vector<std::pair<int, std::string>> all; for(size_t k = 0; c.more(4, k, 8); ++k) { int s = (int)c.below(4); auto t = "m" + c.str("abc %{}", 8); unsigned line = (unsigned)c.below(1000); l.append(bp::make_tuple(s, t, line)); NOTE(s << " " << t); all.push_back({s, t}); }
    { silence hush; auto r = call("logs", l, helper); c.eq(r, std::string(), "logging"); } std::string text = buf.str(); static const char *names[] = {"trace", "notice", "warning", "error"}; bool any = false; size_t at = 0;
    // a release keeps warnings and errors, each with its severity and its text, in order
    for(auto &[s, t] : all) if(s >= 2) { any = true; auto p = text.find(std::string("(") + names[s], at); c.check(p != std::string::npos, PBT_STR(names[s] << " is not logged as such: " << text)); auto e = text.find('\n', p); c.check(e != std::string::npos, "a logged line does not end"); auto line = text.substr(p, e - p); c.check(line.size() >= t.size() && line.substr(line.size() - t.size()) == t, PBT_STR("logged " << line << " for " << t)); at = e; }
    if(!all.empty()) { size_t lines = (size_t)std::count(text.begin(), text.end(), '\n'), want = 0; for(auto &[s, t] : all) want += s >= 2; c.eq(lines, want, "lines in the log of a release"); } c.nontrivial(any);
}
PBT(seeds, 1800, 100000, "always")
{
    std::vector<std::uint32_t> v; for(size_t k = 0; c.more(3, k, 8); ++k) v.push_back((std::uint32_t)c.big(~std::uint32_t(0))); std::seed_seq s(v.begin(), v.end()); std::vector<std::uint32_t> g(1); s.generate(g.begin(), g.end()); std::string t = "seed {"; for(auto x : v) t += str(x) + ", "; t += "}"; c.nontrivial(); same(c, call("seeds", seq(v)), (rec() << v.size() << g[0]).add(t).add(str(g[0])).done());
}
}
int main(int argc, char **argv)
{
    PyImport_AppendInittab("_esl", &PyInit__esl); Py_InitializeEx(0); std::string trouble; static bp::object sp;
    try { sp = bp::import("__main__").attr("__dict__"); space = &sp; bp::exec(SCRIPT, sp); } catch(bp::error_already_set &) { PyErr_Print(); return 3; }
    return pbt::main(argc, argv);
}
