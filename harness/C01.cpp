// Quantities: exact integer arithmetic and conservation under splitting.
// SOURCES: esl/quantity.cpp esl/exception.cpp
#include <pbt.hpp>
#include <esl/quantity.hpp>
using esl::quantity;
using u128 = unsigned __int128;
typedef uint64_t u64;

PBT(arithmetic, 1000000, 40000000, "both operands exceed one and differ")
{
    u64 a = c.big(), b = c.big();
    quantity p(a), q(b);
    NOTE("a=" << a << " b=" << b);
    c.nontrivial(a > 1 && b > 1 && a != b);
    c.eq(p.amount, a, "constructed amount");
    if((u128)a + b <= UINT64_MAX) {
        c.label("sum");
        c.eq((p + q).amount, a + b, "a+b"); c.eq((q + p).amount, a + b, "b+a");
        quantity r(a); r += q; c.eq(r.amount, a + b, "a+=b");
        c.eq(((p + q) - q).amount, a, "(a+b)-b");
    }
    if(a >= b) {
        c.label("difference");
        c.eq((p - q).amount, a - b, "a-b");
        quantity r(a); r -= q; c.eq(r.amount, a - b, "a-=b");
    } else {
        c.label("negative difference");
        c.check(pbt::throws([&] { auto x = p - q; (void)x; }), "a-b with a<b was not refused");
        quantity r(a);
        c.check(pbt::throws([&] { r -= q; }), "a-=b with a<b was not refused");
        c.eq(r.amount, a, "refused a-=b changed the value");
    }
    if((u128)a * b <= UINT64_MAX) {
        c.label("product");
        c.eq((p * b).amount, a * b, "a*b"); c.eq((p * q).amount, a * b, "a*quantity b");
        quantity r(a); r *= b; c.eq(r.amount, a * b, "a*=b");
    }
    if(b) { quantity r(a); r /= b; c.eq(r.amount, a / b, "a/=b"); }
    // operands are never changed
    c.eq(p.amount, a, "left operand after operations"); c.eq(q.amount, b, "right operand after operations");
    // copies, moves, assignment
    quantity k(p); c.eq(k.amount, a, "copy"); quantity m(std::move(k)); c.eq(m.amount, a, "move");
    quantity as; as = q; c.eq(as.amount, b, "assigned"); c.eq(quantity().amount, u64(0), "default quantity");
}

PBT(comparison, 1000000, 40000000, "operands differ by at most 2, or one exceeds 2^53")
{
    u64 a = c.big();
    u64 b = c.flip() ? c.big() : (c.flip() ? (a < UINT64_MAX - 2 ? a + c.below(3) : a) : (a > 2 ? a - c.below(3) : a));
    quantity p(a), q(b);
    NOTE("a=" << a << " b=" << b);
    c.nontrivial((a > b ? a - b : b - a) <= 2 || a > (1ull << 53) || b > (1ull << 53));
    c.label(a == b ? "equal" : a < b ? "less" : "greater");
    c.eq(p == q, a == b, "=="); c.eq(p != q, a != b, "!="); c.eq(p < q, a < b, "<");
    c.eq(p <= q, a <= b, "<="); c.eq(p > q, a > b, ">"); c.eq(p >= q, a >= b, ">=");
    // against a real number
    u64 e = a >> c.below(64), lim = 1ull << 53;
    if(e < lim) {
        double x = static_cast<double>(b % lim); 
        switch(c.below(3)) { case 0: break; case 1: x = (double)e; break; default: x = (double)e + (c.flip() ? 0.5 : -0.5); }
        quantity r(e); double y = static_cast<double>(e);
        c.eq(r == x, y == x, "== real"); c.eq(r < x, y < x, "< real"); c.eq(r > x, y > x, "> real");
        c.eq(r <= x, y <= x, "<= real"); c.eq(r >= x, y >= x, ">= real");
    }
}

template<u64 n> void fixed(pbt::Ctx &c, u64 a)
{
    auto parts = quantity(a).divide<n>();
    c.eq(parts.size(), (size_t)n, "number of fixed parts");
    u64 sum = 0;
    for(size_t i = 0; i < n; ++i) {
        sum += parts[i].amount;
        c.eq(parts[i].amount, a / n + (i < a % n ? 1 : 0), PBT_STR("fixed part " << i << " of " << n));
    }
    c.eq(sum, a, "total of the fixed parts");
}

PBT(splitting, 400000, 15000000, "divisor above one that does not divide the amount")
{
    u64 a = c.big();
    u64 n = c.below(4) ? c.range(1, 20) : c.range(1, 700);
    if(c.below(3) == 0) { u64 k = c.below(1ull << 20); a = k * n + c.below(n); }   // every remainder is likely
    NOTE("amount=" << a << " divisor=" << n);
    c.nontrivial(n > 1 && a % n);
    c.label(a < n ? "amount below divisor" : a % n == 0 ? "divides" : 2 * (a % n) > n ? "large remainder" : "small remainder");
    quantity q(a);
    auto parts = q / n;
    c.eq(parts.size(), (size_t)n, "number of parts");
    u64 sum = 0, lo = UINT64_MAX, hi = 0, prev = UINT64_MAX;
    for(auto &p : parts) {
        sum += p.amount; lo = std::min(lo, p.amount); hi = std::max(hi, p.amount);
        c.check(p.amount <= prev, "a smaller part precedes a larger one"); prev = p.amount;
    }
    c.eq(sum, a, "total of the parts");
    c.check(hi - lo <= 1, "parts differ by more than one unit");
    c.eq(q.amount, a, "amount after splitting");
    switch(n % 9) {
    case 0: fixed<1>(c, a); break; case 1: fixed<2>(c, a); break; case 2: fixed<3>(c, a); break; case 3: fixed<4>(c, a); break;
    case 4: fixed<5>(c, a); break; case 5: fixed<7>(c, a); break; case 6: fixed<10>(c, a); break; case 7: fixed<64>(c, a); break; default: fixed<100>(c, a);
    }
}

PBT(history, 200000, 8000000, "at least three mutations, one of them refused or a decrement")
{
    u64 v = c.big(); quantity q(v);
    NOTE("start " << v);
    int n = 0; bool special = false;
    while(c.more(12, n, 60)) {
        ++n;
        switch(c.below(9)) {
        case 0: { u64 d = c.big(); if(v <= UINT64_MAX - d) { q += quantity(d); v += d; NOTE("+= " << d); } break; }
        case 1: { u64 d = c.flip() ? c.big() : (v ? c.below(v) + c.below(3) : c.below(3));
                  NOTE("-= " << d);
                  bool t = pbt::throws([&] { q -= quantity(d); });
                  c.eq(t, d > v, "refusal of -= " + std::to_string(d) + " from " + std::to_string(v));
                  if(!t) v -= d; else special = true; break; }
        case 2: if(v < UINT64_MAX) { auto &r = ++q; ++v; c.check(&r == &q, "++q does not return the object"); NOTE("++q"); } break;
        case 3: if(v == 0) { c.check(pbt::throws([&] { --q; }), "decrementing zero was accepted"); NOTE("--q of zero"); } else { auto &r = --q; --v; special = true; c.check(&r == &q, "--q does not return the object"); NOTE("--q"); } break;
        case 4: if(v < UINT64_MAX) { auto r = q++; c.eq(r.amount, v, "q++ result"); ++v; NOTE("q++"); } break;
        case 5: if(v == 0) { c.check(pbt::throws([&] { (void)(q--); }), "decrementing zero was accepted"); NOTE("q-- of zero"); } else { auto r = q--; c.eq(r.amount, v, "q-- result"); --v; special = true; NOTE("q--"); } break;
        case 6: { u64 k = c.below(5); if((u128)v * k <= UINT64_MAX) { q *= k; v *= k; NOTE("*= " << k); } break; }
        case 7: { u64 k = 1 + c.below(9); q /= k; v /= k; NOTE("/= " << k); break; }
        case 8: { u64 k = 1 + c.below(6); quantity t; for(auto &x : q / k) t += x; q = t; NOTE("split and rejoin " << k); break; }
        }
        c.eq(q.amount, v, "amount in history");
    }
    c.nontrivial(n >= 3 && special);
}

PBT(rendering, 200000, 8000000, "amount above nine")
{
    u64 a = c.big(); quantity q(a);
    NOTE("amount " << a);
    c.nontrivial(a > 9);
    c.eq(q.representation(), std::to_string(a), "representation");
    std::ostringstream o; o << q; c.eq(o.str(), std::to_string(a), "stream output");
    c.eq(static_cast<u64>(q), a, "integer conversion"); c.eq(static_cast<double>(q), static_cast<double>(a), "real conversion");
}
int main(int argc, char **argv) { return pbt::main(argc, argv); }
