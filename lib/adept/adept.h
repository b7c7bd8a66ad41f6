// A small reverse-mode automatic differentiation library with the part of Adept's interface that ESL uses.
// The sandbox has no Adept; this stand-in lets the Walrasian market be compiled and run as it is.
// Like Adept: an active stack per thread, storage-based gradient indices, a tape of statements, and a Jacobian
// stored with the dependent variables varying fastest.
#ifndef VERIF_ADEPT_H
#define VERIF_ADEPT_H
#include <cmath>
#include <cstddef>
#include <ostream>
#include <utility>
#include <vector>
#include <stdexcept>
#define ADEPT_VERSION 20005
#define ADEPT_VERSION_STR "2.0.5"
namespace adept {
typedef double Real;
class adouble;
struct op { double p; size_t id; };
struct statement { size_t lhs, end; };
class Stack;
inline Stack *&active_stack() { static thread_local Stack *s = nullptr; return s; }
class Stack {
    friend class adouble;
    std::vector<op> ops; std::vector<statement> stm; std::vector<size_t> freed; size_t next = 0; bool recording = true; std::vector<double> grad; std::vector<size_t> ind, dep;
    void reverse(std::vector<double> &g) const { for(size_t k = stm.size(); k-- > 0;) { double a = g[stm[k].lhs]; g[stm[k].lhs] = 0; size_t b = k ? stm[k - 1].end : 0; if(a != 0) for(size_t j = b; j < stm[k].end; ++j) g[ops[j].id] += ops[j].p * a; } }
public:
    explicit Stack(bool activate_immediately = true) { if(activate_immediately) activate(); }
    ~Stack() { if(active_stack() == this) active_stack() = nullptr; }
    Stack(const Stack &) = delete; Stack &operator=(const Stack &) = delete;
    void activate() { if(active_stack() && active_stack() != this) throw std::runtime_error("adept: a stack is already active"); active_stack() = this; }
    void deactivate() { if(active_stack() == this) active_stack() = nullptr; }
    bool is_active() const { return active_stack() == this; }
    void new_recording() { ops.clear(); stm.clear(); ind.clear(); dep.clear(); grad.clear(); }
    bool pause_recording() { recording = false; return true; }
    bool continue_recording() { recording = true; return true; }
    bool is_recording() const { return recording; }
    size_t get_index() { if(!freed.empty()) { size_t i = freed.back(); freed.pop_back(); return i; } return next++; }
    void release(size_t i) { freed.push_back(i); }
    void independent(const adouble &x); void dependent(const adouble &x);
    void independent(const adouble *x, size_t n); void dependent(const adouble *x, size_t n);
    void set_gradient(size_t i, double g) { if(grad.size() < next) grad.resize(next, 0.); grad[i] = g; }
    double get_gradient(size_t i) const { return i < grad.size() ? grad[i] : 0.; }
    void compute_adjoint() { if(grad.size() < next) grad.resize(next, 0.); reverse(grad); }
    void reverse() { compute_adjoint(); }
    void jacobian(double *out) const { size_t m = dep.size(); for(size_t i = 0; i < m; ++i) { std::vector<double> g(next, 0.); g[dep[i]] = 1; reverse(g); for(size_t j = 0; j < ind.size(); ++j) out[j * m + i] = g[ind[j]]; } }
    size_t n_independent() const { return ind.size(); } size_t n_dependent() const { return dep.size(); }
    void push(size_t lhs, std::initializer_list<op> o) { if(!recording) return; for(auto &x : o) ops.push_back(x); stm.push_back({lhs, ops.size()}); }
};
inline Stack &the_stack() { Stack *s = active_stack(); if(!s) throw std::runtime_error("adept: no stack is active"); return *s; }
class adouble {
    double v; size_t id; Stack *home;
    void reg() { home = active_stack(); id = home ? home->get_index() : 0; }
    void st(std::initializer_list<op> o) { if(home && home == active_stack()) home->push(id, o); }
public:
    adouble() : v(0) { reg(); }
    adouble(double x) : v(x) { reg(); st({}); }
    adouble(const adouble &o) : v(o.v) { reg(); if(o.home) st({{1., o.id}}); else st({}); }
    adouble(double x, double p, const adouble &a) : v(x) { reg(); if(a.home) st({{p, a.id}}); else st({}); }
    adouble(double x, double p, const adouble &a, double q, const adouble &b) : v(x) { reg(); if(a.home && b.home) st({{p, a.id}, {q, b.id}}); else if(a.home) st({{p, a.id}}); else if(b.home) st({{q, b.id}}); else st({}); }
    ~adouble() { if(home && home == active_stack()) home->release(id); }
    adouble &operator=(const adouble &o) { v = o.v; if(o.home) st({{1., o.id}}); else st({}); return *this; }
    adouble &operator=(double x) { v = x; st({}); return *this; }
    double value() const { return v; }
    void set_value(double x) { v = x; }
    size_t gradient_index() const { return id; }
    void set_gradient(double g) { the_stack().set_gradient(id, g); }
    double get_gradient() const { return the_stack().get_gradient(id); }
    adouble operator-() const { return adouble(-v, -1., *this); }
    adouble operator+() const { return *this; }
    friend adouble operator+(const adouble &a, const adouble &b) { return adouble(a.v + b.v, 1., a, 1., b); }
    friend adouble operator-(const adouble &a, const adouble &b) { return adouble(a.v - b.v, 1., a, -1., b); }
    friend adouble operator*(const adouble &a, const adouble &b) { return adouble(a.v * b.v, b.v, a, a.v, b); }
    friend adouble operator/(const adouble &a, const adouble &b) { return adouble(a.v / b.v, 1 / b.v, a, -a.v / (b.v * b.v), b); }
    friend adouble operator+(const adouble &a, double b) { return adouble(a.v + b, 1., a); }
    friend adouble operator+(double b, const adouble &a) { return adouble(b + a.v, 1., a); }
    friend adouble operator-(const adouble &a, double b) { return adouble(a.v - b, 1., a); }
    friend adouble operator-(double b, const adouble &a) { return adouble(b - a.v, -1., a); }
    friend adouble operator*(const adouble &a, double b) { return adouble(a.v * b, b, a); }
    friend adouble operator*(double b, const adouble &a) { return adouble(b * a.v, b, a); }
    friend adouble operator/(const adouble &a, double b) { return adouble(a.v / b, 1 / b, a); }
    friend adouble operator/(double b, const adouble &a) { return adouble(b / a.v, -b / (a.v * a.v), a); }
    adouble &operator+=(const adouble &o) { return *this = *this + o; }
    adouble &operator-=(const adouble &o) { return *this = *this - o; }
    adouble &operator*=(const adouble &o) { return *this = *this * o; }
    adouble &operator/=(const adouble &o) { return *this = *this / o; }
    friend bool operator<(const adouble &a, const adouble &b) { return a.v < b.v; }
    friend bool operator>(const adouble &a, const adouble &b) { return a.v > b.v; }
    friend bool operator<=(const adouble &a, const adouble &b) { return a.v <= b.v; }
    friend bool operator>=(const adouble &a, const adouble &b) { return a.v >= b.v; }
    friend bool operator==(const adouble &a, const adouble &b) { return a.v == b.v; }
    friend bool operator!=(const adouble &a, const adouble &b) { return a.v != b.v; }
    friend std::ostream &operator<<(std::ostream &o, const adouble &a) { return o << a.v; }
};
inline double value(const adouble &a) { return a.value(); }
inline double value(double a) { return a; }
inline adouble exp(const adouble &a) { double e = std::exp(a.value()); return adouble(e, e, a); }
inline adouble log(const adouble &a) { return adouble(std::log(a.value()), 1 / a.value(), a); }
inline adouble sqrt(const adouble &a) { double s = std::sqrt(a.value()); return adouble(s, .5 / s, a); }
inline adouble sin(const adouble &a) { return adouble(std::sin(a.value()), std::cos(a.value()), a); }
inline adouble cos(const adouble &a) { return adouble(std::cos(a.value()), -std::sin(a.value()), a); }
inline adouble tanh(const adouble &a) { double t = std::tanh(a.value()); return adouble(t, 1 - t * t, a); }
inline adouble abs(const adouble &a) { return adouble(std::fabs(a.value()), a.value() < 0 ? -1. : 1., a); }
inline adouble fabs(const adouble &a) { return abs(a); }
inline adouble pow(const adouble &a, double n) { return adouble(std::pow(a.value(), n), n * std::pow(a.value(), n - 1), a); }
inline adouble pow(double a, const adouble &b) { double p = std::pow(a, b.value()); return adouble(p, p * std::log(a), b); }
inline adouble pow(const adouble &a, const adouble &b) { double p = std::pow(a.value(), b.value()); return adouble(p, b.value() * std::pow(a.value(), b.value() - 1), a, p * std::log(a.value()), b); }
inline adouble max(const adouble &a, const adouble &b) { return a.value() < b.value() ? b : a; }
inline adouble min(const adouble &a, const adouble &b) { return b.value() < a.value() ? b : a; }
inline bool isfinite(const adouble &a) { return std::isfinite(a.value()); }
inline void get_gradients(const adouble *a, size_t n, double *out) { for(size_t i = 0; i < n; ++i) out[i] = a[i].get_gradient(); }
inline void set_values(adouble *a, size_t n, const double *x) { for(size_t i = 0; i < n; ++i) a[i] = x[i]; }
inline void Stack::independent(const adouble &x) { ind.push_back(x.gradient_index()); }
inline void Stack::dependent(const adouble &x) { dep.push_back(x.gradient_index()); }
inline void Stack::independent(const adouble *x, size_t n) { for(size_t i = 0; i < n; ++i) independent(x[i]); }
inline void Stack::dependent(const adouble *x, size_t n) { for(size_t i = 0; i < n; ++i) dependent(x[i]); }
}
#endif
