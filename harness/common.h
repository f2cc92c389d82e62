// Shared by all instrumented translation units: observation of results, operand values, coefficient type.
#ifndef HX_COMMON_H
#define HX_COMMON_H
#include "../sim/engine.h"
#include <cmath>
#include <cstring>
#include <exception>
#include <iosfwd>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

namespace hx {

using std::uint64_t;

// ---------------------------------------------------------------------------------------------------------------
// Coefficient values. Index families give near-duplicates of one base: a cache keyed on less than the full operands
// or a value left over from another call changes the result of at least one of them.
constexpr int NORD = 24;                                  // ordinary operand values (the last six: small integers, many of equal magnitude, and zeros of both signs)
constexpr int NSMALL = 26, NIDX = 30;                     // and special ones (infinite, not a number; four of small magnitudes, between the tolerances in use)
constexpr int NTIE = 5000;                                // from here on: small integers
int next_index(int idx, int by);                          // the values of another operand of the same family
double value_of(int idx, int comp, int ncomp, int salt);
template<class T> T const &as_const(T const &x) { return x; }

// ---------------------------------------------------------------------------------------------------------------
// External lifecycle registry of the coefficient type (uninstrumented; survives any overwriting of the objects).
enum LifeOp { L_BORN, L_GONE, L_READ, L_WRITE, L_MOVED, L_REFILL };
void life(LifeOp op, void const *obj, void const *node);
long live_objects();                       // all tasks
long live_objects_of_task();               // constructed minus destroyed by the current task
bool is_alive(void const *obj);
bool is_moved_from(void const *obj);

// Fault plan of the current task: the next copy/conversion number `countdown` throws.
struct InjectedFault : std::exception { int id; explicit InjectedFault(int i) : id(i) {} char const *what() const noexcept override { return "injected fault"; } };
enum FaultKind { FK_NONE, FK_BADALLOC, FK_CUSTOM, FK_INT };
void arm_copy_fault(int countdown, FaultKind kind, int id);   // countdown >= 1
int disarm_copy_fault();                                       // copies that happened while armed
bool copy_fault_fired();
void maybe_copy_fault();                                       // called by the coefficient type
void quiet_coef(bool on);                                      // no yields / faults while the harness itself reads

struct Node { double v; };

// A coefficient that owns heap memory.
class S {
public:
    S() noexcept : p_(nullptr) { life(L_BORN, this, nullptr); }
    S(double v) : p_(make(v)) { life(L_BORN, this, p_); }
    S(int v) : S((double)v) {}
    S(long v) : S((double)v) {}
    S(S const &o) : p_(nullptr) { double v = o.get(); p_ = make(v); life(L_BORN, this, p_); }
    S(S &&o) noexcept : p_(o.take()) { life(L_BORN, this, p_); }
    ~S() { life(L_GONE, this, p_); ::operator delete(p_); p_ = nullptr; }
    S &operator=(S const &o) {
        double v = o.get();
        life(L_WRITE, this, p_);
        Node *n = make(v);
        ::operator delete(p_); p_ = n;
        life(L_REFILL, this, p_);
        return *this;
    }
    S &operator=(S &&o) noexcept {
        if (this == &o) return *this;
        life(L_WRITE, this, p_);
        Node *n = o.take();
        ::operator delete(p_); p_ = n;
        life(L_REFILL, this, p_);
        return *this;
    }
    double get() const { life(L_READ, this, p_); return p_ ? p_->v : 0.0; }
    void set(double v) { life(L_WRITE, this, p_); if (!p_) { p_ = (Node *)::operator new(sizeof(Node)); life(L_REFILL, this, p_); } p_->v = v; }
    explicit operator double() const { return get(); }
private:
    static Node *make(double v) { maybe_copy_fault(); Node *n = (Node *)::operator new(sizeof(Node)); n->v = v; return n; }
    Node *take() noexcept { life(L_READ, this, p_); life(L_MOVED, this, p_); Node *n = p_; p_ = nullptr; if (!n) { n = (Node *)::operator new(sizeof(Node)); n->v = 0.0; } return n; }
    Node *p_;
};

// The rvalue overloads reuse the storage of the operand they were given: it is moved from afterwards.
#define HX_BIN(op) \
    inline S operator op(S const &a, S const &b) { return S(a.get() op b.get()); } \
    inline S operator op(S &&a, S const &b) { double r = a.get() op b.get(); S t(std::move(a)); t.set(r); return t; } \
    inline S operator op(S const &a, S &&b) { double r = a.get() op b.get(); S t(std::move(b)); t.set(r); return t; } \
    inline S operator op(S &&a, S &&b) { double r = a.get() op b.get(); S t(std::move(a)); t.set(r); return t; }
HX_BIN(+) HX_BIN(-) HX_BIN(*) HX_BIN(/)
#undef HX_BIN
#define HX_CMP(op) inline bool operator op(S const &a, S const &b) { return a.get() op b.get(); }
HX_CMP(<) HX_CMP(>) HX_CMP(<=) HX_CMP(>=) HX_CMP(==) HX_CMP(!=)
#undef HX_CMP
inline S operator-(S const &a) { return S(-a.get()); }
inline S operator+(S const &a) { return S(a.get()); }
inline bool operator!(S const &a) { return a.get() == 0.0; }
inline S operator-(S &&a) { double r = -a.get(); S t(std::move(a)); t.set(r); return t; }
inline S &operator+=(S &a, S const &b) { a.set(a.get() + b.get()); return a; }
inline S &operator-=(S &a, S const &b) { a.set(a.get() - b.get()); return a; }
inline S &operator*=(S &a, S const &b) { a.set(a.get() * b.get()); return a; }
inline S &operator/=(S &a, S const &b) { a.set(a.get() / b.get()); return a; }
#define HX_FUN(f) inline S f(S const &a) { return S(std::f(a.get())); } \
    inline S f(S &&a) { maybe_copy_fault(); double r = std::f(a.get()); S t(std::move(a)); t.set(r); return t; }
HX_FUN(abs) HX_FUN(sqrt) HX_FUN(cbrt) HX_FUN(exp) HX_FUN(log) HX_FUN(cos) HX_FUN(sin) HX_FUN(tan) HX_FUN(cosh) HX_FUN(sinh) HX_FUN(tanh)
#undef HX_FUN
inline S pow(S const &a, S const &b) { return S(std::pow(a.get(), b.get())); }
std::ostream &operator<<(std::ostream &o, S const &a);

}

namespace std {
template<> struct common_type<hx::S, double> { using type = hx::S; };
template<> struct common_type<double, hx::S> { using type = hx::S; };
template<> struct common_type<hx::S, long> { using type = hx::S; };
template<> struct common_type<long, hx::S> { using type = hx::S; };
template<> struct common_type<hx::S, int> { using type = hx::S; };
template<> struct common_type<int, hx::S> { using type = hx::S; };
}
#endif
