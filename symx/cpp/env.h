// Random numbers of the code under test as a nondeterministic environment (both modes):
// every value the distributions' documented contract allows.
#pragma once
namespace symx {
REAL env_real(REAL lo, REAL hi);
long long env_pick(long long n);
#ifdef SYMXOMP
// the draw is a function of the generator's state: equal states give equal draws
REAL env_real_at(unsigned long long key, REAL lo, REAL hi);
long long env_pick_at(unsigned long long key, long long n);
template <class G> unsigned long long env_key(G &g) { unsigned long long a = g(), b = g(); return (a << 32) ^ b; }
#define SYMX_DRAW(G_, LO, HI) symx::env_real_at(symx::env_key(G_), LO, HI)
#define SYMX_PICK(G_, N) symx::env_pick_at(symx::env_key(G_), N)
#else
#define SYMX_DRAW(G_, LO, HI) symx::env_real(LO, HI)
#define SYMX_PICK(G_, N) symx::env_pick(N)
#endif
}
namespace std {
template <> class uniform_real_distribution<REAL> {
    REAL a_, b_;
public:
    using result_type = REAL;
    uniform_real_distribution() : a_(0.0), b_(1.0) {}
    explicit uniform_real_distribution(REAL a, REAL b = REAL(1.0)) : a_(a), b_(b) {}
    template <class G> REAL operator()(G &g) { return SYMX_DRAW(g, a_, b_); }
    REAL a() const { return a_; }
    REAL b() const { return b_; }
    void reset() {}
};
template <> class uniform_int_distribution<int> {
    int a_, b_;
public:
    using result_type = int;
    explicit uniform_int_distribution(int a = 0, int b = INT_MAX) : a_(a), b_(b) {}
    template <class G> int operator()(G &g) { return a_ + (int)SYMX_PICK(g, (long long)b_ - a_ + 1); }
    int a() const { return a_; }
    int b() const { return b_; }
    void reset() {}
};
}
