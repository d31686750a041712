// Conversion between the integer pairs <<t, k>> of the specification and the
// time types of the simulator.
#ifndef VERIF_TIMETRAITS_H
#define VERIF_TIMETRAITS_H
#include <cmath>
#include <string>
#ifdef VERIF_SCHEDULE2
#include "adevs/schedule2.h"
#else
#include "adevs/adevs.h"
#endif
#include "common.h"

struct Tm {
    long t = 0, k = 0;
    bool operator==(Tm const &o) const { return t == o.t && k == o.k; }
    bool operator<(Tm const &o) const { return t < o.t || (t == o.t && k < o.k); }
};
static const long INF_T = 1000000000;
static const Tm TINF = {INF_T, INF_T};
// A negative length that is too small to make a difference when it is added to a time
static const Tm TNEG = {-1, -12345};
template <class B> inline B scale();
template <class B> inline B tiny() { return std::numeric_limits<B>::is_integer ? B(-1) : B(-1e-30) * scale<B>(); }
template <class B> inline B zero(uint64_t noise) { return (noise & 1) && !std::numeric_limits<B>::is_integer ? B(-0.0) : B(0); }
inline std::string js(Tm a) { return fmt("[%ld,%ld]", a.t, a.k); }
inline long clampl(double x) {
    // Values that no correct run produces are kept representable
    if (!(x == x)) return -999999999;
    if (x > 999999999) return 999999999;
    if (x < -999999999) return -999999999;
    return lround(x);
}

// Times must not matter in absolute terms: with VERIF_SCALE some scenarios are in very small or large units of time
template <class B> inline B scale() {
#ifdef VERIF_SCALE
    int d = std::numeric_limits<B>::digits;
    double s = d == 24 ? 1099511627776.0 /* 2^40 */ : d > 40 && !std::numeric_limits<B>::is_integer ? 1237940039285380274899124224.0 /* 2^90 */ : d == 63 ? 1073741824.0 : 1.0;
    switch (scenario_number % 5) {
        case 2: return B(s);
        case 4: return std::numeric_limits<B>::is_integer ? B(1) : B(1.0 / s);
    }
#endif
    return B(1);
}

template <class T> struct TT;
#define PLAIN_TIME(T, UNIT)                                                          \
    template <> struct TT<T> {                                                       \
        static const bool sd = false;                                                \
        static constexpr double unit = UNIT;                                         \
        static T mk(Tm a) { return a == TINF ? adevs_inf<T>() : a == TNEG ? tiny<T>() : (T)(a.t * UNIT) * scale<T>(); } \
        static T mkj(Tm a, uint64_t n) { return a == Tm() ? zero<T>(n) : mk(a); }     \
        static Tm un(T x) {                                                          \
            if (x == adevs_inf<T>()) return TINF;                                    \
            double v = double(x / scale<T>()) / UNIT;                                \
            if (static_cast<T>(v * UNIT) * scale<T>() != x) v += 0.37;                             \
            Tm r = {clampl(v), 0};                                                   \
            if (v != double(r.t)) r.k = -1; /* not a whole number of units */        \
            return r;                                                                \
        }                                                                            \
    };
PLAIN_TIME(int, 1)
PLAIN_TIME(long, 1)
PLAIN_TIME(float, 0.25f)
PLAIN_TIME(double, 0.25)
PLAIN_TIME(long double, 0.25L)

#define SD_TIME(B, UNIT)                                                             \
    template <> struct TT<adevs::sd_time<B>> {                                       \
        typedef adevs::sd_time<B> T;                                                 \
        static const bool sd = true;                                                 \
        static constexpr double unit = UNIT;                                         \
        static T mk(Tm a) { return a == TINF ? adevs_inf<T>() : T(a == TNEG ? tiny<B>() : B(a.t * UNIT) * scale<B>(), int(a.k)); } \
        static T mkj(Tm a, uint64_t n) { return a.t == 0 ? T(zero<B>(n), int(a.k)) : mk(a); }                               \
        static Tm un(T x) {                                                          \
            if (x == adevs_inf<T>()) return TINF;                                    \
            double v = double(x.real() / scale<B>()) / UNIT;                         \
            if (B(v * UNIT) * scale<B>() != x.real()) v += 0.37;                      \
            Tm r = {clampl(v), clampl(x.integer())};                                 \
            if (v != double(r.t)) r.k = -777777;                                     \
            return r;                                                                \
        }                                                                            \
    };
SD_TIME(int, 1)
SD_TIME(long, 1)
SD_TIME(double, 0.25)

// Tolerant time: whole numbers with noise far below the tolerance.  The tolerance
// is relative, so there is no noise at zero.
template <> struct TT<adevs::double_fcmp> {
    typedef adevs::double_fcmp T;
    static const bool sd = false;
    static constexpr double unit = 1;
    static T mk(Tm a) { return a == TINF ? adevs_inf<T>() : T(double(a.t)); }
    static T mkj(Tm a, uint64_t noise) {
        return a == TINF ? adevs_inf<T>() : T(a == TNEG ? -1e-30 : a.t == 0 ? 0.0 : double(a.t) + double(noise % 1000) * 1e-12);
    }
    static Tm un(T x) {
        double d = x;
        if (d == std::numeric_limits<double>::max()) return TINF;
        Tm r = {clampl(d), 0};
        if (std::fabs(d - double(r.t)) > 1e-5) r.k = -1;
        return r;
    }
};
double adevs::double_fcmp::epsilon = 1E-6;
#endif
