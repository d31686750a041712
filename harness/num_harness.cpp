// Event finders and numerical integrators.
//   num_harness find|solve|control|err|spline SEED FIRST LAST OUTFILE
#include <cfloat>
#include <fstream>
#include <sstream>
#include <memory>
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
double adevs::double_fcmp::epsilon = 0.0;
using namespace adevs;
typedef std::list<PinValue<int>> Bag;
static char const* tf(bool b) { return b ? "true" : "false"; }

struct Base : ode_system<int> {
    Base(int n, int m) : ode_system<int>(n, m) {}
    void init(double*) {}
    void state_event_func(double const*, double*) {}
    double time_event_func(double const*) { return DBL_MAX; }
    void internal_event(double*, bool const*) {}
    void external_event(double*, double, Bag const &) {}
    void confluent_event(double*, bool const*, Bag const &) {}
    void output_func(double const*, bool const*, Bag &) {}
};

// ------------------------------------------------------------------ event finders
static const int NF = 7;  // clock, x, v, w, clock at start, u, something that falls by 2
struct FSys : Base {
    struct Z { int var, sg; double a; };
    std::vector<Z> zf;
    bool disc;
    FSys(std::vector<Z> z, bool disc) : Base(NF, int(z.size())), zf(z), disc(disc) {}
    void der_func(double const* q, double* dq) {
        dq[0] = 1;
        double t = q[0] - q[4];
        dq[1] = q[2] + q[3] * t + q[5] * t * t / 2.0;
        dq[2] = dq[3] = dq[4] = dq[5] = 0;
        dq[6] = -2;
        hook();
    }
    double z(double const* q, int i) const {
        double x = zf[i].sg * (q[zf[i].var] - zf[i].a);
        return disc ? (x < 0 ? -1.0 : 1.0) : x;
    }
    void state_event_func(double const* q, double* zz) {
        for (int i = 0; i < numEvents(); i++) zz[i] = z(q, i);
        hook();
    }
    std::string signs(double const* q) const {
        std::string s = "[";
        for (int i = 0; i < numEvents(); i++) s += fmt(i ? ",%d" : "%d", z(q, i) < 0 ? -1 : z(q, i) > 0 ? 1 : 0);
        return s + "]";
    }
};
static long sc(double x) { return std::fabs(x) > 400000 || x != x ? 1600000000L : lround(x * 4096.0); }
static std::string js(double const* q) { return fmt("[%ld,%ld,%ld,%ld,%ld,%ld]", sc(q[0]), sc(q[1]), lround(q[2]), lround(q[3]), lround(q[5]), sc(q[6])); }
static void flow(double const* q, double t, double* r) {
    memcpy(r, q, sizeof(double) * NF);
    r[0] = q[0] + t;
    r[6] = q[6] - 2 * t;
    r[1] = q[1] + q[2] * t + q[3] * t * t / 2.0 + q[5] * t * t * t / 6.0;
}
struct Exact : ode_solver<int> {
    Exact(ode_system<int>* s) : ode_solver<int>(s) {}
    double integrate(double* q, double h) { advance(q, h); return h; }
    void advance(double* q, double h) {
        // v, w are kept as the values at the start
        double t = q[0] - q[4], b[NF], e[NF], r[NF];
        memcpy(r, q, sizeof r);
        flow(q, t, b);
        flow(q, t + h, e);
        r[0] = q[0] + h;
        r[6] = q[6] - 2 * h;
        r[1] = q[1] + (e[1] - b[1]);
        memcpy(q, r, sizeof r);
    }
};

static void search(std::string const &kind, bool disc, std::vector<FSys::Z> const &zf, double tol, double h0, double const* q0, int sk, double hm, Rng &r) {
    int m = int(zf.size());
    FSys sys(zf, disc);
    std::unique_ptr<event_locator<int>> loc;
    if (kind == "bisect") loc.reset(new bisection_event_locator<int>(&sys, tol));
    else if (kind == "linear") loc.reset(new linear_event_locator<int>(&sys, tol));
    else if (kind == "disc") loc.reset(new discontinuous_event_locator<int>(&sys, tol));
    else if (kind == "null") loc.reset(new null_event_locator<int>());
    else loc.reset(new fast_event_locator<int>(&sys, tol, kind == "spline"));
    std::unique_ptr<ode_solver<int>> sol;
    if (sk == 0) sol.reset(new Exact(&sys));
    else if (sk == 1) sol.reset(new corrected_euler<int>(&sys, 100.0, hm));
    else sol.reset(new rk_45<int>(&sys, 100.0, hm));
    double qe[NF], qx[NF], h = h0;
    memcpy(qe, q0, sizeof qe);
    sol->advance(qe, h0);
    memcpy(qx, qe, sizeof qe);
    std::string ze = sys.signs(qe);
    bool flags[4] = {false, false, false, false};
    // Flags hold garbage before the search
    for (bool &f : flags) f = r.chance(1, 2);
    std::string head = fmt("{\"e\":\"Find\",\"kind\":\"%s\",\"tol\":%ld,\"sl\":12,\"h0\":%ld,\"q0\":", kind.c_str(), sc(tol), sc(h0)) + js(q0) +
                       ",\"z0\":" + sys.signs(q0) + ",\"ze\":" + ze;
    bool res = loc->find_events(flags, q0, qe, sol.get(), h);
    double qb[NF];
    flow(q0, std::max(0.0, h - tol), qb);
    bool same = h == h0;
    for (int i = 0; i < NF; i++) same = same && qx[i] == qe[i];
    std::string mag = "[", fl = "[";
    for (int i = 0; i < m; i++) {
        mag += fmt(i ? ",%ld" : "%ld", sc(std::fabs(sys.z(qe, i))));
        fl += std::string(i ? "," : "") + tf(flags[i]);
    }
    emit(head + fmt(",\"r\":%s,\"same\":%s,\"h\":%ld,\"q\":", tf(res), tf(same), sc(h)) + js(qe) + ",\"z\":" + sys.signs(qe) +
         ",\"zb\":" + sys.signs(qb) + ",\"mag\":" + mag + "],\"f\":" + fl + "]}\n");
}

static void find(Rng &r, int n) {
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    for (int rep = 0; rep < 12; rep++) {
        static char const* kinds[] = {"bisect", "linear", "disc", "fast", "spline", "fast", "spline", "null"};
        std::string kind = kinds[r.below(8)];
        bool disc = kind == "disc" && r.chance(1, 2);
        double h0 = r.chance(1, 12) ? 0.0 : r.range(1, 24) / 8.0;
        double q0[NF] = {double(r.range(0, 40)) / 8, double(r.range(-16, 16)) / 8, 0, 0, 0, 0, double(r.range(-3, 3))};
        q0[4] = q0[0];
        // The slope keeps its sign in the interval
        q0[2] = r.range(-4, 4);
        q0[3] = r.chance(1, 2) ? 0 : r.range(-4, 4);
        if (q0[2] == 0 || q0[2] * (q0[2] + q0[3] * h0) < 0) q0[3] = (q0[2] < 0 ? -1 : 1) * std::fabs(q0[3]);
        if (q0[2] * q0[3] >= 0 && r.chance(1, 2)) q0[5] = (q0[2] + q0[3] < 0 ? -1 : 1) * r.range(1, 2);
        double q1[NF];
        flow(q0, h0, q1);
        std::vector<FSys::Z> zf;
        int m = kind == "null" ? 0 : r.chance(1, 10) ? 0 : r.range(1, 3);
        for (int i = 0; i < m; i++) {
            FSys::Z z;
            z.var = r.chance(2, 3) ? 1 : 0;
            z.sg = r.chance(1, 2) ? 1 : -1;
            double lo = q0[z.var], hi = q1[z.var];
            if (hi < lo) std::swap(lo, hi);
            int k = r.below(8);
            z.a = k < 4 ? lo + (hi - lo) * r.below(1001) / 1000.0 : k == 4 ? lo : k == 5 ? hi : k == 6 ? lo - r.below(9) / 8.0 : hi + r.below(9) / 8.0;
            if (r.chance(1, 3)) z.a = std::floor(z.a * 8) / 8;
            zf.push_back(z);
        }
        double tol = r.chance(1, 3) ? 1.0 / 16 : r.chance(1, 2) ? 1.0 / 128 : 1.0 / 1024;
        double hm = r.chance(1, 2) ? 100.0 : r.range(1, 8) / 8.0;
        int sk = q0[5] != 0 ? 2 * r.below(2) : r.below(3);
        search(kind, disc, zf, tol, h0, q0, sk, hm, r);
    }
}

// A search that the specification made up: kind, discontinuous, tolerance, interval, and pairs of direction and place
static std::vector<std::string> scripts;
static void run_script(std::string const &text, int n) {
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    std::istringstream in(text);
    std::string kind;
    int disc, tol, h0;
    in >> kind >> disc >> tol >> h0;
    std::vector<FSys::Z> zf;
    FSys::Z z;
    z.var = 1;
    for (int a; in >> z.sg >> a;) {
        z.a = a / 4096.0;
        zf.push_back(z);
    }
    double q0[NF] = {0, 0, 1, 0, 0, 0, 0};
    Rng r(n + 1);
    for (int sk = 0; sk < 3; sk++) search(kind, disc, zf, tol / 4096.0, h0 / 4096.0, q0, sk, sk == 1 ? 0.375 : 100.0, r);
}

// ------------------------------------------------------------------ integrators
struct SSys : Base {
    std::vector<double> b;
    bool chain, jac;
    int extra;  // 0 none, 1 decay, 2 oscillator, 3 nonlinear, 4 steep, 5 defined for positive states only
    SSys(std::vector<double> b, bool chain, int extra, bool jac)
        : Base(1 + int(b.size()) + (extra ? 2 : 0), 0), b(b), chain(chain), jac(jac), extra(extra) {}
    double rate;
    // The unit of time: what the solvers see is this system made slower by this factor
    double unit = 1;
    void der_func(double const* q, double* dq) {
        plain_der(q, dq);
        for (int i = 0; i < numVars(); i++) dq[i] /= unit;
    }
    bool get_jacobian(double const* q, double* J) {
        bool ok = plain_jac(q, J);
        if (ok && J) for (int i = 0; i < numVars() * numVars(); i++) J[i] /= unit;
        return ok;
    }
    void plain_der(double const* q, double* dq) {
        int n = int(b.size());
        dq[0] = 1;
        hook();
        for (int j = 0; j < n; j++) {
            dq[1 + j] = 0;
            if (chain) { if (j + 1 < n) dq[1 + j] = q[2 + j]; }
            else {
                double f = 1, t = 1;
                for (int i = j + 1; i < n; i++) {
                    dq[1 + j] += b[i] * t / f;
                    t *= q[0];
                    f *= i - j;
                }
            }
        }
        if (extra) {
            double x = q[1 + n], y = q[2 + n];
            if (extra == 1) { dq[1 + n] = -rate * x; dq[2 + n] = -y; }
            if (extra == 2) { dq[1 + n] = rate * y; dq[2 + n] = -rate * x; }
            if (extra == 4) { dq[1 + n] = -rate * x * x * x * x * x; dq[2 + n] = -y * y * y; }
            if (extra == 5) { dq[1 + n] = -rate * x * std::log(x); dq[2 + n] = -rate * y * std::sqrt(y); }
            if (extra == 3) { dq[1 + n] = rate * y; dq[2 + n] = rate * ((1 - x * x) * y - x); }
        }
    }
    bool plain_jac(double const* q, double* J) {
        if (!jac) return false;
        if (!J) return true;
        hook();
        int N = numVars(), n = int(b.size());
        for (int i = 0; i < N * N; i++) J[i] = 0;
        for (int j = 0; j < n; j++) {
            if (chain) { if (j + 1 < n) J[(2 + j) * N + 1 + j] = 1; }
            else {
                double d = 0, f = 1, t = 1;
                for (int i = j + 2; i < n; i++) {
                    d += b[i] * t / f;
                    t *= q[0];
                    f *= i - j - 1;
                }
                J[0 * N + 1 + j] = d;
            }
        }
        if (extra) {
            double x = q[1 + n], y = q[2 + n];
            int a = 1 + n, c = 2 + n;
            if (extra == 1) { J[a * N + a] = -rate; J[c * N + c] = -1; }
            if (extra == 2) { J[c * N + a] = rate; J[a * N + c] = -rate; }
            if (extra == 4) { J[a * N + a] = -5 * rate * x * x * x * x; J[c * N + c] = -3 * y * y; }
            if (extra == 5) { J[a * N + a] = -rate * (std::log(x) + 1); J[c * N + c] = -1.5 * rate * std::sqrt(y); }
            if (extra == 3) { J[c * N + a] = rate; J[a * N + c] = rate * (-2 * x * y - 1); J[c * N + c] = rate * (1 - x * x); }
        }
        return true;
    }
};
static std::string hilo(double x, double scale) {
    double v = x * scale;
    if (!(std::fabs(v) < 2e9)) return "[2000000000,0]";
    double hi = std::floor(v + 0.5);
    return fmt("[%ld,%ld]", long(hi), lround((v - hi) * 1e6));
}
static long tu(double x) { return x > 30000 ? 2000000000L : lround(x * 65536.0); }

static void solve(Rng &r, int n, bool control) {
    int kind = r.below(3), order = kind == 1 ? 4 : 2;
    std::vector<double> b;
    int deg = r.chance(3, 4) ? order : r.range(0, order);
    for (int i = 0; i <= deg; i++) b.push_back(r.range(-3, 3));
    SSys sys(b, r.chance(1, 2), control ? r.range(1, 5) : 0, r.chance(1, 2));
    sys.rate = r.range(1, control && r.chance(1, 4) ? 80 : 12) / 2.0;
    double hm = r.range(1, 16) / 8.0, tol = control ? std::ldexp(1.0, -r.range(4, 16)) : r.chance(1, 3) ? std::ldexp(1.0, -r.range(0, 8)) : 1e9;
    // Other units of time, and hardly a limit on the step
    double const unit = sys.unit = r.chance(2, 3) ? 1.0 : std::ldexp(1.0, r.range(-40, 20));
    if (r.chance(1, 4)) hm = std::ldexp(1.0, r.range(1, 40));
    std::unique_ptr<ode_solver<int>> s;
    if (kind == 0) s.reset(new corrected_euler<int>(&sys, tol, hm * unit));
    else if (kind == 1) s.reset(new rk_45<int>(&sys, tol, hm * unit));
    else s.reset(new trap<int>(&sys, tol, hm * unit, true));
    std::vector<double> q(sys.numVars(), 0.0);
    for (size_t i = 0; i < b.size(); i++) q[1 + i] = b[i];
    if (control) { q[1 + b.size()] = r.range(1, 5); q[2 + b.size()] = sys.extra == 5 ? r.range(1, 5) : r.range(-2, 2); }
    std::string bs = "[";
    for (size_t i = 0; i < b.size(); i++) bs += fmt(i ? ",%ld" : "%ld", lround(b[i]));
    emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"kind\":%d,\"hmax\":%ld,\"sl\":{\"t\":%d,\"v\":%d,\"r\":1000,\"g\":%d},\"b\":", n, kind, tu(hm), kind == 2 ? 3 : 1,
             kind == 2 ? 60 : 0, kind == 2 ? 100000 : 10) + bs + "]}\n");
    auto call = [&](bool adv, double lim, bool want) {
        double c0 = q[0], h = lim;
        if (adv) s->advance(q.data(), lim * unit);
        else h = s->integrate(q.data(), lim < 1000 ? lim * unit : lim) / unit;
        bool fin = true;
        for (double v : q) fin = fin && std::isfinite(v);
        std::string ys = "[";
        for (size_t i = 0; i < b.size(); i++) ys += (i ? "," : "") + hilo(q[1 + i], 98304.0);
        emit(fmt("{\"e\":\"Call\",\"k\":\"%s\",\"lim\":%ld,\"h\":%ld,\"pos\":%s,\"want\":%s,\"fin\":%s,\"c0\":", adv ? "adv" : "int", tu(lim), tu(h), tf(h > 0),
                 tf(want && kind != 2), tf(fin)) + hilo(c0, 65536.0) + ",\"c1\":" + hilo(q[0], 65536.0) + ",\"y\":" + ys + "]}\n");
        return h;
    };
    for (int i = 0; i < 12 && q[0] < 3.0; i++) {
        if (r.chance(1, 15)) { call(r.chance(1, 2), 0.0, false); continue; }
        if (r.chance(1, 2)) {
            double lim = hm < 4 && r.chance(1, 8) ? DBL_MAX : r.chance(1, 2) ? r.range(1, 8) / 8.0 : r.range(1, 1000) / 1000.0;
            call(false, lim, false);
        } else {
            // To a point of the grid
            double to = std::floor(q[0] * 8 + 1e-6) / 8 + r.range(1, 6) / 8.0;
            call(true, to - q[0], true);
        }
    }
    double to = std::ceil(q[0] * 8 + 1e-6) / 8;
    call(true, to - q[0], true);
}

// ------------------------------------------------------------------ the error of single steps
// Driven: x[j]' = b[j] * clock^m.  Otherwise one of the systems of SSys.
struct ESys : SSys {
    int m;
    ESys(std::vector<double> b, int m, int extra, bool jac) : SSys(b, false, extra, jac), m(m) {}
    void der_func(double const* q, double* dq) {
        if (extra) return SSys::der_func(q, dq);
        dq[0] = 1;
        for (size_t j = 0; j < b.size(); j++) dq[1 + j] = b[j] * std::pow(q[0], m);
    }
};
static long lg(double x) { return x > 0 ? lround(std::log2(x) * 1000) : -1000000; }
static void error(Rng &r, int n) {
    // 3: the implicit integrator, too, with a driven system
    int kind = r.below(4), m = kind == 1 ? 4 : 1, k = kind == 2 ? 0 : r.range(1, 4);
    std::vector<double> b;
    double worst = 0;
    // One of the variables makes the largest error
    int top = r.below(k + 1);
    for (int i = 0; i < k; i++) {
        b.push_back((r.chance(1, 2) ? -1 : 1) * (i == top ? r.range(20, 400) : r.range(1, 16)) / 4.0);
        worst = std::max(worst, std::fabs(b.back()));
    }
    ESys sys(b, m, kind == 2 ? r.range(1, 5) : 0, r.chance(1, 2));
    sys.rate = r.range(1, 80) / 2.0;
    double hm = r.range(1, 16) / 8.0, tol = std::ldexp(1.0, -r.range(4, 16));
    std::unique_ptr<ode_solver<int>> s;
    if (kind == 0) s.reset(new corrected_euler<int>(&sys, tol, hm));
    else if (kind == 1) s.reset(new rk_45<int>(&sys, tol, hm));
    else s.reset(new trap<int>(&sys, tol, hm, true));
    int N = sys.numVars();
    std::vector<double> q(N, 0.0), p(N), f0(N), f1(N);
    if (kind == 2) { q[1] = r.range(1, 5); q[2] = sys.extra == 5 ? r.range(1, 5) : r.range(-2, 2); }
    emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"kind\":%d,\"hmax\":%ld,\"tol\":%ld,\"big\":%ld,\"sl\":{},\"b\":[]}\n", n, kind, tu(hm), lg(tol), lg(worst)));
    for (int i = 0; i < 12 && q[0] < 3.0; i++) {
        double lim = r.chance(1, 3) ? DBL_MAX : r.range(1, 1000) / 500.0;
        if (r.chance(1, 6)) {
            s->advance(q.data(), r.range(1, 100) / 100.0);
            emit("{\"e\":\"Adv\"}\n");
            continue;
        }
        p = q;
        double h = s->integrate(q.data(), lim), res = 0;
        if (kind >= 2) {
            sys.der_func(p.data(), f0.data());
            sys.der_func(q.data(), f1.data());
            for (int j = 0; j < N; j++) {
                double d = std::fabs(q[j] - p[j] - h / 2 * (f0[j] + f1[j]));
                res = d >= res ? d : d == d ? res : 1000;
            }
        }
        emit(fmt("{\"e\":\"Err\",\"h\":%ld,\"res\":%ld}\n", lg(h), res < 1000 ? lround(res * 1e6) : 1000000000L));
    }
}

// ------------------------------------------------------------------ interpolation
static void interpolate(Rng &r, int n) {
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    int N = r.chance(1, 5) ? r.range(5, 20) : r.range(1, 4);
    std::unique_ptr<spline> p(new spline(N));
    for (int rep = 0; rep < 4; rep++) {
        int k = r.range(1, 40);
        double h = k / 8.0, q0[20], d0[20], qh[20], dh[20], q[20];
        int co[20][4];
        std::string cs = "[";
        for (int i = 0; i < N; i++) {
            for (int &c : co[i]) c = r.chance(1, 4) ? 0 : r.range(-9, 9);
            int* c = co[i];
            q0[i] = c[0];
            d0[i] = c[1];
            qh[i] = c[0] + h * (c[1] + h * (c[2] + h * c[3]));
            dh[i] = c[1] + h * (2 * c[2] + h * 3 * c[3]);
            cs += fmt("%s[%d,%d,%d,%d]", i ? "," : "", c[0], c[1], c[2], c[3]);
        }
        p->init(q0, d0, qh, dh, h);
        for (int m = r.range(1, 6); m > 0; m--) {
            int j = r.chance(1, 6) ? 0 : r.chance(1, 5) ? k : r.range(0, k);
            for (double &x : q) x = 1e5;
            p->interpolate(q, j / 8.0);
            std::string v = "[";
            for (int i = 0; i < N; i++) v += (i ? "," : "") + hilo(q[i], 512.0);
            emit(fmt("{\"e\":\"Point\",\"k\":%d,\"j\":%d,\"c\":", k, j) + cs + "],\"v\":" + v + "]}\n");
        }
    }
}

int main(int argc, char** argv) {
    if (argc != 6) return 2;
    std::string prof = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    if (prof == "script") {
        std::ifstream f(getenv("VERIF_SCRIPT"));
        for (std::string l; std::getline(f, l);) scripts.push_back(l);
        if (int(scripts.size()) < atoi(argv[4])) return 2;
    }
    return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) {
        if (prof == "script") return run_script(scripts[n], n);
        if (prof == "worlds" || prof == "fworlds") return worlds_scenario(seed, n, [&](int, uint64_t key) {
            Rng r(key);
            if (prof == "fworlds") find(r, n);
            else solve(r, n, r.chance(1, 2));
        });
        Rng r(mix(seed, mix(prof.size() * 31 + prof[0], n)));
        if (prof == "find") find(r, n);
        else if (prof == "err") error(r, n);
        else if (prof == "spline") interpolate(r, n);
        else solve(r, n, prof == "control");
    });
}
