// Hybrid models: the calls of an atomic model that a simulator makes, and the calls that
// the hybrid model makes of its system, solver and event finder.
//   hybrid_harness mock|real|sim|worlds SEED FIRST LAST OUTFILE
//     sim: the calls are made by a simulator with injected input, also of the
//     classes that choose solver and event finder
//     worlds: several simulations at the same time
//     net: several models, coupled with each other and with discrete models
//   VERIF_SCRIPT=FILE hybrid_harness script SEED FIRST LAST OUTFILE
// A script (see spec/HybridMC.tla) consists of
//   late L; max M; init CHOICE;        lateness of the finder, longest step of the solver, first choice
//   own CHOICE; conf X CHOICE;         the own event, without or with input X, and what the system then chooses
//   ext DT X CHOICE;                   input after DT
// where a choice is: rate, threshold ahead of x, time to the time event, time to the clock threshold; in 1/16,
// -99 stands for never.
#include <cfloat>
#include <fstream>
#include <sstream>
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
double adevs::double_fcmp::epsilon = 0.0;
using namespace adevs;
typedef std::list<PinValue<int>> Bag;

// The variables as recorded, and where the state vector has them: what moves comes first and last
static const int C = 6, X = 0, V = 2, A = 3, TEV = 4, Y = 5, B = 1, NV = 7;
static const int order[NV] = {C, X, V, A, TEV, Y, B};
static const double NEVER = 400000000 / 4096.0;
static int sgn(double x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
static long sc(double x) { return std::fabs(x) > 400000 ? (x > 0 ? 1600000000L : -1600000000L) : lround(x * 4096.0); }
static std::string js(double const* q) {
    std::string s = "[";
    for (int i : order) s += fmt(s.size() > 1 ? ",%ld" : "%ld", i == V ? lround(q[i]) : i == TEV && q[i] >= NEVER ? 400000000L : sc(q[i]));
    return s + "]";
}
static std::string js(Bag const &x) {
    std::string s = "[";
    for (auto const &v : x) s += fmt(s.size() > 1 ? ",%d" : "%d", v.value);
    return s + "]";
}

struct Sys : ode_system<int> {
    uint64_t key;
    bool jumps;
    pin_t pin;
    double q0[NV];
    Sys(int nz, uint64_t key) : ode_system<int>(NV, nz), key(key) {}
    ~Sys() { emit("{\"e\":\"Del\",\"k\":\"sys\"}\n"); }
    void init(double* q) { memcpy(q, q0, sizeof q0); }
    void der_func(double const* q, double* dq) {
        for (int i = 0; i < NV; i++) dq[i] = 0;
        dq[C] = 1;
        dq[X] = q[V];
        hook();
    }
    double z(double const* q, int i) const { return i == 0 ? q[X] - q[A] : q[C] - q[B]; }
    void state_event_func(double const* q, double* zz) {
        for (int i = 0; i < numEvents(); i++) zz[i] = z(q, i);
        hook();
    }
    double time_event_func(double const* q) { return q[TEV] >= NEVER ? DBL_MAX : std::max(0.0, q[TEV] - q[C]); }
    std::string zs(double const* q) const {
        std::string s = "[";
        for (int i = 0; i < numEvents(); i++) s += fmt(i ? ",%d" : "%d", sgn(z(q, i)));
        return s + "]";
    }
    std::string fs(bool const* f) const {
        std::string s = "[";
        for (int i = 0; i <= numEvents(); i++) s += std::string(i ? "," : "") + (f[i] ? "true" : "false");
        return s + "]";
    }
    static double grid(double x) { return std::floor(x * 8.0 + 0.5) / 8.0; }
    // What the script chooses next
    int const* script = nullptr;
    // Choose the discrete part of the state
    void choose(double* q, uint64_t h) {
        hook();
        if (script) {
            q[V] = script[0];
            q[A] = q[X] + script[1] / 16.0;
            q[TEV] = script[2] == -99 ? NEVER : q[C] + script[2] / 16.0;
            q[B] = script[3] == -99 ? -1000 : q[C] + script[3] / 16.0;
            q[Y] = q[X] + q[C];
            return;
        }
        Rng r(mix(key, h));
        static const double vs[] = {-4, -2, -1, 0, 1, 2, 4, 1};
        if (r.chance(2, 3)) q[V] = vs[r.below(8)];
        if (jumps && r.chance(1, 5)) q[X] = grid(q[X]) + r.range(-8, 8) / 8.0;
        else q[X] = grid(q[X]);
        if (r.chance(2, 3)) q[A] = q[X] + (r.chance(1, 8) ? 0 : (q[V] < 0 ? -1 : 1) * r.range(1, 12) / 8.0);
        else if (r.chance(1, 3)) q[A] = q[X] - (q[V] < 0 ? -1 : 1) * r.range(1, 12) / 8.0;
        double up = std::ceil(q[C] * 8.0) / 8.0;
        if (r.chance(1, 10)) q[TEV] = q[C];
        else if (r.chance(2, 3) || q[TEV] <= q[C]) q[TEV] = r.chance(1, 5) ? NEVER : up + r.range(1, 20) / 8.0;
        if (r.chance(1, 2) || q[B] <= q[C]) q[B] = r.chance(1, 3) ? -1000 : up + r.range(1, 16) / 8.0;
        q[Y] = q[X] + q[C];
    }
    uint64_t hash(double const* q) const {
        uint64_t h = 7;
        for (int i = 0; i < NV; i++) h = mix(h, uint64_t(llround(q[i] * 1048576.0)));
        return h;
    }
    uint64_t hash(double const* q, bool const* f) const {
        uint64_t h = hash(q);
        for (int i = 0; i <= numEvents(); i++) h = mix(h, f[i]);
        return h;
    }
    static uint64_t hash(uint64_t h, Bag const &x) {
        uint64_t s = 0;
        for (auto const &v : x) s += mix(3, v.value);
        return mix(h, s);
    }
    void postStep(double* q) {
        std::string b = js(q);
        q[Y] = q[X] + q[C];
        emit("{\"e\":\"sPost\",\"q\":" + b + ",\"r\":" + js(q) + ",\"z\":" + zs(q) + "}\n");
    }
    void internal_event(double* q, bool const* f) {
        std::string b = js(q), z = zs(q);
        choose(q, mix(1, hash(q, f)));
        emit("{\"e\":\"sInt\",\"q\":" + b + ",\"f\":" + fs(f) + ",\"r\":" + js(q) + ",\"z\":" + z + "}\n");
    }
    void external_event(double* q, double e, Bag const &xb) {
        std::string b = js(q), z = zs(q);
        choose(q, mix(2, hash(hash(q), xb)));
        emit("{\"e\":\"sExt\",\"q\":" + b + fmt(",\"el\":%ld", sc(e)) + ",\"x\":" + js(xb) + ",\"r\":" + js(q) + ",\"z\":" + z + "}\n");
    }
    void confluent_event(double* q, bool const* f, Bag const &xb) {
        std::string b = js(q), z = zs(q);
        choose(q, mix(3, hash(hash(q, f), xb)));
        emit("{\"e\":\"sConf\",\"q\":" + b + ",\"f\":" + fs(f) + ",\"x\":" + js(xb) + ",\"r\":" + js(q) + ",\"z\":" + z + "}\n");
    }
    void output_func(double const* q, bool const* f, Bag &yb) {
        Bag y;
        int n = 1 + int(mix(key, hash(q, f)) % 2);
        for (int i = 0; i < n; i++) y.push_back(PinValue<int>(pin, int(mix(hash(q, f), i) % 10000)));
        hook();
        yb.insert(yb.end(), y.begin(), y.end());
        emit("{\"e\":\"sOut\",\"q\":" + js(q) + ",\"f\":" + fs(f) + ",\"y\":" + js(y) + "}\n");
    }
};

// Solver that is exact for this system
struct MockSolver : ode_solver<int> {
    Sys* s;
    double max = 0;
    MockSolver(Sys* s) : ode_solver<int>(s), s(s) {}
    ~MockSolver() { emit("{\"e\":\"Del\",\"k\":\"solver\"}\n"); }
    static void flow(double* q, double h) { q[C] += h; q[X] += q[V] * h; }
    double integrate(double* q, double lim) {
        Rng r(mix(s->key, uint64_t(llround(q[C] * 1048576.0))));
        double m = r.chance(1, 3) ? 0.25 : r.chance(1, 2) ? 1.0 : 5.0;
        double h = std::min(max > 0 ? max : m, lim);
        flow(q, h);
        return h;
    }
    void advance(double* q, double h) { flow(q, h); }
};
// Event finder that reports the first change exactly or late by a fixed time, and may
// shorten the interval instead
struct MockFinder : event_locator<int> {
    Sys* s;
    double late;
    bool shorten;
    MockFinder(Sys* s, double late, bool shorten) : event_locator<int>(s), s(s), late(late), shorten(shorten) {}
    ~MockFinder() { emit("{\"e\":\"Del\",\"k\":\"finder\"}\n"); }
    bool find_events(bool* events, double const* q0, double* q1, ode_solver<int>*, double &h) {
        int n = s->numEvents();
        double first = DBL_MAX;
        for (int i = 0; i < n; i++) {
            events[i] = false;
            double z0 = s->z(q0, i), rate = i == 0 ? q0[V] : 1.0;
            if (z0 == 0 || rate == 0 || (z0 < 0) == (rate < 0)) continue;
            first = std::min(first, -z0 / rate);
        }
        if (first > h) return false;
        double at = std::min(h, first + late);
        if (shorten && first > 0.25 && h > first + late) {
            Rng r(mix(s->key + 1, uint64_t(llround(q0[C] * 1048576.0))));
            if (r.chance(1, 2)) {
                h = 0.125;
                memcpy(q1, q0, sizeof(double) * NV);
                MockSolver::flow(q1, h);
                return false;
            }
        }
        h = at;
        memcpy(q1, q0, sizeof(double) * NV);
        MockSolver::flow(q1, h);
        for (int i = 0; i < n; i++) {
            int a = sgn(s->z(q0, i)), b = sgn(s->z(q1, i));
            events[i] = a != 0 && a != b;
        }
        return true;
    }
};
template <class T> struct Solver : T {
    template <class... P> Solver(P... p) : T(p...) {}
    ~Solver() { emit("{\"e\":\"Del\",\"k\":\"solver\"}\n"); }
};
template <class T> struct Finder : T {
    template <class... P> Finder(P... p) : T(p...) {}
    ~Finder() { emit("{\"e\":\"Del\",\"k\":\"finder\"}\n"); }
};

// The events of model u of several in one simulation
struct At {
    int was = world;
    At(int u) { if (u) world = u; }
    ~At() { world = was; }
};
// A hybrid model that records the calls of the simulator
template <class H> struct Watch : H {
    Sys* sys;
    int depth = 0, id = 0;
    template <class... P> Watch(Sys* sys, P... p) : H(sys, p...), sys(sys) { emit("{\"e\":\"Made\",\"q\":" + js(H::getState()) + "}\n"); }
    void end(char const* k) {
        emit(fmt("{\"e\":\"%s\",\"hap\":%s,\"q\":", k, H::eventHappened() ? "true" : "false") + js(H::getState()) + ",\"z\":" + sys->zs(H::getState()) + "}\n");
        depth--;
    }
    double ta() {
        At at(id);
        double t = H::ta();
        if (!depth) emit(fmt("{\"e\":\"Ta\",\"t\":%ld}\n", sc(t)));
        return t;
    }
    void output_func(Bag &yb) {
        At at(id);
        if (depth) {
            H::output_func(yb);
            return;
        }
        depth++;
        emit("{\"e\":\"OutB\"}\n");
        H::output_func(yb);
        emit("{\"e\":\"OutE\",\"y\":" + js(yb) + "}\n");
        depth--;
    }
    void delta_int() {
        At at(id);
        depth++;
        emit("{\"e\":\"IntB\"}\n");
        H::delta_int();
        end("IntE");
    }
    void delta_ext(double e, Bag const &x) {
        At at(id);
        depth++;
        emit(fmt("{\"e\":\"ExtB\",\"dt\":%ld,\"x\":", sc(e)) + js(x) + "}\n");
        H::delta_ext(e, x);
        end("ExtE");
    }
    void delta_conf(Bag const &x) {
        At at(id);
        depth++;
        emit("{\"e\":\"ConfB\",\"x\":" + js(x) + "}\n");
        H::delta_conf(x);
        end("ConfE");
    }
};

static void simulate(Rng &r, std::shared_ptr<Hybrid<int>> h, bool exact) {
    auto g = std::make_shared<Graph<int>>();
    pin_t in;
    g->add_atomic(h);
    g->connect(in, h);
    // At times the model is taken out of the simulation and put back, or simulated by another simulator
    bool moves = r.chance(1, 3), back = false;
    {
        std::unique_ptr<Simulator<int>> s(new Simulator<int>(g));
        double last = 0;
        for (int i = 0; i < 40; i++) {
            if (back) {
                back = false;
                double t = last + r.range(0, 32) / 16.0;
                g->add_atomic(h);
                g->connect(in, h);
                s->setNextTime(t);
                s->execNextEvent();
                last = t;
                emit(fmt("{\"e\":\"Join\",\"t\":%ld}\n", sc(t)));
            } else if (moves && r.chance(1, 10)) {
                s.reset();
                s.reset(new Simulator<int>(g));
                last = 0;
                emit("{\"e\":\"Join\",\"t\":0}\n");
            }
            Simulator<int> &sim = *s;
            double next = sim.nextEventTime();
            if (!(next - last >= 0) || next - last > 200) break;
            if (moves && r.chance(1, 8)) {
                g->remove_atomic(h);
                back = true;
            }
            if (sc(next - last) > 0 && r.chance(2, 5)) {
                double e = r.chance(1, 8) ? 0 : r.chance(1, 2) ? next - last - r.range(1, 4) / 32.0 : std::floor((next - last) * 32 * r.below(1000) / 1000.0) / 32.0;
                if (e < 0) e = (next - last) / 2;
                if (exact) e = std::floor(e * 1024.0) / 1024.0;
                if (last + e < next) {
                    next = last + e;
                    sim.setNextTime(next);
                    PinValue<int> x(in, r.below(100));
                    sim.injectInput(x);
                }
            }
            if (r.chance(1, 3)) {
                PinValue<int> x(in, r.below(100));
                sim.injectInput(x);
            }
            emit(fmt("{\"e\":\"Step\",\"t\":%ld}\n", sc(next)));
            sim.execNextEvent();
            last = next;
        }
    }
    g.reset();
    emit("{\"e\":\"DelB\"}\n");
    h.reset();
    emit("{\"e\":\"DelE\"}\n");
}

// Sends the sum of what it was given after a delay
struct Relay : Atomic<int> {
    int id;
    double d, last = 0, due;
    Bag st;
    pin_t out;
    Relay(int id, double d, pin_t out) : id(id), d(d), due(adevs_inf<double>()), out(out) {
        At at(id);
        emit(fmt("{\"e\":\"Reset\",\"kind\":\"relay\",\"d\":%ld}\n", sc(d)));
    }
    double ta() { return due < adevs_inf<double>() ? due - last : due; }
    void output_func(Bag &y) {
        At at(id);
        int sum = 0;
        for (auto &v : st) sum = (sum + v.value) % 1000;
        y.push_back(PinValue<int>(out, sum));
        emit("{\"e\":\"rOut\",\"y\":" + js(y) + "}\n");
    }
    void delta_int() {
        At at(id);
        emit("{\"e\":\"rInt\"}\n");
        last = due;
        due = adevs_inf<double>();
        st.clear();
    }
    void delta_ext(double e, Bag const &x) {
        At at(id);
        emit(fmt("{\"e\":\"rExt\",\"dt\":%ld,\"x\":", sc(e)) + js(x) + "}\n");
        last += e;
        st.insert(st.end(), x.begin(), x.end());
        if (!(due < adevs_inf<double>())) due = last + d;
    }
    void delta_conf(Bag const &x) {
        At at(id);
        emit("{\"e\":\"rConf\",\"x\":" + js(x) + "}\n");
        last = due;
        st = x;
        due = last + d;
    }
};
// Passes what it is given at once, but not what has passed filters before
struct Filter : MealyAtomic<int> {
    int id;
    pin_t out;
    Filter(int id, pin_t out) : id(id), out(out) {
        At at(id);
        emit("{\"e\":\"Reset\",\"kind\":\"filter\",\"d\":0}\n");
    }
    double ta() { return adevs_inf<double>(); }
    void external_output_func(double, Bag const &x, Bag &y) {
        for (auto &v : x) if (v.value < 20000) y.push_back(PinValue<int>(out, v.value + 10000));
    }
    void confluent_output_func(Bag const &x, Bag &y) { external_output_func(0, x, y); }
    void output_func(Bag &) {}
    void delta_int() {
        At at(id);
        emit("{\"e\":\"rInt\"}\n");
    }
    void delta_ext(double e, Bag const &x) {
        At at(id);
        emit(fmt("{\"e\":\"rExt\",\"dt\":%ld,\"x\":", sc(e)) + js(x) + "}\n");
    }
    void delta_conf(Bag const &x) {
        At at(id);
        emit("{\"e\":\"rConf\",\"x\":" + js(x) + "}\n");
    }
};

struct Built {
    Sys* sys;
    ode_solver<int>* solver;
    event_locator<int>* finder;
    double tol, hmax;
};
static Built build(Rng &r, int n, bool mock, pin_t const* out, int ready = 0, int sl = 0);
static void net_scenario(uint64_t seed, int n) {
    Rng r(mix(mix(seed, 4711), n));
    int nh = r.range(1, 3), nr = r.range(0, 2), nf = r.range(0, 2), N = nh + nr + nf;
    bool exact = r.chance(4, 5);
    std::vector<pin_t> in(N + 1), out(N + 1);
    // Kinds in a random order, but a filter sends only to filters that come later
    std::vector<int> kind(1, 0), k;
    for (int i = 0; i < N; i++) k.push_back(i < nh ? 0 : i < nh + nr ? 1 : 2);
    r.shuffle(k);
    kind.insert(kind.end(), k.begin(), k.end());
    std::vector<std::vector<int>> to(N + 1);
    // Kind of coupling: 1 through the input pin, 2 directly, 3 both
    std::vector<std::vector<int>> how(N + 1, std::vector<int>(N + 1, 0));
    std::string tos;
    for (int u = 1; u <= N; u++) {
        std::string one;
        for (int v = 1; v <= N; v++) if (r.chance(2, 5)) {
            if (kind[u] == 2 && kind[v] == 2 && v <= u) continue;
            how[u][v] = r.chance(1, 6) ? 3 : r.range(1, 2);
            for (int i = 0; i < (how[u][v] == 3 ? 2 : 1); i++) one += fmt(one.empty() ? "%d" : ",%d", v);
        }
        tos += (u > 1 ? ",[" : "[") + one + "]";
    }
    emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"to\":[", n) + tos + "]}\n");
    std::vector<std::shared_ptr<Atomic<int>>> ms(N + 1);
    std::vector<int> order;
    for (int u = 1; u <= N; u++) order.push_back(u);
    r.shuffle(order);
    for (int u : order) {
        if (kind[u] == 1) ms[u] = std::make_shared<Relay>(u, r.chance(1, 4) ? 0 : r.range(1, 32) / 32.0, out[u]);
        else if (kind[u] == 2) ms[u] = std::make_shared<Filter>(u, out[u]);
        else {
            At at(u);
            Built b = build(r, n, exact || r.chance(1, 2), &out[u], 0, exact ? 0 : 12);
            auto h = std::make_shared<Watch<Hybrid<int>>>(b.sys, b.solver, b.finder);
            h->id = u;
            emit("{\"e\":\"Join\",\"t\":0}\n");
            ms[u] = h;
        }
    }
    r.shuffle(order);
    auto g = std::make_shared<Graph<int>>();
    for (int u : order) {
        g->add_atomic(ms[u]);
        g->connect(in[u], ms[u]);
    }
    for (int u : order) for (int v : order) {
        if (how[u][v] & 1) g->connect(out[u], in[v]);
        if (how[u][v] & 2) g->connect(out[u], ms[v]);
    }
    {
        Simulator<int> sim(g);
        double last = 0;
        for (int i = 0; i < 40; i++) {
            double next = sim.nextEventTime();
            if (!(next - last >= 0)) break;
            double set = -1;
            std::string x;
            auto inject = [&]() {
                int u = r.range(1, N), v = r.below(100);
                PinValue<int> pv(in[u], v);
                sim.injectInput(pv);
                x += fmt(x.empty() ? "[%d,%d]" : ",[%d,%d]", u, v);
            };
            if (next - last > 200) {
                set = last + r.range(1, 32) / 32.0;
            } else if (sc(next - last) > 0 && r.chance(1, 4)) {
                double e = r.chance(1, 8) ? 0 : r.chance(1, 2) ? next - last - r.range(1, 4) / 32.0 : std::floor((next - last) * 32 * r.below(1000) / 1000.0) / 32.0;
                if (e < 0) e = (next - last) / 2;
                e = std::floor(e * 1024.0) / 1024.0;
                if (last + e < next) set = last + e;
            }
            if (set >= 0) {
                sim.setNextTime(set);
                inject();
            }
            if (r.chance(1, 4)) inject();
            next = sim.nextEventTime();
            emit(fmt("{\"e\":\"NetStep\",\"t\":%ld,\"set\":%ld,\"x\":[", sc(next), set < 0 ? -1L : sc(set)) + x + "]}\n");
            double t = sim.execNextEvent();
            emit(fmt("{\"e\":\"NetEnd\",\"t\":%ld}\n", sc(t)));
            last = next;
        }
    }
    g.reset();
    for (int u : order) {
        At at(u);
        if (kind[u] == 0) emit("{\"e\":\"DelB\"}\n");
        ms[u].reset();
        if (kind[u] == 0) emit("{\"e\":\"DelE\"}\n");
    }
}

// A system and, unless the model is of a class that makes them (ready), its solver and finder
static Built build(Rng &r, int n, bool mock, pin_t const* out, int ready, int sl) {
    int nz = r.chance(1, 6) ? 0 : r.range(1, 2);
    Sys* sys = new Sys(nz, r.next());
    if (out) sys->pin = *out;
    sys->jumps = r.chance(1, 2);
    for (double &x : sys->q0) x = 0;
    sys->q0[X] = r.range(-4, 4) / 8.0;
    sys->q0[TEV] = NEVER;
    sys->q0[B] = -1000;
    sys->choose(sys->q0, 11);
    ode_solver<int>* solver = nullptr;
    event_locator<int>* finder = nullptr;
    std::string kind = "mock";
    double tol = 0, hmax = 0;
    if (ready) {
        sl = 12;
        tol = r.chance(1, 2) ? 1.0 / 16 : 1.0 / 64;
        hmax = r.range(1, 8) / 4.0;
        kind = "disc";
    } else if (mock) {
        tol = r.chance(1, 3) ? 0.0 : r.range(1, 6) / 32.0;
        solver = new MockSolver(sys);
        finder = new MockFinder(sys, tol, r.chance(1, 3));
    } else {
        sl = 12;
        double hm = r.range(1, 8) / 4.0;
        if (r.chance(1, 3)) solver = new MockSolver(sys);
        else hmax = hm;
        if (solver) ;
        else if (r.chance(1, 2)) solver = new Solver<corrected_euler<int>>(sys, 1e-6, hm);
        else solver = new Solver<rk_45<int>>(sys, 1e-6, hm);
        int k = r.below(5);
        tol = r.chance(1, 2) ? 1.0 / 16 : 1.0 / 64;
        if (k == 0) { finder = new Finder<bisection_event_locator<int>>(sys, tol); kind = "bisect"; }
        else if (k == 1) { finder = new Finder<linear_event_locator<int>>(sys, tol); kind = "linear"; }
        else if (k == 2) { finder = new Finder<discontinuous_event_locator<int>>(sys, tol); kind = "disc"; }
        else { finder = new Finder<fast_event_locator<int>>(sys, tol, k == 3); kind = "fast"; }
    }
    emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"nz\":%d,\"tol\":%ld,\"sl\":%d,\"max\":%ld,\"kind\":\"%s\",\"adopt\":%s,\"q\":", n, nz, sc(tol), sl, hmax > 0 ? sc(hmax) : 400000000L, kind.c_str(), ready ? "[\"sys\"]" : "[\"sys\",\"solver\",\"finder\"]") +
         js(sys->q0) + ",\"z\":" + sys->zs(sys->q0) + "}\n");
    return {sys, solver, finder, tol, hmax};
}

static void scenario(std::string const &prof, uint64_t seed, int n) {
    Rng r(mix(seed, mix(prof.size() * 31 + prof[0], n)));
    bool sim = prof == "sim";
    // 1 ExplicitHybrid, 2 ImplicitHybrid
    int ready = sim && r.chance(1, 3) ? r.range(1, 2) : 0;
    bool mock = prof == "mock" || (sim && !ready && r.chance(1, 2));
    Built built = build(r, n, mock, nullptr, ready);
    Sys* sys = built.sys;
    ode_solver<int>* solver = built.solver;
    event_locator<int>* finder = built.finder;
    double tol = built.tol, hmax = built.hmax;
    if (sim) {
        std::shared_ptr<Hybrid<int>> h;
        if (ready == 1) h.reset(new Watch<ExplicitHybrid<int>>(sys, tol, hmax));
        else if (ready == 2) h.reset(new Watch<ImplicitHybrid<int>>(sys, tol, hmax));
        else h.reset(new Watch<Hybrid<int>>(sys, solver, finder));
        simulate(r, std::move(h), mock);
        return;
    }
    Hybrid<int>* h = new Hybrid<int>(sys, solver, finder);
    emit("{\"e\":\"Made\",\"q\":" + js(h->getState()) + "}\n");
    auto end = [&](char const* k) {
        emit(fmt("{\"e\":\"%s\",\"hap\":%s,\"q\":", k, h->eventHappened() ? "true" : "false") + js(h->getState()) + ",\"z\":" + sys->zs(h->getState()) + "}\n");
    };
    auto inputs = [&]() {
        Bag x;
        int k = r.range(1, 2);
        for (int i = 0; i < k; i++) x.push_back(PinValue<int>(sys->pin, r.below(100)));
        return x;
    };
    int steps = 40;
    for (int i = 0; i < steps; i++) {
        double ta = h->ta();
        emit(fmt("{\"e\":\"Ta\",\"t\":%ld}\n", sc(ta)));
        if (!(ta >= 0)) break;
        if (sc(ta) > 0 && r.chance(2, 5)) {
            // Input before the end of the step, often shortly before it
            double e = 0;
            if (r.chance(1, 8)) e = 0;
            else if (r.chance(1, 2)) e = ta - r.range(1, 4) / 32.0;
            else e = std::floor(ta * 32 * r.below(1000) / 1000.0) / 32.0;
            if (e < 0) e = ta / 2;
            if (mock) e = std::floor(e * 1024.0) / 1024.0;
            Bag x = inputs();
            emit(fmt("{\"e\":\"ExtB\",\"dt\":%ld,\"x\":", sc(e)) + js(x) + "}\n");
            h->delta_ext(e, x);
            end("ExtE");
            continue;
        }
        Bag y;
        emit("{\"e\":\"OutB\"}\n");
        h->output_func(y);
        emit("{\"e\":\"OutE\",\"y\":" + js(y) + "}\n");
        if (r.chance(1, 3)) {
            Bag x = inputs();
            emit("{\"e\":\"ConfB\",\"x\":" + js(x) + "}\n");
            h->delta_conf(x);
            end("ConfE");
        } else {
            emit("{\"e\":\"IntB\"}\n");
            h->delta_int();
            end("IntE");
        }
    }
    emit("{\"e\":\"DelB\"}\n");
    delete h;
    emit("{\"e\":\"DelE\"}\n");
}

static std::vector<std::string> scripts;
static void run_script(std::string const &text, int n) {
    std::istringstream in(text);
    std::string line;
    Sys* sys = nullptr;
    Hybrid<int>* h = nullptr;
    double late = 0, max = 1;
    int c[4];
    auto end = [&](char const* k) {
        emit(fmt("{\"e\":\"%s\",\"hap\":%s,\"q\":", k, h->eventHappened() ? "true" : "false") + js(h->getState()) + ",\"z\":" + sys->zs(h->getState()) + "}\n");
    };
    while (std::getline(in, line, ';')) {
        std::istringstream w(line);
        std::string k;
        int x = 0, dt = 0;
        if (!(w >> k)) continue;
        if (k == "late") { w >> dt; late = dt / 16.0; continue; }
        if (k == "max") { w >> dt; max = dt / 16.0; continue; }
        if (k == "ext") w >> dt;
        if (k == "ext" || k == "conf") w >> x;
        w >> c[0] >> c[1] >> c[2] >> c[3];
        if (k == "init") {
            sys = new Sys(2, 77);
            for (double &v : sys->q0) v = 0;
            sys->script = c;
            sys->choose(sys->q0, 0);
            MockSolver* solver = new MockSolver(sys);
            solver->max = max;
            emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"nz\":2,\"tol\":%ld,\"sl\":0,\"kind\":\"mock\",\"q\":", n, sc(late)) +
                 js(sys->q0) + ",\"z\":" + sys->zs(sys->q0) + "}\n");
            h = new Hybrid<int>(sys, solver, new MockFinder(sys, late, false));
            emit("{\"e\":\"Made\",\"q\":" + js(h->getState()) + "}\n");
            continue;
        }
        double ta = h->ta();
        emit(fmt("{\"e\":\"Ta\",\"t\":%ld}\n", sc(ta)));
        if (!(ta >= 0) || ta >= NEVER) break;
        Bag in, y;
        in.push_back(PinValue<int>(sys->pin, x));
        if (k == "ext" && dt / 16.0 < ta) {
            emit(fmt("{\"e\":\"ExtB\",\"dt\":%ld,\"x\":", sc(dt / 16.0)) + js(in) + "}\n");
            h->delta_ext(dt / 16.0, in);
            end("ExtE");
            continue;
        }
        emit("{\"e\":\"OutB\"}\n");
        h->output_func(y);
        emit("{\"e\":\"OutE\",\"y\":" + js(y) + "}\n");
        if (k == "own") {
            emit("{\"e\":\"IntB\"}\n");
            h->delta_int();
            end("IntE");
        } else {
            emit("{\"e\":\"ConfB\",\"x\":" + js(in) + "}\n");
            h->delta_conf(in);
            end("ConfE");
        }
    }
    emit("{\"e\":\"DelB\"}\n");
    delete h;
    emit("{\"e\":\"DelE\"}\n");
}

int main(int argc, char** argv) {
    if (argc != 6) return 2;
    std::string prof = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    if (prof == "script") {
        if (!getenv("VERIF_SCRIPT")) return 2;
        std::ifstream f(getenv("VERIF_SCRIPT"));
        for (std::string l; std::getline(f, l);) scripts.push_back(l);
        if (int(scripts.size()) < atoi(argv[4])) return 2;
    }
    return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) {
        if (prof == "script") run_script(scripts[n], n);
        else if (prof == "net") net_scenario(seed, n);
        else if (prof == "worlds") worlds_scenario(seed, n, [&](int, uint64_t key) {
            scenario(key % 3 == 0 ? "real" : "sim", key, n);
        });
        else scenario(prof, seed, n);
    });
}
