// The CVODE wrapper: the calls of an atomic model that a simulator makes, and the calls that
// the wrapper makes of the model and its solver.  The model's solver is exact.
//   cvode_harness direct|sim SEED FIRST LAST OUTFILE
//     sim: the calls are made by a simulator with injected input
//   VERIF_SCRIPT=FILE cvode_harness script SEED FIRST LAST OUTFILE
// A script (see spec/CvodeMC.tla) consists of
//   init PLAIN      does the model leave the event flag alone if there is no event?
//   ta D EV         the integration goes D/16 far; is there an event?
//   int I           output and own event
//   conf I          output and event with input
//   ext D EV I      input after D/16; does the integration until then end with an event?
// where I chooses the state after the event.
#include <fstream>
#include <sstream>
#include "common.h"
#include <nvector/nvector_serial.h>
#include "adevs/adevs.h"
#include "adevs/solvers/cvode.h"
double adevs::double_fcmp::epsilon = 0.0;
using namespace adevs;
typedef std::list<PinValue<int>> Bag;
static const int C = 0, X = 1, V = 2, A = 3, W = 4, NV = 5;
static long sc(double x) { return std::fabs(x) > 400000 ? (x > 0 ? 1600000000L : -1600000000L) : lround(x * 4096.0); }
static std::string js(double const* q) {
    std::string s = "[";
    for (int i = 0; i < NV; i++) s += fmt(i ? ",%ld" : "%ld", i == V || i == W ? lround(q[i]) : sc(q[i]));
    return s + "]";
}
static std::string js(Bag const &x) {
    std::string s = "[";
    for (auto const &v : x) s += fmt(s.size() > 1 ? ",%d" : "%d", v.value);
    return s + "]";
}
static thread_local SUNContext ctx;
static void make_context() {
#if SUNDIALS_VERSION_MAJOR < 7
    SUNContext_Create(nullptr, &ctx);
#else
    SUNContext_Create(0, &ctx);
#endif
}

// State: clock, x with dx/dt = v, a level a that x may reach, and w = 1 if an event is due now
struct Model : CVODE<int> {
    uint64_t key;
    N_Vector y;
    bool plain;     // leaves the event flag alone if there is no event
    bool late_event;  // finds events at inputs
    pin_t pin;
    // What a script chooses next
    bool scripted = false, next_ev = false, until_ev = false;
    double next_h = 0;
    int next_rate = 0;
    Model(uint64_t key) : key(key) {
        y = N_VNew_Serial(NV, ctx);
        for (int i = 0; i < NV; i++) q()[i] = 0;
    }
    ~Model() {
        N_VDestroy(y);
        emit("{\"e\":\"Del\"}\n");
    }
    double* q() { return N_VGetArrayPointer(y); }
    static void flow(double* q, double h) { q[C] += h; q[X] += q[V] * h; }
    uint64_t hash() {
        uint64_t h = 7;
        for (int i = 0; i < NV; i++) h = mix(h, uint64_t(llround(q()[i] * 1048576.0)));
        return h;
    }
    static uint64_t hash(uint64_t h, Bag const &x) {
        uint64_t s = 0;
        for (auto const &v : x) s += mix(3, v.value);
        return mix(h, s);
    }
    void choose(uint64_t h) {
        hook();
        if (scripted) {
            static const double rates[] = {1, -2, 0, 3};
            q()[V] = rates[next_rate % 4];
            q()[W] = next_rate;
            return;
        }
        Rng r(mix(key, h));
        double* p = q();
        static const double vs[] = {-4, -2, -1, 0, 1, 2, 4, 1};
        p[X] = std::floor(p[X] * 8.0 + 0.5) / 8.0;
        p[V] = vs[r.below(8)];
        p[A] = p[X] + (r.chance(1, 3) ? 0 : r.range(-12, 12) / 8.0);
        p[W] = r.chance(1, 5);
    }
    void cvode_delta_int() {
        std::string b = js(q());
        choose(mix(1, hash()));
        emit("{\"e\":\"cInt\",\"q\":" + b + ",\"r\":" + js(q()) + "}\n");
    }
    void cvode_delta_ext(double t, Bag const &xb) {
        std::string b = js(q());
        choose(mix(2, hash(hash(), xb)));
        emit("{\"e\":\"cExt\",\"q\":" + b + fmt(",\"t\":%ld", sc(t)) + ",\"x\":" + js(xb) + ",\"r\":" + js(q()) + "}\n");
    }
    void cvode_delta_conf(Bag const &xb) {
        std::string b = js(q());
        choose(mix(3, hash(hash(), xb)));
        emit("{\"e\":\"cConf\",\"q\":" + b + ",\"x\":" + js(xb) + ",\"r\":" + js(q()) + "}\n");
    }
    void cvode_output_func(Bag &yb) {
        Bag y;
        for (int i = 0, n = 1 + int(hash() % 2); i < n; i++) y.push_back(PinValue<int>(pin, int(mix(hash(), i) % 10000)));
        yb.insert(yb.end(), y.begin(), y.end());
        emit("{\"e\":\"cOut\",\"q\":" + js(q()) + ",\"y\":" + js(y) + "}\n");
    }
    N_Vector cvode_get_state() { return y; }
    void cvode_integrate(double &tf, bool &event) {
        hook();
        std::string b = js(q());
        Rng r(mix(key, hash()));
        double h = r.chance(1, 3) ? 0.25 : r.chance(1, 2) ? 1.0 : 2.5;
        bool ev = false;
        double* p = q();
        if (scripted) {
            h = next_h;
            ev = next_ev;
        } else if (p[W] == 1) {
            h = 0;
            ev = true;
        } else if (p[V] != 0 && (p[A] - p[X]) / p[V] > 0 && (p[A] - p[X]) / p[V] <= h) {
            h = (p[A] - p[X]) / p[V];
            ev = true;
        }
        flow(p, h);
        tf = p[C];
        if (ev || !plain) event = ev;
        emit("{\"e\":\"cInteg\",\"q\":" + b + ",\"r\":" + js(p) + fmt(",\"tf\":%ld,\"ev\":%s}\n", sc(tf), ev ? "true" : "false"));
    }
    void cvode_integrate_until(double tf, bool &event) {
        hook();
        std::string b = js(q());
        Rng r(mix(key + 1, hash()));
        bool ev = scripted ? until_ev : late_event && r.chance(1, 2);
        flow(q(), tf - q()[C]);
        if (ev || !plain) event = ev;
        emit("{\"e\":\"cUntil\",\"q\":" + b + ",\"r\":" + js(q()) + fmt(",\"tf\":%ld,\"ev\":%s}\n", sc(tf), ev ? "true" : "false"));
    }
    void cvode_reinit(N_Vector from, double t) {
        double const* p = N_VGetArrayPointer(from);
        emit("{\"e\":\"cReinit\",\"q\":" + js(p) + fmt(",\"t\":%ld}\n", sc(t)));
        for (int i = 0; i < NV; i++) q()[i] = p[i];
    }
};

static std::vector<std::string> scripts;
static void run_script(std::string const &text, int n) {
    std::istringstream lines(text);
    Model* m = new Model(7);
    m->scripted = true;
    m->q()[V] = 1;
    m->late_event = true;
    auto end = [&](char const* k) { emit(fmt("{\"e\":\"%s\",\"q\":", k) + js(m->q()) + "}\n"); };
    int k = 0;
    for (std::string line; std::getline(lines, line, ';');) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        Bag x;
        for (int j = 0; j <= k % 2; j++) x.push_back(PinValue<int>(m->pin, j ? 7 : k));
        if (op == "init") {
            in >> m->plain;
            emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"plain\":%s,\"q\":", n, m->plain ? "true" : "false") + js(m->q()) + "}\n");
        } else if (op == "ta") {
            in >> m->next_h >> m->next_ev;
            m->next_h /= 16;
            emit("{\"e\":\"TaB\"}\n");
            double ta = m->ta();
            emit(fmt("{\"e\":\"TaE\",\"t\":%ld,\"q\":", sc(ta)) + js(m->q()) + "}\n");
        } else if (op == "ext") {
            double e;
            in >> e >> m->until_ev >> m->next_rate;
            emit(fmt("{\"e\":\"ExtB\",\"dt\":%ld,\"x\":", sc(e / 16)) + js(x) + "}\n");
            m->delta_ext(e / 16, x);
            end("ExtE");
        } else {
            in >> m->next_rate;
            Bag y;
            emit("{\"e\":\"OutB\"}\n");
            m->output_func(y);
            emit("{\"e\":\"OutE\",\"y\":" + js(y) + "}\n");
            if (op == "conf") {
                emit("{\"e\":\"ConfB\",\"x\":" + js(x) + "}\n");
                m->delta_conf(x);
                end("ConfE");
            } else {
                emit("{\"e\":\"IntB\"}\n");
                m->delta_int();
                end("IntE");
            }
        }
        k++;
    }
    emit("{\"e\":\"DelB\"}\n");
    delete m;
    emit("{\"e\":\"DelE\"}\n");
}

// A model that tells which calls are made of it
struct Watch : Model {
    using Model::Model;
    void end(char const* k) { emit(fmt("{\"e\":\"%s\",\"q\":", k) + js(q()) + "}\n"); }
    double ta() {
        emit("{\"e\":\"TaB\"}\n");
        double t = Model::ta();
        emit(fmt("{\"e\":\"TaE\",\"t\":%ld,\"q\":", sc(t)) + js(q()) + "}\n");
        return t;
    }
    void output_func(Bag &y) {
        emit("{\"e\":\"OutB\"}\n");
        Model::output_func(y);
        emit("{\"e\":\"OutE\",\"y\":" + js(y) + "}\n");
    }
    void delta_int() {
        emit("{\"e\":\"IntB\"}\n");
        Model::delta_int();
        end("IntE");
    }
    void delta_ext(double e, Bag const &x) {
        emit(fmt("{\"e\":\"ExtB\",\"dt\":%ld,\"x\":", sc(e)) + js(x) + "}\n");
        Model::delta_ext(e, x);
        end("ExtE");
    }
    void delta_conf(Bag const &x) {
        emit("{\"e\":\"ConfB\",\"x\":" + js(x) + "}\n");
        Model::delta_conf(x);
        end("ConfE");
    }
};
static void simulate(Rng &r, Model* m) {
    std::shared_ptr<CVODE<int>> c(m);
    auto g = std::make_shared<Graph<int>>();
    pin_t in;
    g->add_atomic(c);
    g->connect(in, c);
    // At times the model is taken out of the simulation and put back, or simulated by another simulator
    bool moves = r.chance(1, 3), back = false;
    {
        std::unique_ptr<Simulator<int>> s(new Simulator<int>(g));
        double last = 0;
        for (int i = 0; i < 40; i++) {
            if (back) {
                back = false;
                double t = last + r.range(0, 32) / 16.0;
                g->add_atomic(c);
                g->connect(in, c);
                s->setNextTime(t);
                s->execNextEvent();
                last = t;
                emit(fmt("{\"e\":\"Join\",\"t\":%ld}\n", sc(t)));
            } else if (moves && r.chance(1, 10)) {
                s.reset();
                s.reset(new Simulator<int>(g));
                last = 0;
                emit("{\"e\":\"Join\",\"t\":0}\n");
            }
            Simulator<int> &sim = *s;
            double next = sim.nextEventTime(), ta = next - last;
            if (!(ta >= 0)) break;
            if (moves && r.chance(1, 8)) {
                g->remove_atomic(c);
                back = true;
            }
            if (ta > 0 && r.chance(2, 5)) {
                double e = r.chance(1, 6) ? 0 : std::floor(ta * r.below(1000) / 1000.0 * 1024) / 1024;
                next = last + e;
                sim.setNextTime(next);
                PinValue<int> x(in, r.below(100));
                sim.injectInput(x);
            }
            for (int k = r.chance(1, 3) ? r.range(1, 2) : 0; k > 0; k--) {
                PinValue<int> x(in, r.below(100));
                sim.injectInput(x);
            }
            emit(fmt("{\"e\":\"Step\",\"t\":%ld}\n", sc(next)));
            sim.execNextEvent();
            last = next;
        }
    }
    g.reset();
    emit("{\"e\":\"DelB\"}\n");
    c.reset();
    emit("{\"e\":\"DelE\"}\n");
}

static void scenario(std::string const &prof, uint64_t seed, int n) {
    Rng r(mix(seed, n));
    bool sim = prof == "sim";
    uint64_t key = r.next();
    Model* m = sim ? new Watch(key) : new Model(key);
    m->plain = r.chance(1, 2);
    m->late_event = r.chance(1, 2);
    m->choose(11);
    emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"plain\":%s,\"q\":", n, m->plain ? "true" : "false") + js(m->q()) + "}\n");
    if (sim) return simulate(r, m);
    auto end = [&](char const* k) { emit(fmt("{\"e\":\"%s\",\"q\":", k) + js(m->q()) + "}\n"); };
    auto inputs = [&]() {
        Bag x;
        for (int k = r.range(1, 2); k > 0; k--) x.push_back(PinValue<int>(m->pin, r.below(100)));
        return x;
    };
    for (int i = 0; i < 40; i++) {
        emit("{\"e\":\"TaB\"}\n");
        double ta = m->ta();
        emit(fmt("{\"e\":\"TaE\",\"t\":%ld,\"q\":", sc(ta)) + js(m->q()) + "}\n");
        if (r.chance(1, 6)) {
            // Asking again changes nothing
            emit("{\"e\":\"TaB\"}\n");
            ta = m->ta();
            emit(fmt("{\"e\":\"TaE\",\"t\":%ld,\"q\":", sc(ta)) + js(m->q()) + "}\n");
        }
        if (!(ta >= 0)) break;
        if (sc(ta) > 0 && r.chance(2, 5)) {
            double e = r.chance(1, 6) ? 0 : std::floor(ta * r.below(1000) / 1000.0 * 1024) / 1024;
            Bag x = inputs();
            emit(fmt("{\"e\":\"ExtB\",\"dt\":%ld,\"x\":", sc(e)) + js(x) + "}\n");
            m->delta_ext(e, x);
            end("ExtE");
            continue;
        }
        Bag y;
        emit("{\"e\":\"OutB\"}\n");
        m->output_func(y);
        emit("{\"e\":\"OutE\",\"y\":" + js(y) + "}\n");
        if (r.chance(1, 3)) {
            Bag x = inputs();
            emit("{\"e\":\"ConfB\",\"x\":" + js(x) + "}\n");
            m->delta_conf(x);
            end("ConfE");
        } else {
            emit("{\"e\":\"IntB\"}\n");
            m->delta_int();
            end("IntE");
        }
    }
    emit("{\"e\":\"DelB\"}\n");
    delete m;
    emit("{\"e\":\"DelE\"}\n");
}

int main(int argc, char** argv) {
    if (argc != 6) return 2;
    make_context();
    std::string prof = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    if (prof == "script") {
        std::ifstream f(getenv("VERIF_SCRIPT") ? getenv("VERIF_SCRIPT") : "");
        for (std::string l; std::getline(f, l);) scripts.push_back(l);
        if (int(scripts.size()) < atoi(argv[4])) return 2;
    }
    return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) {
        if (prof == "script") run_script(scripts[n], n);
        else if (prof == "worlds") worlds_scenario(seed, n, [&](int, uint64_t key) {
            SUNContext was = ctx;
            make_context();
            scenario(key % 2 ? "sim" : "direct", key, n);
            SUNContext_Free(&ctx);
            ctx = was;
        });
        else scenario(prof, seed, n);
    });
}
