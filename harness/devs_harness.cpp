// Random models that run in the real simulator and log everything that the
// simulator does with them, for the trace specification DevsTrace.
//
//   devs_harness PROFILE SEED FIRST LAST OUTFILE
//
// With profile "script" the scenarios are not random: scenario n is line n of
// the file named by VERIF_SCRIPT, which TLC wrote (see spec/*Gen.tla).
//
// The time type is chosen with -DTIME=...
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#define VERIF_SCALE
#include "timetraits.h"

#ifndef TIME
#define TIME double
#endif
#ifndef VALUE
#define VALUE int
#endif
typedef TIME T;
typedef VALUE V;
typedef TT<T> X;
typedef adevs::Atomic<V, T> A;
typedef adevs::MealyAtomic<V, T> M;
typedef adevs::Graph<V, T> G;
typedef adevs::Coupled<V, T> C;
typedef adevs::Simulator<V, T> S;
typedef adevs::PinValue<V> PV;
typedef adevs::pin_t Pin;

static int toint(int v) { return v; }
static int toint(std::any const &v) { return v.has_value() ? std::any_cast<int>(v) : -1; }

struct Profile {
    char const* name;
    int nmin = 2, nmax = 6;       // models
    int steps = 14;
    int mealy = 0;                // percent of models that are Mealy
    bool cycles = false;          // may have loops of Mealy models
    int dyn = 0;                  // percent of transitions that request changes
    int between = 0;              // percent of steps with requests before them
    int pre = 10;                 // requests before the simulator is made
    int kind = 0;                 // 0 graph, 1 coupled, 2 atomic, 3 any
    int inject = 0, setnext = 0, redo = 0, clear = 0, neg = 0, exec = 30;
    int probe = 5, drop = 0, listeners = 2;
    int zero = 12, inf = 20;      // percent of such time advances
    int rp = 3;                   // weight of pin removal
    bool twin = false;            // run twice and compare
    int boom = 0;                 // of 1000 calls of a model that throw an exception
    int again = 0;                // most simulations of the same models, one after the other
    int keep = 0;                 // percent of models that are added at the start for sure
    bool wide = false;            // long paths, pins with many couplings, couplings made many times
};

static std::vector<Profile> profiles() {
    std::vector<Profile> v;
    auto add = [&](char const* n, std::function<void(Profile &)> f) { Profile p; p.name = n; f(p); v.push_back(p); };
    add("moore", [](Profile &p) { p.keep = 95; p.pre = 14; p.inject = 10; p.rp = 0; });
    add("big", [](Profile &p) { p.keep = 99; p.nmin = 90; p.nmax = 230; p.pre = 60; p.steps = 10; p.inf = 15; p.rp = 0; p.listeners = 1; p.probe = 0; });
    add("mealy", [](Profile &p) { p.keep = 97; p.mealy = 60; p.pre = 18; p.inject = 25; p.nmin = 3; p.nmax = 8; p.rp = 0; p.redo = 10; });
    add("mealycyc", [](Profile &p) { p.keep = 97; p.mealy = 75; p.cycles = true; p.pre = 14; p.inject = 40; p.steps = 6; p.rp = 0; p.inf = 40; });
    add("dyn", [](Profile &p) { p.keep = 60; p.mealy = 15; p.dyn = 35; p.between = 30; p.pre = 12; p.inject = 20; p.probe = 30; p.drop = 8; });
    add("struct", [](Profile &p) { p.keep = 40; p.pre = 45; p.steps = 5; p.between = 70; p.probe = 60; p.inject = 40; p.rp = 8; p.drop = 5; p.inf = 50; });
    add("wide", [](Profile &p) { p.wide = true; p.keep = 92; p.nmin = 3; p.nmax = 34; p.pre = 10; p.steps = 6; p.between = 60; p.dyn = 10; p.probe = 40; p.inject = 60; p.rp = 1; p.inf = 50; p.mealy = 10; p.listeners = 1; });
    add("coupled", [](Profile &p) { p.keep = 0; p.kind = 1; p.pre = 30; p.dyn = 15; p.between = 50; p.inject = 50; p.drop = 6; p.mealy = 10; });
    add("inject", [](Profile &p) { p.keep = 95; p.mealy = 30; p.inject = 70; p.setnext = 50; p.redo = 40; p.clear = 10; p.pre = 16; p.inf = 35; p.rp = 0; });
    add("neg", [](Profile &p) { p.keep = 80; p.neg = 4; p.dyn = 15; p.between = 15; p.kind = 3; p.mealy = 20; p.inject = 20; });
    add("life", [](Profile &p) { p.keep = 60; p.dyn = 30; p.between = 40; p.drop = 60; p.mealy = 20; p.kind = 4; p.inject = 20; p.pre = 12; });
    add("mix", [](Profile &p) { p.keep = 80; p.mealy = 35; p.dyn = 10; p.between = 10; p.inject = 25; p.setnext = 15; p.redo = 15; p.clear = 5; p.drop = 5; p.kind = 3; p.nmax = 7; p.neg = 1; });
    add("again", [](Profile &p) { p.again = 4; p.boom = 6; p.keep = 80; p.mealy = 35; p.dyn = 8; p.between = 10; p.inject = 25; p.setnext = 15; p.redo = 15; p.kind = 3; p.nmax = 7; p.neg = 1; p.steps = 6; p.drop = 5; p.probe = 20; });
    add("againcyc", [](Profile &p) { p.again = 4; p.keep = 97; p.mealy = 75; p.cycles = true; p.pre = 16; p.inject = 40; p.steps = 4; p.kind = 4; p.rp = 0; p.inf = 40; });
    add("twin", [](Profile &p) { p.twin = true; p.mealy = 45; p.pre = 22; p.inject = 30; p.redo = 10; p.setnext = 10; p.nmin = 3; p.nmax = 9; p.rp = 0; p.probe = 0; });
    add("twindyn", [](Profile &p) { p.twin = true; p.mealy = 25; p.pre = 20; p.inject = 30; p.dyn = 40; p.between = 30; p.nmax = 7; p.probe = 0; });
    add("twincoupled", [](Profile &p) { p.twin = true; p.mealy = 25; p.pre = 26; p.inject = 40; p.dyn = 30; p.between = 30; p.kind = 1; p.nmax = 8; p.probe = 0; });
    return v;
}

// What the models of a scripted scenario do
struct Script {
    std::set<std::pair<int, int>> boom;                         // throw an exception in the n-th transition
    std::vector<int> beh;                                       // 1, 2, 4: output of an internal, confluent, external event
    std::vector<std::vector<Tm>> ta;                            // successive time advances, then infinity
    std::vector<size_t> calls;                                  // transitions so far
    std::map<std::pair<int, int>, std::vector<std::string>> at; // requests in the n-th transition
};

// An exception of a model
struct Boom {};

struct World;
static thread_local World* W = nullptr;
// The pins of another simulation, which may be used in this one, too
static thread_local std::vector<Pin> const* lend = nullptr;

struct Core {
    int id = 0;
    uint64_t s = 0;
    Tm tav;
};
static Core* core_of(A* a);

struct Listener : adevs::EventListener<V, T> {
    int i;
    Listener(int i) : i(i) {}
    void outputEvent(A &m, PV &v, T t);
    void inputEvent(A &m, PV &v, T t);
    void stateChange(A &m, T t);
};

struct World {
    Profile p;
    Rng r{1};
    uint64_t seed = 0;
    int N = 0, P = 0, NC = 0, nl = 1;
    std::vector<bool> mealy;
    std::vector<std::vector<int>> opins;
    std::vector<int> mlevel, plevel;
    std::vector<Pin> pins;              // 1..P
    std::map<Pin, int> pinid;
    std::vector<std::shared_ptr<A>> held;
    std::vector<std::weak_ptr<A>> weak;
    std::vector<A*> raw;
    std::vector<Core*> core;
    std::shared_ptr<G> graph;
    std::vector<std::shared_ptr<C>> cps;
    S* sim = nullptr;
    Script* sc = nullptr;
    // What the graph will be when all requests are done
    std::map<int, int> cnt;
    std::vector<std::set<int>> ca;      // coupled: models
    std::vector<std::set<int>> cc;      // coupled: coupled
    std::set<std::pair<int, int>> ces[32];
    // Logs of the listeners in this computation
    std::vector<std::string> lo, li, ls;
    std::set<int> tac, moved;
    int twin = 0;                       // 1, 2: first, second run of the same model
    int executive = 0;                  // the only model that asks for changes (twins)
    Rng pr{1};                          // orders and addresses
    std::string trs;                    // transitions in this step (twins)
    bool in_state = false, lazy_out = false, started = false;
    int kind = 0;                       // 0 graph 1 coupled 2 atomic
    bool ops_allowed = true;
    int run = 0;                        // simulations of the same models so far
    int waiting = 0;                    // requests since the end of the last step

    int idof(void* a) {
        for (int i = 1; i <= N; i++) {
            if ((void*)raw[i] == a || (void*)core[i] == a) return i;
        }
        return 0;
    }
    int pin(Pin const &q) { auto i = pinid.find(q); return i == pinid.end() ? 0 : i->second; }
    std::string bag(std::list<PV> const &xb) {
        std::string o = "[";
        for (auto &x : xb) {
            if (o.size() > 1) o += ",";
            o += fmt("[%d,%d]", pin(x.pin), toint(x.value));
        }
        return o + "]";
    }
    std::string lists(std::vector<std::string> &v) {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); i++) {
            if (i) o += ",";
            o += "[" + v[i] + "]";
        }
        return o + "]";
    }
    void app(std::string &o, std::string const &x) { if (!o.empty()) o += ","; o += x; }

    Tm pick_ta(uint64_t h, int id) {
        Rng q(mix(h, 77));
        if (p.neg && q.chance(p.neg, 100)) {
            if (X::sd && q.chance(1, 2)) return Tm{0, -1};
            return q.chance(1, 2) ? TNEG : Tm{-1, 0};
        }
        if (q.chance(p.inf, 100)) return TINF;
        long k = X::sd ? (q.chance(1, 2) ? 0 : q.below(3)) : 0;
        if (q.chance(p.zero, 100)) return Tm{0, k};
        static const long tab[] = {1, 1, 2, 2, 3, 5, 7, 12};
        return Tm{tab[q.below(8)], k};
    }
    // ----- structural requests -----
    std::shared_ptr<A> get(int m) { return weak[m].lock(); }
    void log_op(char const* k, int pp, int qq, int m, int c, int d) {
        waiting++;
        emit(fmt("{\"e\":\"Op\",\"k\":\"%s\",\"p\":%d,\"q\":%d,\"m\":%d,\"c\":%d,\"d\":%d}\n", k, pp, qq, m, c, d));
    }
    bool pp_ok(int a, int b) { return p.cycles || plevel[a] <= plevel[b]; }
    bool pa_ok(int a, int m) { return p.cycles || !mealy[m] || plevel[a] <= mlevel[m]; }
    bool below(int x, int c) {
        if (x == c) return true;
        for (int y : cc[x]) if (below(y, c)) return true;
        return false;
    }
    void op(Rng &q) { if (!ops_allowed) return; if (kind == 1) op_coupled(q); else if (kind == 0) op_graph(q); }
    // The couplings that were made
    std::vector<std::pair<int, int>> made_pp, made_pa;
    // One of them, in place of a and b
    void made(Rng &q, std::vector<std::pair<int, int>> const &v, int of, int &a, int &b) {
        if (v.empty() || !q.chance(of, 10)) return;
        auto x = v[q.below(int(v.size()))];
        a = x.first;
        b = x.second;
    }
    void op_graph(Rng &q) {
        int a = q.range(1, P), b = q.range(1, P), m = q.range(1, N);
        int w = q.below(26 + p.rp);
        if (p.keep < 70 && w >= 6 && w < 20 && q.chance(1, 5)) { w = 0; }
        if (w < 4) {
            auto x = held[m];
            if (!x) x = get(m);
            if (!x) return;
            log_op("add", 0, 0, m, 0, 0);
            graph->add_atomic(x);
            cnt[m]++;
        } else if (w < 7) {
            auto x = get(m);
            if (!x) return;
            log_op("rem", 0, 0, m, 0, 0);
            graph->remove_atomic(x);
            if (cnt[m] > 0) cnt[m]--;
        } else if (w < 12) {
            if (!pp_ok(a, b)) std::swap(a, b);
            made(q, made_pp, 2, a, b);
            made_pp.push_back({a, b});
            log_op("pp", a, b, 0, 0, 0);
            graph->connect(pins[a], pins[b]);
        } else if (w < 15) {
            made(q, made_pp, 7, a, b);
            log_op("dpp", a, b, 0, 0, 0);
            graph->disconnect(pins[a], pins[b]);
        } else if (w < 23) {
            made(q, made_pa, 2, a, m);
            auto x = get(m);
            if (!x || cnt[m] <= 0 || !pa_ok(a, m)) return;
            made_pa.push_back({a, m});
            log_op("pa", a, 0, m, 0, 0);
            graph->connect(pins[a], x);
        } else if (w < 26) {
            made(q, made_pa, 7, a, m);
            auto x = get(m);
            if (!x) return;
            log_op("dpa", a, 0, m, 0, 0);
            graph->disconnect(pins[a], x);
        } else {
            log_op("rp", a, 0, 0, 0, 0);
            graph->remove_pin(pins[a]);
        }
    }
    void op_coupled(Rng &q) {
        int a = q.range(1, P), b = q.range(1, P), m = q.range(1, N), c = q.range(1, NC), d = q.range(1, NC);
        int w = q.below(32);
        if (w < 7) {
            auto x = get(m);
            if (!x) return;
            log_op("cadd", 0, 0, m, c, 0);
            cps[c]->add_atomic(x);
            ca[c].insert(m);
        } else if (w < 10) {
            auto x = get(m);
            if (!x) return;
            log_op("crem", 0, 0, m, c, 0);
            cps[c]->remove_atomic(x);
            ca[c].erase(m);
        } else if (w < 18) {
            if (ca[c].empty()) return;
            auto i = ca[c].begin();
            std::advance(i, q.below(int(ca[c].size())));
            auto x = get(*i);
            if (!x || !pa_ok(a, *i)) return;
            made_pa.push_back({a, *i});
            log_op("cpa", a, 0, *i, c, 0);
            cps[c]->create_coupling(pins[a], x);
        } else if (w < 20) {
            made(q, made_pa, 7, a, m);
            auto x = get(m);
            if (!x) return;
            log_op("cdpa", a, 0, m, c, 0);
            cps[c]->remove_coupling(pins[a], x);
        } else if (w < 25) {
            if (!pp_ok(a, b)) std::swap(a, b);
            made_pp.push_back({a, b});
            log_op("cpp", a, b, 0, c, 0);
            cps[c]->create_coupling(pins[a], pins[b]);
        } else if (w < 27) {
            made(q, made_pp, 7, a, b);
            log_op("cdpp", a, b, 0, c, 0);
            cps[c]->remove_coupling(pins[a], pins[b]);
        } else if (w < 30) {
            if (below(d, c)) return;
            log_op("ccadd", 0, 0, 0, c, d);
            cps[c]->add_coupled_model(cps[d]);
            cc[c].insert(d);
        } else {
            log_op("ccrem", 0, 0, 0, c, d);
            cps[c]->remove_coupled_model(cps[d]);
            cc[c].erase(d);
        }
    }
    void probe() {
        if (kind != 0 || !graph) return;
        std::string at = "", rt = "";
        for (auto &m : graph->get_atomics()) app(at, fmt("%d", idof(m.get())));
        for (int i = 1; i <= P; i++) {
            std::list<std::pair<Pin, std::shared_ptr<A>>> ms;
            graph->route(pins[i], ms);
            std::string o = "";
            for (auto &x : ms) app(o, fmt("[%d,%d]", pin(x.first), idof(x.second.get())));
            app(rt, fmt("[%d,[", i) + o + "]]");
        }
        emit("{\"e\":\"Probe\",\"at\":[" + at + "],\"rt\":[" + rt + "]}\n");
    }
    // ----- callbacks -----
    T lazy_t;
    void begin_state(bool after = false) {
        if (!lazy_out) return;
        lazy_out = false;
        // If no callback was made then nextEventTime() has moved on already
        if (after) emit("{\"e\":\"OutEnd\",\"t\":" + js(X::un(lazy_t)) + ",\"lo\":" + lists(lo) + "}\n");
        else out_end();
        emit("{\"e\":\"StBegin\"}\n");
        in_state = true;
    }
    void out_begin() {
        for (auto &x : lo) x.clear();
        for (auto &x : li) x.clear();
        for (auto &x : ls) x.clear();
        tac.clear();
        moved.clear();
        lazy_t = sim->nextEventTime();
        emit("{\"e\":\"OutBegin\",\"t\":" + js(X::un(sim->nextEventTime())) + "}\n");
    }
    void out_end() {
        emit("{\"e\":\"OutEnd\",\"t\":" + js(X::un(sim->nextEventTime())) + ",\"lo\":" + lists(lo) + "}\n");
    }
    void st_end(T t) {
        waiting = 0;
        std::string tc;
        for (int m : tac) app(tc, fmt("%d", m));
        emit("{\"e\":\"StEnd\",\"r\":" + js(X::un(t)) + ",\"t\":" + js(X::un(sim->nextEventTime())) +
             ",\"li\":" + lists(li) + ",\"ls\":" + lists(ls) + ",\"tac\":[" + tc + "]}\n");
        if (twin) {
            mute = false;
            emit("{\"e\":\"Step\",\"at\":" + js(X::un(lazy_t)) + ",\"r\":" + js(X::un(t)) + ",\"t\":" + js(X::un(sim->nextEventTime())) +
                 ",\"out\":[" + lo[0] + "],\"in\":[" + li[0] + "],\"tr\":[" + trs + "]}\n");
            mute = true;
            trs = "";
        }
    }
    uint64_t hashbag(std::list<PV> const &xb) {
        std::vector<uint64_t> v;
        for (auto &x : xb) v.push_back(uint64_t(pin(x.pin)) * 100003u + uint64_t(uint32_t(toint(x.value))));
        std::sort(v.begin(), v.end());
        uint64_t h = 17;
        for (auto x : v) h = mix(h, x);
        return h;
    }
    void script_out(Core &c, char const* k, std::list<PV> const &xb, std::list<PV> &ys) {
        if (!(sc->beh[c.id] & (k[0] == 'i' ? 1 : k[0] == 'c' ? 2 : 4))) return;
        int v = c.id * 1000;
        for (auto &x : xb) v += toint(x.value) % 100 + 1;
        for (int p : opins[c.id]) ys.push_back(PV(pins[p], V(v)));
    }
    // A request for a change of the structure: its kind and up to three numbers
    void script_op(std::string const &k, int a, int b, int d) {
        if (k == "add") { log_op("add", 0, 0, a, 0, 0); graph->add_atomic(get(a)); }
        else if (k == "rem") { log_op("rem", 0, 0, a, 0, 0); graph->remove_atomic(get(a)); }
        else if (k == "pp") { log_op("pp", a, b, 0, 0, 0); graph->connect(pins[a], pins[b]); }
        else if (k == "dpp") { log_op("dpp", a, b, 0, 0, 0); graph->disconnect(pins[a], pins[b]); }
        else if (k == "pa") { log_op("pa", a, 0, b, 0, 0); graph->connect(pins[a], get(b)); }
        else if (k == "dpa") { log_op("dpa", a, 0, b, 0, 0); graph->disconnect(pins[a], get(b)); }
        else if (k == "rp") { log_op("rp", a, 0, 0, 0, 0); graph->remove_pin(pins[a]); }
        else if (k == "cadd") { log_op("cadd", 0, 0, b, a, 0); cps[a]->add_atomic(get(b)); }
        else if (k == "crem") { log_op("crem", 0, 0, b, a, 0); cps[a]->remove_atomic(get(b)); }
        else if (k == "cpa") { log_op("cpa", b, 0, d, a, 0); cps[a]->create_coupling(pins[b], get(d)); }
        else if (k == "cdpa") { log_op("cdpa", b, 0, d, a, 0); cps[a]->remove_coupling(pins[b], get(d)); }
        else if (k == "cpp") { log_op("cpp", b, d, 0, a, 0); cps[a]->create_coupling(pins[b], pins[d]); }
        else if (k == "cdpp") { log_op("cdpp", b, d, 0, a, 0); cps[a]->remove_coupling(pins[b], pins[d]); }
        else if (k == "ccadd") { log_op("ccadd", 0, 0, 0, a, b); cps[a]->add_coupled_model(cps[b]); }
        else if (k == "ccrem") { log_op("ccrem", 0, 0, 0, a, b); cps[a]->remove_coupled_model(cps[b]); }
        else { fprintf(stderr, "bad request %s\n", k.c_str()); _exit(4); }
    }
    void script_op(std::string const &line) {
        std::istringstream in(line);
        std::string k;
        int a = 0, b = 0, d = 0;
        in >> k >> a >> b >> d;
        script_op(k, a, b, d);
    }
    void boom(Core &c, uint64_t h) {
        if (!p.boom || !Rng(mix(h, 4711 + run)).chance(p.boom, 1000)) return;
        emit(fmt("{\"e\":\"Boom\",\"m\":%d}\n", c.id));
        throw Boom();
    }
    void on_out(Core &c, char const* k, Tm e, std::list<PV> const &xb, std::list<PV> &yb) {
        boom(c, mix(c.s, k[0]));
        uint64_t h = mix(c.s, mix(k[0], xb.empty() ? 5 : hashbag(xb)));
        if (k[0] == 'e') h = mix(h, uint64_t(e.t * 31 + e.k));
        Rng q(h);
        std::list<PV> ys;
        auto &ps = opins[c.id];
        if (sc) script_out(c, k, xb, ys);
        else if (!ps.empty() && !q.chance(k[0] == 'i' ? 15 : 35, 100)) {
            int n = q.chance(1, 4) ? 2 : 1;
            for (int i = 0; i < n; i++) ys.push_back(PV(pins[ps[q.below(int(ps.size()))]], V(q.below(900) + 1)));
        }
        emit(fmt("{\"e\":\"Out\",\"m\":%d,\"k\":\"%s\",\"el\":%s,\"xb\":%s,\"yb\":%s}\n", c.id, k, js(e).c_str(),
                 bag(xb).c_str(), bag(ys).c_str()));
        for (auto &y : ys) yb.push_back(y);
        if (twin || sc) return;
        if (!mealy[c.id] && p.dyn && q.chance(p.dyn, 800)) op(q);
        if (!mealy[c.id] && p.probe && q.chance(p.probe, 400)) probe();
    }
    void on_delta(Core &c, char const* k, Tm e, std::list<PV> const &xb) {
        begin_state();
        boom(c, mix(c.s, k[0] + 1000));
        if (sc && sc->boom.count({c.id, int(sc->calls[c.id]) + 1})) {
            sc->calls[c.id]++;
            emit(fmt("{\"e\":\"Boom\",\"m\":%d}\n", c.id));
            throw Boom();
        }
        uint64_t h = mix(c.s, mix(uint64_t(k[0]) * 7, xb.empty() ? 3 : hashbag(xb)));
        if (k[0] == 'e') h = mix(h, uint64_t(e.t * 29 + e.k));
        c.s = h;
        Tm was = c.tav;
        c.tav = pick_ta(h, c.id);
        if (sc) {
            size_t n = ++sc->calls[c.id];
            c.tav = n < sc->ta[c.id].size() ? sc->ta[c.id][n] : TINF;
        }
        // Sometimes continue towards the same internal event
        if (!sc && k[0] == 'e' && !(was == TINF) && e.t >= 0 && was.t > e.t && Rng(mix(h, 41)).chance(1, 3)) c.tav = Tm{was.t - e.t, was.k};
        moved.insert(c.id);
        emit(fmt("{\"e\":\"Delta\",\"m\":%d,\"k\":\"%s\",\"el\":%s,\"xb\":%s,\"ta\":%s}\n", c.id, k, js(e).c_str(),
                 bag(xb).c_str(), js(c.tav).c_str()));
        if (twin) app(trs, fmt("[%d,\"%s\",%s,%s,%d]", c.id, k, js(e).c_str(), js(c.tav).c_str(), int(h % 1000000)));
        if (sc) {
            auto i = sc->at.find({c.id, int(sc->calls[c.id])});
            if (i != sc->at.end()) for (auto &o : i->second) script_op(o);
            return;
        }
        Rng q(mix(h, 99));
        if (twin && c.id != executive) return;
        if (p.probe && q.chance(p.probe, 300)) probe();
        if (p.dyn && q.chance(p.dyn, 100)) {
            int n = q.range(1, 3);
            for (int i = 0; i < n; i++) op(q);
            if (p.probe && q.chance(p.probe, 100)) probe();
        }
    }
    T on_ta(Core &c) {
        begin_state();
        boom(c, mix(c.s, 2000));
        tac.insert(c.id);
        return X::mkj(c.tav, mix(c.s, 3));
    }
    void on_destroy(Core &c) {
        // Inside of execNextEvent() models are released when the step ends
        if (lazy_out) begin_state(true);
        emit(fmt("{\"e\":\"Destroy\",\"m\":%d}\n", c.id));
    }
};

struct MooreModel : A, Core {
    void delta_int() { W->on_delta(*this, "int", Tm(), std::list<PV>()); hook(); }
    void delta_ext(T e, std::list<PV> const &xb) { W->on_delta(*this, "ext", X::un(e), xb); hook(); }
    void delta_conf(std::list<PV> const &xb) { W->on_delta(*this, "conf", Tm(), xb); hook(); }
    void output_func(std::list<PV> &yb) { W->on_out(*this, "int", Tm(), std::list<PV>(), yb); hook(); }
    T ta() { T t = W->on_ta(*this); hook(); return t; }
    ~MooreModel() { W->on_destroy(*this); }
};
struct MealyModel : M, Core {
    void delta_int() { W->on_delta(*this, "int", Tm(), std::list<PV>()); hook(); }
    void delta_ext(T e, std::list<PV> const &xb) { W->on_delta(*this, "ext", X::un(e), xb); hook(); }
    void delta_conf(std::list<PV> const &xb) { W->on_delta(*this, "conf", Tm(), xb); hook(); }
    void output_func(std::list<PV> &yb) { W->on_out(*this, "int", Tm(), std::list<PV>(), yb); hook(); }
    void external_output_func(T e, std::list<PV> const &xb, std::list<PV> &yb) { W->on_out(*this, "ext", X::un(e), xb, yb); hook(); }
    void confluent_output_func(std::list<PV> const &xb, std::list<PV> &yb) { W->on_out(*this, "conf", Tm(), xb, yb); hook(); }
    T ta() { T t = W->on_ta(*this); hook(); return t; }
    ~MealyModel() { W->on_destroy(*this); }
};

void Listener::outputEvent(A &m, PV &v, T t) {
    W->app(W->lo[i], fmt("[%d,%d,%d,%s]", W->idof(&m), W->pin(v.pin), toint(v.value), js(X::un(t)).c_str()));
    hook();
}
void Listener::inputEvent(A &m, PV &v, T t) {
    W->begin_state();
    W->app(W->li[i], fmt("[%d,%d,%d,%s]", W->idof(&m), W->pin(v.pin), toint(v.value), js(X::un(t)).c_str()));
    hook();
}
void Listener::stateChange(A &m, T t) {
    W->begin_state();
    int id = W->idof(&m);
    W->app(W->ls[i], fmt("[%d,%s,%d]", id, js(X::un(t)).c_str(), int(W->moved.count(id))));
    hook();
}

struct Deleter {
    void* chunk;
    void operator()(A* a) { a->~A(); ::operator delete(chunk); }
};

static void scenario(Profile const &prof, uint64_t seed, int n, int twin = 0) {
    World w;
    World* was = W;
    W = &w;
    w.twin = twin;
    if (twin) {
        if (twin == 1) emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
        emit(fmt("{\"e\":\"Run\",\"r\":%d}\n", twin));
        mute = true;
    }
    w.p = prof;
    w.seed = mix(mix(seed, n), std::hash<std::string>()(prof.name));
    Rng &r = w.r;
    r = Rng(w.seed);
    w.pr = Rng(mix(w.seed, 555 + twin));
    w.N = r.range(prof.nmin, prof.nmax);
    bool big = w.N > 20;
    if (prof.wide) big = false;
    w.P = big ? 40 : prof.wide ? r.range(12, 36) : r.range(2, 8);
    w.NC = 0;
    switch (prof.kind) {
        case 0: w.kind = 0; break;
        case 1: w.kind = 1; break;
        case 2: w.kind = 2; break;
        case 3: { int k = r.below(10); w.kind = k < 6 ? 0 : k < 9 ? 1 : 2; break; }
        case 4: { int k = r.below(10); w.kind = k < 6 ? 0 : 1; break; }
    }
    if (w.kind == 1) w.NC = r.range(1, 4);
    w.nl = prof.listeners > 1 && r.chance(1, 10) ? r.range(3, 6) : r.range(1, prof.listeners);
    w.pins.resize(w.P + 1);
    {
        // Pins in a random order of identity
        std::vector<Pin> fresh(w.P);
        w.pr.shuffle(fresh);
        if (lend) for (int i = 0; i < w.P && i < int(lend->size()); i++) fresh[i] = (*lend)[i];
        for (int i = 1; i <= w.P; i++) { w.pins[i] = fresh[i - 1]; w.pinid[w.pins[i]] = i; }
    }
    w.plevel.resize(w.P + 1); w.mlevel.resize(w.N + 1); w.mealy.resize(w.N + 1); w.opins.resize(w.N + 1);
    for (int i = 1; i <= w.P; i++) w.plevel[i] = prof.wide ? 4 : r.range(0, 4);
    for (int m = 1; m <= w.N; m++) {
        w.mealy[m] = r.chance(prof.mealy, 100);
        w.mlevel[m] = r.range(0, 3);
        int k = big ? 2 : r.range(1, 3);
        for (int i = 0; i < k; i++) {
            int a = r.range(1, w.P);
            if (w.mealy[m] && !prof.cycles && w.plevel[a] <= w.mlevel[m]) {
                // Find one of a higher level
                for (int b = 1; b <= w.P; b++) if (w.plevel[b] > w.mlevel[m]) { a = b; if (r.chance(1, 2)) break; }
                if (w.plevel[a] <= w.mlevel[m]) continue;
            }
            w.opins[m].push_back(a);
        }
    }
    // Models at addresses in random order
    size_t sz = std::max(sizeof(MooreModel), sizeof(MealyModel));
    std::vector<void*> chunks;
    for (int i = 0; i < w.N; i++) chunks.push_back(::operator new(sz));
    w.pr.shuffle(chunks);
    w.held.resize(w.N + 1); w.weak.resize(w.N + 1); w.raw.resize(w.N + 1); w.core.resize(w.N + 1);
    for (int m = 1; m <= w.N; m++) {
        A* a;
        if (w.mealy[m]) { auto x = new (chunks[m - 1]) MealyModel(); a = x; w.core[m] = x; }
        else { auto x = new (chunks[m - 1]) MooreModel(); a = x; w.core[m] = x; }
        w.core[m]->id = m;
        w.core[m]->s = mix(w.seed, 1000 + m);
        w.core[m]->tav = w.pick_ta(w.core[m]->s, m);
        w.held[m] = std::shared_ptr<A>(a, Deleter{chunks[m - 1]});
        w.weak[m] = w.held[m];
        w.raw[m] = a;
    }
    w.lo.resize(w.nl); w.li.resize(w.nl); w.ls.resize(w.nl);
    {
        std::string me, op, ta;
        for (int m = 1; m <= w.N; m++) {
            if (w.mealy[m]) w.app(me, fmt("%d", m));
            std::string o;
            for (int a : w.opins[m]) w.app(o, fmt("%d", a));
            w.app(op, "[" + o + "]");
            w.app(ta, js(w.core[m]->tav));
        }
        emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"mealy\":[%s],\"opins\":[", n, me.c_str()) + op + "],\"ta\":[" + ta +
             fmt("],\"eps\":[0,%d],\"nl\":%d,\"np\":%d,\"nc\":%d}\n", X::sd ? 1 : 0, w.nl, w.P, w.NC));
    }
    // Build the structure
    w.graph = std::make_shared<G>();
    w.cps.resize(w.NC + 1); w.ca.resize(w.NC + 1); w.cc.resize(w.NC + 1);
    {
        std::vector<std::shared_ptr<C>> fresh;
        for (int i = 0; i < w.NC; i++) fresh.push_back(std::make_shared<C>());
        w.pr.shuffle(fresh);
        for (int i = 1; i <= w.NC; i++) w.cps[i] = fresh[i - 1];
    }
    auto drop = [&](int m) {
        if (!w.held[m]) return;
        emit(fmt("{\"e\":\"Drop\",\"m\":%d}\n", m));
        w.held[m].reset();
    };
    if (twin) {
        // The same parts and couplings in another order
        w.executive = r.range(1, w.N);
        std::vector<std::function<void()>> a, b;
        for (int m = 1; m <= w.N; m++) if (r.chance(9, 10)) {
            if (w.kind == 0) a.push_back([&w, m]() { w.graph->add_atomic(w.held[m]); w.cnt[m]++; });
            if (w.kind == 1) { int c = r.range(1, w.NC); w.ca[c].insert(m); a.push_back([&w, m, c]() { w.cps[c]->add_atomic(w.held[m]); }); }
            if (w.kind == 0) w.cnt[m] = 0;
        }
        for (int c = 1; c <= w.NC; c++) for (int d = c + 1; d <= w.NC; d++) if (r.chance(1, 2)) {
            w.cc[c].insert(d);
            b.push_back([&w, c, d]() { w.cps[c]->add_coupled_model(w.cps[d]); });
        }
        for (int i = 0; i < prof.pre; i++) {
            int x = r.range(1, w.P), y = r.range(1, w.P), m = r.range(1, w.N), c = r.range(1, std::max(1, w.NC));
            if (r.chance(2, 3)) {
                if (!w.pa_ok(x, m)) continue;
                if (w.kind == 0 && w.cnt.count(m)) b.push_back([&w, x, m]() { w.graph->connect(w.pins[x], w.held[m]); });
                if (w.kind == 1 && w.ca[c].count(m)) b.push_back([&w, x, m, c]() { w.cps[c]->create_coupling(w.pins[x], w.held[m]); });
            } else {
                if (!w.pp_ok(x, y)) std::swap(x, y);
                if (w.kind == 0) b.push_back([&w, x, y]() { w.graph->connect(w.pins[x], w.pins[y]); });
                if (w.kind == 1) b.push_back([&w, x, y, c]() { w.cps[c]->create_coupling(w.pins[x], w.pins[y]); });
            }
        }
        w.pr.shuffle(a);
        w.pr.shuffle(b);
        for (auto &f : a) f();
        for (auto &f : b) f();
    } else if (w.kind == 0) {
        for (int m = 1; m <= w.N; m++)
            if (r.chance(prof.keep, 100)) { w.log_op("add", 0, 0, m, 0, 0); w.graph->add_atomic(w.held[m]); w.cnt[m]++; }
        int k = big ? prof.pre * 3 : prof.pre;
        if (prof.wide) {
            auto pp = [&](int a, int b) {
                if (!w.pp_ok(a, b)) return;
                w.made_pp.push_back({a, b});
                w.log_op("pp", a, b, 0, 0, 0);
                w.graph->connect(w.pins[a], w.pins[b]);
            };
            auto pa = [&](int a, int m) {
                if (w.cnt[m] <= 0 || !w.pa_ok(a, m)) return;
                w.made_pa.push_back({a, m});
                w.log_op("pa", a, 0, m, 0, 0);
                w.graph->connect(w.pins[a], w.held[m]);
            };
            std::vector<int> ps, ms;
            for (int a = 1; a <= w.P; a++) ps.push_back(a);
            for (int m = 1; m <= w.N; m++) ms.push_back(m);
            r.shuffle(ps);
            r.shuffle(ms);
            // A path, perhaps with a loop at its end
            int len = r.chance(1, 2) ? w.P : r.range(3, w.P);
            if (r.chance(2, 3)) {
                for (int i = 0; i + 1 < len; i++) pp(ps[i], ps[i + 1]);
                if (r.chance(1, 3)) pp(ps[len - 1], ps[r.below(len)]);
                pa(ps[len - 1], ms[0]);
                for (int i = r.below(3); i > 0; i--) pa(ps[r.below(len)], ms[r.below(w.N)]);
            }
            // A pin to many models, and to many pins
            if (r.chance(1, 2)) for (int m : ms) pa(ps[0], m);
            if (r.chance(1, 2)) {
                int to = r.range(2, 20);
                for (int i = 1; i <= to && i < w.P; i++) { pp(ps[0], ps[i]); if (r.chance(1, 2)) pa(ps[i], ms[r.below(w.N)]); }
            }
            // A coupling that is made many times, among others
            if (r.chance(1, 2)) {
                int a = ps[0], b = ps[1], m = ms[w.N - 1], times = r.chance(1, 6) ? r.range(256, 300) : r.range(2, 20);
                if (times > 99 ? r.chance(2, 3) : r.chance(1, 3))
                    for (int i = 0; i < times; i++) { w.log_op("add", 0, 0, m, 0, 0); w.graph->add_atomic(w.held[m]); w.cnt[m]++; }
                int others = w.cnt[m] > 3 ? std::max(0, times - r.below(3)) : 0;
                bool toward = r.chance(1, 2);
                for (int i = 0; i < times; i++) { if (toward) pa(a, m); else pp(a, b); }
                pa(b, m);
                for (int i = r.below(times + 2); i > 0; i--) {
                    if (toward && w.held[m]) { w.log_op("dpa", a, 0, m, 0, 0); w.graph->disconnect(w.pins[a], w.held[m]); }
                    if (!toward) { w.log_op("dpp", a, b, 0, 0, 0); w.graph->disconnect(w.pins[a], w.pins[b]); }
                }
                for (; others > 0 && w.held[m]; others--) { w.log_op("rem", 0, 0, m, 0, 0); w.graph->remove_atomic(w.held[m]); w.cnt[m]--; }
            }
        }
        for (int i = 0; i < k; i++) {
            // Mostly connections at first
            if (r.chance(1, 2)) {
                int a = r.range(1, w.P), m = r.range(1, w.N);
                if (w.cnt[m] > 0 && w.pa_ok(a, m)) { w.log_op("pa", a, 0, m, 0, 0); w.graph->connect(w.pins[a], w.held[m]); }
            } else if (!big || r.chance(1, 10)) {
                w.op(r);
            }
            if (prof.probe > 40 && r.chance(1, 6)) w.probe();
        }
    } else if (w.kind == 1) {
        for (int m = 1; m <= w.N; m++) if (r.chance(85, 100)) {
            int c = r.range(1, w.NC);
            w.log_op("cadd", 0, 0, m, c, 0); w.cps[c]->add_atomic(w.held[m]); w.ca[c].insert(m);
        }
        for (int c = 1; c <= w.NC; c++) for (int d = 1; d <= w.NC; d++) if (c < d && r.chance(1, 2)) {
            w.log_op("ccadd", 0, 0, 0, c, d); w.cps[c]->add_coupled_model(w.cps[d]); w.cc[c].insert(d);
        }
        for (int i = 0; i < prof.pre; i++) w.op(r);
    }
    if (prof.drop && r.chance(1, 2)) for (int m = 1; m <= w.N; m++) if (r.chance(prof.drop, 200)) drop(m);
    char const* kinds[] = {"graph", "coupled", "atomic"};
    bool dead = false;
    for (int run = 0, runs = prof.again ? r.range(2, prof.again) : 1; run < runs; run++) {
        S* old = nullptr;
        w.run = run;
        if (run > 0) {
            // Another simulation of the same models
            if (dead && w.kind == 0 && w.waiting > 0) break;
            w.in_state = w.lazy_out = false;
            if (!dead && r.chance(1, 3) && w.sim->nextEventTime() < adevs_inf<T>()) {
                // Output that is not followed by a change of state
                try {
                    w.out_begin();
                    w.sim->computeNextOutput();
                    w.out_end();
                } catch (adevs::exception &ex) {
                    emit(fmt("{\"e\":\"OutThrow\",\"w\":%d,\"ad\":true}\n", w.idof(ex.who())));
                    dead = true;
                } catch (Boom &) {
                    emit("{\"e\":\"OutThrow\",\"w\":-1,\"ad\":false}\n");
                    dead = true;
                }
            }
            if (!dead && r.chance(1, 4)) {
                int a = r.range(1, w.P), v = r.range(1, 900);
                emit(fmt("{\"e\":\"Inject\",\"p\":%d,\"v\":%d}\n", a, v));
                PV x(w.pins[a], V(v));
                w.sim->injectInput(x);
            }
            bool all = true;
            for (int m = 1; m <= w.N; m++) all = all && w.held[m];
            if (!dead && all && r.chance(1, 3)) {
                // The old simulator is deleted when there is a new one
                old = w.sim;
            } else {
                emit(fmt("{\"e\":\"Over\",\"kind\":\"%s\"}\n", kinds[w.kind]));
                delete w.sim;
                w.sim = nullptr;
                for (int m = 1; m <= w.N; m++) {
                    if (w.weak[m].expired()) continue;
                    Core &c = *w.core[m];
                    if (c.tav < Tm{0, 0} ? !r.chance(4, 5) : !r.chance(1, 4)) continue;
                    c.s = mix(c.s, run);
                    c.tav = w.pick_ta(c.s, m);
                    emit(fmt("{\"e\":\"Revive\",\"m\":%d,\"ta\":%s}\n", m, js(c.tav).c_str()));
                }
                if (w.kind == 1 && r.chance(1, 2)) for (int i = r.range(1, 6); i > 0; i--) w.op(r);
            }
            dead = false;
            w.sim = nullptr;
        }
        int root = r.chance(3, 4) ? 1 : r.range(1, std::max(1, w.NC));
        std::vector<std::shared_ptr<Listener>> ls;
        for (int i = 0; i < w.nl; i++) ls.push_back(std::make_shared<Listener>(i));
        try {
            if (w.kind == 0) {
                emit("{\"e\":\"NewSim\",\"kind\":\"graph\",\"m\":0}\n");
                w.sim = new S(w.graph);
            } else if (w.kind == 1) {
                emit(fmt("{\"e\":\"NewSim\",\"kind\":\"coupled\",\"m\":%d}\n", root));
                w.sim = new S(w.cps[root]);
            } else {
                int m = 0;
                for (int i = 1; i <= w.N; i++) if (w.held[i] && (run == 0 || m == 0 || r.chance(1, 2))) m = i;
                if (m == 0) { delete old; emit("{\"e\":\"DelSim\"}\n"); w.graph.reset(); emit("{\"e\":\"End\"}\n"); mute = false; W = was; return; }
                emit(fmt("{\"e\":\"NewSim\",\"kind\":\"atomic\",\"m\":%d}\n", m));
                w.sim = new S(w.held[m]);
            }
            emit("{\"e\":\"Ready\",\"t\":" + js(X::un(w.sim->nextEventTime())) + "}\n");
        } catch (adevs::exception &ex) {
            emit(fmt("{\"e\":\"Throw\",\"w\":%d,\"ad\":true}\n", w.idof(ex.who())));
            dead = true;
        } catch (Boom &) {
            emit("{\"e\":\"Throw\",\"w\":-1,\"ad\":false}\n");
            dead = true;
        } catch (...) {
            emit("{\"e\":\"Throw\",\"w\":0,\"ad\":false}\n");
            dead = true;
        }
        delete old;
        w.started = true;
        Tm last;
        if (!dead) for (auto &l : ls) w.sim->addEventListener(l);
        for (int step = 0; step < prof.steps && !dead; step++) {
            hook();
            if (r.chance(prof.drop, 150)) drop(r.range(1, w.N));
            if (r.chance(prof.between, 100)) {
                int k = r.range(1, 4);
                for (int i = 0; i < k; i++) w.op(r);
            }
            if (r.chance(prof.probe, 100)) w.probe();
            Tm natural = X::un(w.sim->nextEventTime());
            // Something must happen now and then
            int inj = natural == TINF ? std::max(prof.inject, 60) : prof.inject;
            bool first = true, in_out = false;
            do {
                if (!first || prof.redo == 0 || r.chance(9, 10)) {
                    if (r.chance(inj, 100) || (natural == TINF && prof.inject > 0)) {
                        int k = r.range(1, 3);
                        for (int i = 0; i < k; i++) {
                            int a = r.range(1, w.P), v = r.range(1, 900);
                            emit(fmt("{\"e\":\"Inject\",\"p\":%d,\"v\":%d}\n", a, v));
                            PV x(w.pins[a], V(v));
                            w.sim->injectInput(x);
                        }
                    }
                    if (r.chance(prof.clear, 100)) {
                        emit("{\"e\":\"Clear\"}\n");
                        w.sim->clearInjectedInput();
                    }
                    if (r.chance(prof.setnext, 100) || (natural == TINF && prof.inject > 0 && r.chance(4, 5))) {
                        Tm hi = natural == TINF ? Tm{last.t + 6, 0} : natural;
                        Tm t = last;
                        if (hi.t > last.t) { t.t = last.t + r.range(0, int(hi.t - last.t)); t.k = 0; }
                        if (t.t == last.t) t.k = last.k;
                        if (X::sd && r.chance(1, 3)) t.k += r.below(2);
                        if (!(t < last) && !(natural < t)) {
                            emit("{\"e\":\"SetNext\",\"t\":" + js(t) + "}\n");
                            w.sim->setNextTime(X::mkj(t, r.next()));
                        }
                    }
                }
                first = false;
                // There are no steps at infinity
                if (!(w.sim->nextEventTime() < adevs_inf<T>())) break;
                bool exec = r.chance(prof.exec, 100);
                try {
                    w.out_begin();
                    in_out = true;
                    if (exec) {
                        w.lazy_out = true;
                        T t = w.sim->execNextEvent();
                        w.begin_state(true);
                        w.in_state = false;
                        last = X::un(t);
                        w.st_end(t);
                        break;
                    }
                    w.sim->computeNextOutput();
                    w.out_end();
                } catch (adevs::exception &ex) {
                    bool o = w.lazy_out || !w.in_state;
                    w.lazy_out = false;
                    if (o) emit(fmt("{\"e\":\"OutThrow\",\"w\":%d,\"ad\":true}\n", w.idof(ex.who())));
                    else emit(fmt("{\"e\":\"StThrow\",\"w\":%d,\"ad\":true}\n", w.idof(ex.who())));
                    dead = true;
                    break;
                } catch (Boom &) {
                    bool o = w.lazy_out || !w.in_state;
                    w.lazy_out = false;
                    emit(o ? "{\"e\":\"OutThrow\",\"w\":-1,\"ad\":false}\n" : "{\"e\":\"StThrow\",\"w\":-1,\"ad\":false}\n");
                    dead = true;
                    break;
                } catch (...) {
                    bool o = w.lazy_out || !w.in_state;
                    w.lazy_out = false;
                    emit(o ? "{\"e\":\"OutThrow\",\"w\":0,\"ad\":false}\n"
                                                   : "{\"e\":\"StThrow\",\"w\":0,\"ad\":false}\n");
                    dead = true;
                    break;
                }
                if (r.chance(prof.redo, 100)) continue;
                // Between output and state
                if (r.chance(prof.between, 300)) w.op(r);
                if (r.chance(prof.inject, 600)) {
                    int a = r.range(1, w.P), v = r.range(1, 900);
                    emit(fmt("{\"e\":\"Inject\",\"p\":%d,\"v\":%d}\n", a, v));
                    PV x(w.pins[a], V(v));
                    w.sim->injectInput(x);
                }
                try {
                    emit("{\"e\":\"StBegin\"}\n");
                    w.in_state = true;
                    T t = w.sim->computeNextState();
                    w.in_state = false;
                    last = X::un(t);
                    w.st_end(t);
                } catch (adevs::exception &ex) {
                    emit(fmt("{\"e\":\"StThrow\",\"w\":%d,\"ad\":true}\n", w.idof(ex.who())));
                    dead = true;
                } catch (Boom &) {
                    emit("{\"e\":\"StThrow\",\"w\":-1,\"ad\":false}\n");
                    dead = true;
                } catch (...) {
                    emit("{\"e\":\"StThrow\",\"w\":0,\"ad\":false}\n");
                    dead = true;
                }
                break;
            } while (true);
            (void)in_out;
            if (last.t > 900000) break;
            if (!dead && X::un(w.sim->nextEventTime()) == TINF && prof.inject == 0 && prof.between == 0) break;
        }
    }
    w.ops_allowed = false;
    emit("{\"e\":\"DelSim\"}\n");
    delete w.sim;
    w.sim = nullptr;
    w.graph.reset();
    w.cps.clear();
    for (int m = 1; m <= w.N; m++) drop(m);
    emit("{\"e\":\"End\"}\n");
    if (twin) {
        mute = false;
        emit(fmt("{\"e\":\"Fin\",\"dead\":%s}\n", dead ? "true" : "false"));
    }
    W = was;
}

// One line of a script.  Commands are separated by semicolons:
//   n MODELS PINS COUPLED       size
//   m MODEL MEALY BEH PINS TAS  a model: its output pins and time advances as lists
//   at MODEL N REQUEST          requested by the model in its N-th transition
//   boom MODEL N                the model throws an exception in its N-th transition
//   begin                       end of these declarations
//   new KIND ROOT               make the simulator for the graph, a coupled model or an atomic model
//                               (and another one, if there is one already)
//   over                        end of a simulation
//   rev MODEL TA                puts the model into another state
//   inj PIN VALUE, clr, set TIME, out, st, step, exec, drop MODEL, probe, quit (what follows is not
//                               recorded), or a request
// Times are t or t.k, and i is infinity.
static Tm script_time(std::string const &s) {
    if (s == "i") return TINF;
    Tm t;
    auto d = s.find('.');
    t.t = atol(s.c_str());
    if (d != std::string::npos) t.k = atol(s.c_str() + d + 1);
    return t;
}
static std::vector<std::string> split(std::string const &s, char c) {
    std::vector<std::string> v;
    std::string x;
    std::istringstream in(s);
    while (std::getline(in, x, c)) if (!x.empty()) v.push_back(x);
    return v;
}
static void script_scenario(std::string const &line, int n) {
    World w;
    W = &w;
    Script sc;
    w.sc = &sc;
    w.nl = 1;
    w.lo.resize(1); w.li.resize(1); w.ls.resize(1);
    w.ops_allowed = false;
    bool dead = false, made = false;
    auto ls = std::make_shared<Listener>(0);
    std::vector<std::string> decl_ta, decl_op;
    std::vector<std::shared_ptr<C>> fresh;
    auto drop = [&](int m) {
        if (!w.held[m]) return;
        emit(fmt("{\"e\":\"Drop\",\"m\":%d}\n", m));
        w.held[m].reset();
    };
    // After a step that was given up, the times depend on the order in which the models changed, so none can be chosen in advance
    // and it is not known whether there is another event
    bool unsure = false, outed = false;
    auto trouble = [&](adevs::exception* ex, int who = 0) {
        unsure = true;
        char const* e = !made ? "Throw" : w.lazy_out || !w.in_state ? "OutThrow" : "StThrow";
        w.lazy_out = false;
        emit(fmt("{\"e\":\"%s\",\"w\":%d,\"ad\":%s}\n", e, ex ? w.idof(ex->who()) : who, ex ? "true" : "false"));
        dead = true;
    };
    for (auto &cmd : split(line, ';')) {
        std::istringstream in(cmd);
        std::string k;
        in >> k;
        if (dead && k != "over") continue;
        if (k == "n") {
            in >> w.N >> w.P >> w.NC;
            w.held.resize(w.N + 1); w.weak.resize(w.N + 1); w.raw.resize(w.N + 1); w.core.resize(w.N + 1);
            w.mealy.resize(w.N + 1); w.opins.resize(w.N + 1);
            sc.beh.resize(w.N + 1); sc.ta.resize(w.N + 1); sc.calls.resize(w.N + 1);
            w.pins.resize(w.P + 1);
            for (int i = 1; i <= w.P; i++) w.pinid[w.pins[i]] = i;
            w.graph = std::make_shared<G>();
            w.cps.resize(w.NC + 1);
            for (int i = 1; i <= w.NC; i++) w.cps[i] = std::make_shared<C>();
        } else if (k == "m") {
            int m, me, be;
            std::string op, ta;
            in >> m >> me >> be >> op >> ta;
            w.mealy[m] = me != 0;
            sc.beh[m] = be;
            for (auto &x : split(op, ',')) if (x != "-") w.opins[m].push_back(atoi(x.c_str()));
            for (auto &x : split(ta, ',')) sc.ta[m].push_back(script_time(x));
        } else if (k == "boom") {
            int m, i;
            in >> m >> i;
            sc.boom.insert({m, i});
        } else if (k == "at") {
            int m, i;
            std::string rest;
            in >> m >> i;
            std::getline(in, rest);
            sc.at[{m, i}].push_back(rest);
        } else if (k == "begin") {
            // Models at increasing addresses
            size_t sz = std::max(sizeof(MooreModel), sizeof(MealyModel));
            std::vector<void*> chunks;
            for (int i = 0; i < w.N; i++) chunks.push_back(::operator new(sz));
            std::sort(chunks.begin(), chunks.end());
            std::string me, op, ta;
            for (int m = 1; m <= w.N; m++) {
                A* a;
                if (w.mealy[m]) { auto x = new (chunks[m - 1]) MealyModel(); a = x; w.core[m] = x; }
                else { auto x = new (chunks[m - 1]) MooreModel(); a = x; w.core[m] = x; }
                w.core[m]->id = m;
                w.core[m]->s = mix(n, m);
                w.core[m]->tav = sc.ta[m].empty() ? TINF : sc.ta[m][0];
                w.held[m] = std::shared_ptr<A>(a, Deleter{chunks[m - 1]});
                w.weak[m] = w.held[m];
                w.raw[m] = a;
                if (w.mealy[m]) w.app(me, fmt("%d", m));
                std::string o;
                for (int p : w.opins[m]) w.app(o, fmt("%d", p));
                w.app(op, "[" + o + "]");
                w.app(ta, js(w.core[m]->tav));
            }
            emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"mealy\":[%s],\"opins\":[", n, me.c_str()) + op + "],\"ta\":[" + ta +
                 fmt("],\"eps\":[0,%d],\"nl\":1,\"np\":%d,\"nc\":%d}\n", X::sd ? 1 : 0, w.P, w.NC));
        } else if (k == "new") {
            std::string kind;
            int root = 0;
            in >> kind >> root;
            emit(fmt("{\"e\":\"NewSim\",\"kind\":\"%s\",\"m\":%d}\n", kind.c_str(), root));
            std::unique_ptr<S> old(w.sim);
            w.sim = nullptr;
            made = w.in_state = w.lazy_out = outed = false;
            try {
                if (kind == "graph") w.sim = new S(w.graph);
                else if (kind == "coupled") w.sim = new S(w.cps[root]);
                else w.sim = new S(w.held[root]);
                emit("{\"e\":\"Ready\",\"t\":" + js(X::un(w.sim->nextEventTime())) + "}\n");
                w.sim->addEventListener(ls);
                made = true;
            } catch (adevs::exception &ex) { trouble(&ex);
            } catch (Boom &) { trouble(nullptr, -1);
            } catch (...) { trouble(nullptr); }
        } else if (k == "inj") {
            int p, v;
            in >> p >> v;
            emit(fmt("{\"e\":\"Inject\",\"p\":%d,\"v\":%d}\n", p, v));
            PV x(w.pins[p], V(v));
            w.sim->injectInput(x);
        } else if (k == "clr") {
            emit("{\"e\":\"Clear\"}\n");
            w.sim->clearInjectedInput();
        } else if (k == "set") {
            std::string t;
            in >> t;
            if (unsure) continue;
            emit("{\"e\":\"SetNext\",\"t\":" + js(script_time(t)) + "}\n");
            w.sim->setNextTime(X::mk(script_time(t)));
        } else if (k == "out" || k == "st" || k == "step" || k == "exec") {
            // There are no steps at infinity
            if (k != "st" && !(w.sim->nextEventTime() < adevs_inf<T>())) continue;
            if (k == "st" && unsure && !outed) continue;
            outed = k == "out";
            try {
                if (k == "exec") {
                    w.out_begin();
                    w.lazy_out = true;
                    T t = w.sim->execNextEvent();
                    w.begin_state(true);
                    w.in_state = false;
                    w.st_end(t);
                }
                if (k == "out" || k == "step") {
                    w.out_begin();
                    w.sim->computeNextOutput();
                    w.out_end();
                }
                if (k == "st" || k == "step") {
                    emit("{\"e\":\"StBegin\"}\n");
                    w.in_state = true;
                    T t = w.sim->computeNextState();
                    w.in_state = false;
                    w.st_end(t);
                }
            } catch (adevs::exception &ex) { trouble(&ex);
            } catch (Boom &) { trouble(nullptr, -1);
            } catch (...) { trouble(nullptr); }
        } else if (k == "over") {
            emit("{\"e\":\"Over\",\"kind\":\"graph\"}\n");
            delete w.sim;
            w.sim = nullptr;
            outed = false;
            dead = w.in_state = w.lazy_out = false;
        } else if (k == "rev") {
            int m;
            std::string t;
            in >> m >> t;
            w.core[m]->tav = script_time(t);
            emit(fmt("{\"e\":\"Revive\",\"m\":%d,\"ta\":%s}\n", m, js(w.core[m]->tav).c_str()));
        } else if (k == "quit") {
            mute = true;
        } else if (k == "drop") {
            int m;
            in >> m;
            drop(m);
        } else if (k == "probe") {
            w.probe();
        } else {
            w.script_op(cmd);
        }
    }
    emit("{\"e\":\"DelSim\"}\n");
    delete w.sim;
    w.sim = nullptr;
    w.graph.reset();
    w.cps.clear();
    for (int m = 1; m <= w.N; m++) drop(m);
    emit("{\"e\":\"End\"}\n");
    W = nullptr;
}

int main(int argc, char** argv) {
    if (argc < 6) return 2;
    if (argv[1] == std::string("script")) {
        std::vector<std::string> lines;
        std::string x;
        std::ifstream in(getenv("VERIF_SCRIPT"));
        while (std::getline(in, x)) lines.push_back(x);
        return run_scenarios(argv[5], atoi(argv[3]), std::min(atoi(argv[4]), int(lines.size())),
                             [&](int n) { mute = false; script_scenario(lines[n], n); });
    }
    if (std::string(argv[1]) == "worlds") {
        uint64_t seed = strtoull(argv[2], nullptr, 10);
        std::vector<Profile> ps;
        for (auto &p : profiles()) if (!p.twin && p.name != std::string("big")) ps.push_back(p);
        return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) {
            emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
            Rng r(mix(mix(seed, n), 31));
            std::vector<Pin> pins(8);
            bool common = r.chance(1, 2);
            uint64_t pick = r.next();
            run_worlds(mode_of(n), r.range(2, 4), r.next(), [&](int u) {
                mute = false;
                lend = common ? &pins : nullptr;
                Profile p = ps[mix(pick, u) % ps.size()];
                p.steps = std::min(p.steps, 8);
                scenario(p, mix(seed, u), n);
            });
        });
    }
    for (auto &p : profiles()) {
        if (p.name == std::string(argv[1])) {
            uint64_t seed = strtoull(argv[2], nullptr, 10);
            return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) {
                mute = false;
                if (p.twin) { scenario(p, seed, n, 1); scenario(p, seed, n, 2); } else scenario(p, seed, n);
            });
        }
    }
    fprintf(stderr, "unknown profile\n");
    return 2;
}
