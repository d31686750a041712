// Random use of the event list of schedule2.h, for Sched2Trace.
//   sched2_harness PROFILE SEED FIRST LAST OUTFILE
// With profile "script", scenario n is line n of the file named by VERIF_SCRIPT.
#include <cassert>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#define VERIF_SCHEDULE2
#define VERIF_SCALE
#include "timetraits.h"
#ifndef TIME
#define TIME double
#endif
typedef TIME T;
typedef TT<T> X;
typedef adevs::Atomic<int, T> A;
struct Dummy : A {
    T when;
    Dummy() : when(adevs_inf<T>()) {}
    void delta_int() {}
    void delta_ext(T, std::list<adevs::PinValue<int>> const &) {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) {}
    void output_func(std::list<adevs::PinValue<int>> &) {}
    T ta() { return when; }
};
struct Use {
    std::vector<std::shared_ptr<Dummy>> ms;
    std::vector<Tm> want;
    adevs::Schedule<int, T>* q;
    Use(int N) : want(N, TINF), q(new adevs::Schedule<int, T>()) {
        for (int i = 0; i < N; i++) ms.push_back(std::make_shared<Dummy>());
    }
    int id(std::shared_ptr<A> const &a) {
        for (size_t i = 0; i < ms.size(); i++) if (ms[i] == a) return int(i) + 1;
        return 0;
    }
    // Changes the time advance without telling the list
    void set(int m, Tm t, uint64_t noise) {
        want[m - 1] = t;
        ms[m - 1]->when = X::mkj(t, noise);
    }
    void see() {
        std::string o;
        if (!(q->get_minimum() == adevs_inf<T>())) {
            for (auto a : q->get_imminent()) { if (!o.empty()) o += ","; o += fmt("%d", id(a)); }
        }
        auto first = q->get_next();
        emit(fmt("{\"e\":\"See\",\"n\":%ld,\"empty\":%s,\"t\":%s,\"m\":%d,\"im\":[", long(q->size()), q->empty() ? "true" : "false",
                 js(X::un(q->get_minimum())).c_str(), first ? id(first) : 0) + o + "]}\n");
    }
    template <class F> void call(char const* e, int m, F f) {
        bool ok = true;
        try { f(); } catch (adevs::exception &) { ok = false; }
        emit(fmt("{\"e\":\"%s\",\"m\":%d,\"t\":%s,\"ok\":%s}\n", e, m, js(want[m - 1]).c_str(), ok ? "true" : "false"));
    }
    void add(int m) { call("Add", m, [&]() { q->add(ms[m - 1]); }); }
    void rm(int m) { call("Rm", m, [&]() { q->remove(ms[m - 1]); }); }
    void upd(int m) { call("Upd", m, [&]() { q->update(ms[m - 1]); }); }
    void all() {
        q->update_all();
        std::string o;
        for (auto t : want) { if (!o.empty()) o += ","; o += js(t); }
        emit("{\"e\":\"All\",\"ta\":[" + o + "]}\n");
    }
    void pop() {
        if (q->empty()) return;
        int m = id(q->get_next());
        q->remove_next();
        emit(fmt("{\"e\":\"Next\",\"m\":%d}\n", m));
    }
    void clear() { q->clear(); emit("{\"e\":\"Clear\"}\n"); }
    ~Use() { delete q; }
};
static void script_scenario(std::string const &line, int n) {
    Use u(12);
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    std::istringstream in(line);
    std::string c;
    while (std::getline(in, c, ';')) {
        std::istringstream w(c);
        std::string k, t;
        int m = 0;
        w >> k >> m >> t;
        if (!t.empty()) u.set(m, t == "i" ? TINF : Tm{atol(t.c_str()), 0}, n);
        if (k == "add") u.add(m);
        else if (k == "upd") u.upd(m);
        else if (k == "rm") u.rm(m);
        else if (k == "all") u.all();
        else if (k == "pop") u.pop();
        else if (k == "clear") u.clear();
    }
    u.see();
    // What is in it, in order, and where each model is
    if (n % 2)
        for (int m = 1; m <= 12; m++) { u.rm(m); u.see(); }
    else
        for (int guard = 0; guard < 14 && !u.q->empty(); guard++) { u.pop(); u.see(); }
}
static void scenario(std::string prof, uint64_t seed, int n) {
    Rng r(mix(mix(seed, n), std::hash<std::string>()(prof)));
    bool large = prof == "large";
    int N = large ? r.range(50, 400) : r.range(1, 10);
    int ops = large ? N * 4 : r.range(10, 80);
    Use u(N);
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    int range = r.chance(1, 2) ? r.range(1, 6) : r.range(6, 3000);
    int pinf = r.chance(1, 3) ? 0 : r.range(1, 40);
    int wadd = r.range(1, 6), wrm = r.range(0, 4), wupd = r.range(0, 6), wpop = r.range(0, 4), wset = r.range(0, 3), wall = r.range(0, 2);
    bool forward = r.chance(1, 2);
    long now = 0;
    auto time = [&]() {
        Tm t = {now + r.below(range), X::sd ? r.below(3) : 0};
        return r.chance(pinf, 100) ? TINF : t;
    };
    u.see();
    for (int i = 0; i < ops; i++) {
        int m = 1 + (large && i < N ? i : r.below(N));
        int k = large && i < N ? 0 : r.below(wadd + wrm + wupd + wpop + wset + wall);
        if (forward && !u.q->empty()) {
            Tm f = X::un(u.q->get_minimum());
            if (f.t != INF_T) now = std::min(f.t, 50000L);
            if (r.chance(1, 2) && !(large && i < N)) { // as a simulator does
                m = std::max(1, u.id(u.q->get_next()));
                k = wadd + wrm;
                if (wupd == 0) k = r.below(wadd + wrm);
            }
        }
        if (k < wadd) { u.set(m, time(), r.next()); u.add(m); }
        else if ((k -= wadd) < wrm) u.rm(m);
        else if ((k -= wrm) < wupd) { u.set(m, time(), r.next()); u.upd(m); }
        else if ((k -= wupd) < wpop) u.pop();
        else if ((k -= wpop) < wset) u.set(m, time(), r.next());
        else u.all();
        if (r.chance(1, 200)) u.clear();
        if (!large || i % 9 == 0) u.see();
    }
    u.see();
    for (int guard = N + 5; !u.q->empty() && guard > 0; guard--) {
        if (r.chance(1, 3)) u.rm(1 + r.below(N));
        else u.pop();
        if (!large || guard % 7 == 0) u.see();
    }
    u.see();
}
int main(int argc, char** argv) {
    if (argc < 6) return 2;
    std::string p = argv[1];
    if (p == "script") {
        std::vector<std::string> lines;
        std::string x;
        std::ifstream in(getenv("VERIF_SCRIPT"));
        while (std::getline(in, x)) lines.push_back(x);
        return run_scenarios(argv[5], atoi(argv[3]), std::min(atoi(argv[4]), int(lines.size())),
                             [&](int n) { script_scenario(lines[n], n); });
    }
    return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) { scenario(p, strtoull(argv[2], 0, 10), n); });
}
