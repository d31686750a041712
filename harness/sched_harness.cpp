// Random use of the event list, for SchedTrace.
//   sched_harness PROFILE SEED FIRST LAST OUTFILE
// With profile "script", scenario n is line n of the file named by VERIF_SCRIPT:
// "put MODEL TIME" and "pop", separated by semicolons.
#include <fstream>
#include <sstream>
#define VERIF_SCALE
#include "timetraits.h"
#ifndef TIME
#define TIME double
#endif
typedef TIME T;
typedef TT<T> X;
typedef adevs::Atomic<int, T> A;
struct Dummy : A {
    void delta_int() {}
    void delta_ext(T, std::list<adevs::PinValue<int>> const &) {}
    void delta_conf(std::list<adevs::PinValue<int>> const &) {}
    void output_func(std::list<adevs::PinValue<int>> &) {}
    T ta() { return adevs_inf<T>(); }
};
struct Use {
    std::vector<Dummy*> ms;
    adevs::Schedule<int, T>* q;
    Use(int N, adevs::Schedule<int, T>* q) : q(q) {
        for (int i = 0; i < N; i++) ms.push_back(new Dummy());
    }
    int id(A* a) {
        for (size_t i = 0; i < ms.size(); i++) if (ms[i] == a) return int(i) + 1;
        return 0;
    }
    void see() {
        auto im = q->visitImminent();
        std::string o;
        for (auto a : im) { if (!o.empty()) o += ","; o += fmt("%d", id(a)); }
        emit(fmt("{\"e\":\"See\",\"n\":%u,\"empty\":%s,\"t\":%s,\"m\":%d,\"im\":[", q->getSize(), q->empty() ? "true" : "false",
                 js(X::un(q->minPriority())).c_str(), q->empty() ? 0 : id(q->getMinimum())) + o + "]}\n");
    }
    void put(int m, Tm t, uint64_t noise) {
        q->schedule(ms[m - 1], X::mkj(t, noise));
        emit(fmt("{\"e\":\"Put\",\"m\":%d,\"t\":%s}\n", m, js(t).c_str()));
    }
    // Remove the first one, or take it out as the simulator does
    void pop(bool out) {
        int m = q->empty() ? 0 : id(q->getMinimum());
        if (out && m) q->schedule(ms[m - 1], adevs_inf<T>());
        else q->removeMinimum();
        emit(fmt("{\"e\":\"Pop\",\"m\":%d}\n", m));
    }
    ~Use() {
        delete q;
        for (auto m : ms) delete m;
    }
};
static void script_scenario(std::string const &line, int n) {
    Use u(12, new adevs::Schedule<int, T>(n % 2 ? 2 : 100));
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    std::istringstream in(line);
    std::string c;
    while (std::getline(in, c, ';')) {
        std::istringstream w(c);
        std::string k, t;
        int m = 0;
        w >> k >> m >> t;
        if (k == "put") u.put(m, t == "i" ? TINF : Tm{atol(t.c_str()), 0}, n);
        else if (k == "pop") u.pop(false);
    }
    for (int guard = 0; guard < 14 && !u.q->empty(); guard++) { u.see(); u.pop(n % 3 == 0); }
    u.see();
}
static void scenario(std::string prof, uint64_t seed, int n) {
    Rng r(mix(mix(seed, n), std::hash<std::string>()(prof)));
    bool large = prof == "large";
    int N = large ? r.range(50, 420) : r.range(1, 9);
    int ops = large ? N * 4 : r.range(10, 80);
    static const unsigned caps[] = {2, 3, 4, 7, 100};
    int cap = r.below(6);
    Use u(N, cap == 5 ? new adevs::Schedule<int, T>() : new adevs::Schedule<int, T>(caps[cap]));
    auto q = u.q;
    auto see = [&]() { u.see(); };
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    // Few different times make many ties, many make a deep order; time may run forward as in a simulation
    int range = r.chance(1, 2) ? r.range(1, 6) : r.range(6, 3000);
    bool forward = r.chance(1, 2);
    int pinf = r.chance(1, 3) ? 0 : r.range(1, 40), ppop = r.chance(1, 2) ? 0 : r.range(1, 30);
    long now = 0;
    see();
    for (int i = 0; i < ops; i++) {
        if (r.chance(ppop, 100)) {
            u.pop(false);
        } else {
            int m = r.below(N);
            if (large && i < N && r.chance(4, 5)) m = i;
            Tm t = {now + r.below(range), X::sd ? r.below(3) : 0};
            if (r.chance(pinf, 100)) t = TINF;
            // Move the first one, as a simulator does
            if (forward && !q->empty() && r.chance(1, 2) && !(large && i < N)) {
                m = u.id(q->getMinimum()) - 1;
                now = std::min(X::un(q->minPriority()).t, 50000L); // tolerant time is coarse later on
                if (t.t != INF_T) t.t = now + r.below(range);
            }
            if (m < 0) m = 0;
            u.put(m + 1, t, r.next());
        }
        if (!large || i % 9 == 0) see();
    }
    // Empty it in order
    see();
    int guard = N + 5;
    while (!q->empty() && guard-- > 0) {
        u.pop(r.chance(1, 2));
        if (!large || guard % 7 == 0) see();
    }
    see();
}
int main(int argc, char** argv) {
    if (argc < 6) return 2;
    std::string p = argv[1];
    if (p == "script") {
        std::vector<std::string> lines;
        std::string x;
        std::ifstream in(getenv("VERIF_SCRIPT"));
        while (std::getline(in, x)) lines.push_back(x);
        return run_scenarios(argv[5], atoi(argv[3]), std::min(atoi(argv[4]), int(lines.size())),
                             [&](int n) { script_scenario(lines[n], n); });
    }
    return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) { scenario(p, strtoull(argv[2], 0, 10), n); });
}
