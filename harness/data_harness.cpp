// Data types: super dense time, tolerant comparison, pins.
//   data_harness sdgrid|sdrand|fcmp|pins SEED FIRST LAST OUTFILE
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include "timetraits.h"

template <class B> struct Sd {
    typedef adevs::sd_time<B> T;
    typedef TT<T> X;
    static std::string b(bool x) { return x ? "true" : "false"; }
    static void pair(T x, T y) {
        Tm a = X::un(x), c = X::un(y);
        emit("{\"e\":\"Cmp\",\"a\":" + js(a) + ",\"b\":" + js(c) + ",\"r\":[" + b(x == y) + "," + b(x != y) + "," + b(x < y) + "," +
             b(x <= y) + "," + b(x > y) + "," + b(x >= y) + "]}\n");
        T q = x;
        q += y;
        emit("{\"e\":\"Add\",\"a\":" + js(a) + ",\"b\":" + js(c) + ",\"r\":" + js(X::un(x + y)) + ",\"q\":" + js(X::un(q)) + "}\n");
        T hi = c < a ? x : y, lo = c < a ? y : x;
        q = hi;
        q -= lo;
        T d = hi - lo;
        emit("{\"e\":\"Sub\",\"a\":" + js(X::un(hi)) + ",\"b\":" + js(X::un(lo)) + ",\"r\":" + js(X::un(d)) + ",\"q\":" + js(X::un(q)) +
             ",\"back\":" + js(X::un(lo + d)) + "}\n");
    }
    static void one(T x, T other, long t, long k) {
        Tm a = {t, k};
        T y = x, z;
        z = x;
        emit("{\"e\":\"Get\",\"a\":" + js(a) + ",\"r\":" + js(X::un(y)) + "}\n");
        emit("{\"e\":\"Get\",\"a\":" + js(a) + ",\"r\":" + js(X::un(z)) + "}\n");
        std::stringstream ss;
        ss.precision(17);
        ss << x << " " << other << x;
        T r1, r2, r3;
        ss >> r1 >> r2 >> r3;
        emit("{\"e\":\"IO\",\"a\":" + js(a) + ",\"r\":" + js(X::un(r1)) + "}\n");
        emit("{\"e\":\"IO\",\"a\":" + js(X::un(other)) + ",\"r\":" + js(X::un(r2)) + "}\n");
        emit("{\"e\":\"IO\",\"a\":" + js(a) + ",\"r\":" + js(X::un(r3)) + "}\n");
    }
    static void run(bool grid, Rng &r, int n) {
        emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
        bool top = adevs_zero<T>() == T() && adevs_sentinel<T>() < adevs_zero<T>() && adevs_zero<T>() < adevs_inf<T>();
        static const int R = 3, K = 3;
        std::vector<Tm> g;
        for (int t = 0; t <= R; t++) for (int k = 0; k <= K; k++) g.push_back({t, k});
        g.push_back({-1, 0}); g.push_back({-1, 2}); g.push_back({0, -1}); g.push_back({0, -2}); g.push_back({2, -1}); g.push_back({-2, -1});
        auto rnd = [&]() {
            Tm x;
            long m = r.chance(1, 2) ? 10 : r.chance(1, 2) ? 100000 : 400000000;
            x.t = long(r.below(int(m)));
            x.k = r.chance(1, 2) ? r.below(5) : r.below(400000000);
            return x;
        };
        if (grid) {
            Tm a = g[n % g.size()];
            T x = X::mk(a);
            one(x, X::mk(g[r.below(int(g.size()))]), a.t, a.k);
            for (auto &c : g) pair(x, X::mk(c));
        } else {
            for (int i = 0; i < 40; i++) {
                Tm a = rnd(), c = rnd();
                if (r.chance(1, 3)) c.t = a.t;
                T x = X::mk(a), y = X::mk(c);
                top = top && x < adevs_inf<T>() && !(adevs_inf<T>() < x) && adevs_sentinel<T>() < x;
                pair(x, y);
                one(x, y, a.t, a.k);
            }
        }
        emit("{\"e\":\"Const\",\"zero\":" + js(X::un(adevs_zero<T>())) + ",\"eps\":" + js(X::un(adevs_epsilon<T>())) + ",\"top\":" + b(top) + "}\n");
    }
};

static void fcmp(Rng &r, int n) {
    typedef adevs::double_fcmp F;
    emit(fmt("{\"e\":\"Reset\",\"n\":%d}\n", n));
    auto b = [](bool x) { return x ? "true" : "false"; };
    for (int i = 0; i < 120; i++) {
        long lim = r.chance(1, 3) ? 20 : r.chance(1, 2) ? 3000 : 900000;
        long n1 = r.range(int(-lim), int(lim)), n2 = r.range(int(-lim), int(lim));
        long em = r.below(r.chance(1, 2) ? 4 : 1000), ee = r.below(20);
        if (r.chance(2, 3)) {
            // Close to the limit
            int bits = 0;
            for (long v = labs(n1); v; v >>= 1) bits++;
            double d = double(em) * std::ldexp(1.0, bits - int(ee));
            if (d < 900000) n2 = n1 + (r.chance(1, 2) ? 1 : -1) * (long(std::floor(d)) + r.range(-1, 1));
        }
        if (r.chance(1, 10)) n2 = n1;
        if (r.chance(1, 12)) n2 = -n1;
        if (r.chance(1, 12)) n1 = 0;
        if (labs(n2) > 1000000) n2 = n2 > 0 ? 1000000 : -1000000;
        int z = r.chance(1, 3) ? 0 : r.range(-60, 60);
        double eps = double(em) * std::ldexp(1.0, -int(ee));
        double x1 = std::ldexp(double(n1), z), x2 = std::ldexp(double(n2), z);
        F::epsilon = eps;
        F f1(x1), f2;
        f2 = x2;
        F f3(f2), f4;
        f4 = f3;
        int c = F::fcmp(x1, x2, eps), cb = F::fcmp(x2, x1, eps);
        F s = f1 + f4, d = f1 - f4, s2 = f1, d2 = f1;
        s2 += f4;
        d2 -= f4;
        double ds = std::ldexp(double(s), -z), dd = std::ldexp(double(d), -z);
        if (double(s2) != double(s)) ds = 987654321;
        if (double(d2) != double(d)) dd = 987654321;
        emit(fmt("{\"e\":\"F\",\"n1\":%ld,\"n2\":%ld,\"em\":%ld,\"ee\":%ld,\"z\":%d,\"c\":%d,\"cb\":%d,\"ops\":[%s,%s,%s,%s,%s,%s,%s],\"sum\":%ld,\"dif\":%ld}\n",
                 n1, n2, em, ee, z, c, cb, b(f1 < f4), b(f1 <= f4), b(f1 > f4), b(f1 >= f4), b(f1 == f4), b(f1 < x2), b(f1 == x2),
                 clampl(ds), clampl(dd)));
    }
    F::epsilon = 1e-6;
}

static void pins(Rng &r, int n) {
    typedef adevs::pin_t Pin;
    typedef adevs::PinValue<int> PV;
    static const int K = 7;
    emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"slots\":%d}\n", n, K));
    auto b = [](bool x) { return x ? "true" : "false"; };
    std::vector<PV> v(K);
    std::vector<int> val(K, 0);
    for (int i = 0; i < K; i++) { v[i].value = 0; }
    // Slots start with fresh pins
    for (int i = 0; i < K; i++) { v[i].pin = Pin(); emit(fmt("{\"e\":\"New\",\"i\":%d}\n", i + 1)); }
    for (int s = 0; s < 60; s++) {
        int i = r.below(K), j = r.below(K);
        switch (r.below(8)) {
            case 0: v[i].pin = Pin(); emit(fmt("{\"e\":\"New\",\"i\":%d}\n", i + 1)); break;
            case 1: { Pin p(v[j].pin); v[i].pin = p; emit(fmt("{\"e\":\"Copy\",\"i\":%d,\"j\":%d}\n", i + 1, j + 1)); break; }
            case 2: { PV c(v[j]); v[i] = c; val[i] = val[j];
                      emit(fmt("{\"e\":\"Copy\",\"i\":%d,\"j\":%d}\n", i + 1, j + 1));
                      emit(fmt("{\"e\":\"Val\",\"v\":%d,\"r\":%d}\n", val[i], v[i].value)); break; }
            case 3: { val[i] = r.below(1000); PV c(v[j].pin, val[i]); v[i] = c;
                      emit(fmt("{\"e\":\"Copy\",\"i\":%d,\"j\":%d}\n", i + 1, j + 1));
                      emit(fmt("{\"e\":\"Val\",\"v\":%d,\"r\":%d}\n", val[i], v[i].value)); break; }
            case 4: { // A detour through containers
                      std::list<PV> l; l.push_back(v[j]); std::map<Pin, PV> m; m[v[j].pin] = v[j];
                      v[i] = r.chance(1, 2) ? l.front() : m.begin()->second; val[i] = val[j];
                      emit(fmt("{\"e\":\"Copy\",\"i\":%d,\"j\":%d}\n", i + 1, j + 1));
                      emit(fmt("{\"e\":\"Val\",\"v\":%d,\"r\":%d}\n", val[i], v[i].value)); break; }
            default: {
                Pin const &p = v[i].pin, &q = v[j].pin;
                emit(fmt("{\"e\":\"Cmp\",\"i\":%d,\"j\":%d,\"r\":[%s,%s,%s,%s,%s,%s]}\n", i + 1, j + 1, b(p == q), b(p != q), b(p < q),
                         b(p <= q), b(p > q), b(p >= q)));
            }
        }
    }
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
        Pin const &p = v[i].pin, &q = v[j].pin;
        emit(fmt("{\"e\":\"Cmp\",\"i\":%d,\"j\":%d,\"r\":[%s,%s,%s,%s,%s,%s]}\n", i + 1, j + 1, b(p == q), b(p != q), b(p < q),
                 b(p <= q), b(p > q), b(p >= q)));
    }
    // Many pins, also from several threads
    int threads = n % 10 == 0 ? 4 : 0, per = n % 10 == 0 ? 3000 : 100;
    std::vector<std::vector<Pin>> made(std::max(threads, 1));
    if (threads) {
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; t++) ts.emplace_back([&, t]() { for (int k = 0; k < per; k++) made[t].push_back(Pin()); });
        for (auto &t : ts) t.join();
    } else {
        made[0].resize(per);
    }
    std::vector<Pin> all;
    for (auto &m : made) for (auto &p : m) all.push_back(p);
    for (int i = 0; i < K; i++) {
        bool dup = false;
        for (int j = 0; j < i; j++) if (v[j].pin == v[i].pin) dup = true;
        if (!dup) all.push_back(v[i].pin);
    }
    std::sort(all.begin(), all.end());
    int distinct = all.empty() ? 0 : 1;
    for (size_t i = 1; i < all.size(); i++) if (all[i] != all[i - 1] && !(all[i] == all[i - 1])) distinct++;
    emit(fmt("{\"e\":\"Bulk\",\"made\":%d,\"distinct\":%d}\n", int(all.size()), distinct));
}

int main(int argc, char** argv) {
    if (argc < 6) return 2;
    std::string p = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) {
        Rng r(mix(mix(seed, n), std::hash<std::string>()(p)));
        if (p == "sdgrid" || p == "sdrand") {
            // Scenarios alternate between the number types
            bool g = p == "sdgrid";
            if (n % 3 == 0) Sd<int>::run(g, r, n / 3);
            else if (n % 3 == 1) Sd<long>::run(g, r, n / 3);
            else Sd<double>::run(g, r, n / 3);
        } else if (p == "fcmp") fcmp(r, n);
        else pins(r, n);
    });
}
