// The FMI wrapper: its calls of an FMU, and the calls that are made of it, directly or by
// a hybrid model with real solvers.
//   fmi_harness direct|hybrid|load SEED FIRST LAST OUTFILE
//   fmi_harness worlds ...   several in one process
//   VERIF_SCRIPT=FILE fmi_harness script SEED FIRST LAST OUTFILE
// A script (see spec/FmiMC.tla) consists of
//   fmu NX NZ CAP             the FMU
//   init|int|ext|conf A       a call and the answer of the FMU to it: number of iterations,
//                             next event in 1/16 (-1 none, -2 leave the answer as it is), new states?
//   adv D ENTER der|ind|jac.. a trial step with evaluations, and a step of length D/16; does the FMU want an event?
#include <fstream>
#include <sstream>
#include <cfloat>
#include <map>
#include "common.h"
#include "adevs/adevs.h"
#include "adevs/solvers/corrected_euler.h"
#include "adevs/solvers/event_locators.h"
#include "adevs/solvers/hybrid.h"
#include "adevs/solvers/rk_45.h"
#include "adevs/solvers/trap.h"
#include "adevs/solvers/fmi.h"
double adevs::double_fcmp::epsilon = 0.0;
using namespace adevs;
typedef std::list<PinValue<int>> Bag;

static std::string num(double x) { return x == 0 ? "\"0\"" : fmt("\"%a\"", x); }
static std::string vec(double const* q, int n) {
    std::string s = "[";
    for (int i = 0; i < n; i++) s += (i ? "," : "") + num(q[i]);
    return s + "]";
}
// Times as whole numbers for comparison
static long ti(double t) { return t > 1500 ? 2000000000L : t < -1500 ? -2000000000L : long(std::floor(t * 1048576.0)); }

// The FMU
struct fmi_import_context_t { int x; };
struct fmi2_import_variable_t { std::string name; unsigned vr; fmi2_base_type_enu_t type; };
struct fmi2_import_variable_list_t { std::vector<fmi2_import_variable_t> v; };
struct fmi2_import_t {
    int n, nz, version, kind;
    bool cap, parses;
    uint64_t key;
    double A[8][8], c[8], time, x[8], par[2], next, zoff[2];
    int iv[2], bv[2], iter, count;
    unsigned off;  // References of parameters, integers and booleans start here
    bool quiet;
    std::vector<fmi2_import_variable_t> vars;
    bool tmp_made;
    // Answers that are given by a script
    bool scripted = false, enter = false;
    int iters = 1, dt = -1;
    bool change = false;
    double der(double const* q, double t, int i) const {
        double s = c[i];
        for (int j = 0; j < n; j++) s += A[i][j] * q[j];
        return s + (i == 0 ? 0.125 * q[0] * par[1] : 0.0);
    }
    double dder(int i, int j) const { return A[i][j] + (i == 0 && j == 0 ? 0.125 * par[1] : 0.0); }
    double z(double const* q, double t, int i) const { return (i == 0 ? q[0] : q[n - 1] - 0.25 * t) - zoff[i]; }
};
static thread_local fmi2_import_t* F = nullptr;
static fmi_import_context_t CTX;
static thread_local Rng var_rng(1);
#define CALL(k) emit("{\"e\":\"" k "\"}\n")

extern "C" {
void jm_default_logger(jm_callbacks*, jm_string, jm_log_level_enu_t, jm_string) {}
char* fmi_import_mk_temp_dir(jm_callbacks* cb, char const*, char const*) {
    CALL("mTmp");
    char* s = (char*)malloc(32);
    strcpy(s, "adevs-verif-nowhere");
    return s;
}
jm_status_enu_t fmi_import_rmdir(jm_callbacks*, char const* p) {
    emit(fmt("{\"e\":\"mRmTmp\",\"ok\":%s}\n", p && !strcmp(p, "adevs-verif-nowhere") ? "true" : "false"));
    return jm_status_success;
}
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* cb) {
    emit(fmt("{\"e\":\"mCtx\",\"ok\":%s}\n", cb && cb->malloc && cb->free ? "true" : "false"));
    return &CTX;
}
void fmi_import_free_context(fmi_import_context_t* c) { CALL("mFreeCtx"); }
fmi_version_enu_t fmi_import_get_fmi_version(fmi_import_context_t*, char const* file, char const*) {
    return strcmp(file, "some.fmu") ? fmi_version_unknown_enu : fmi_version_enu_t(F->version);
}
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*, char const*, fmi2_xml_callbacks_t*) {
    emit(fmt("{\"e\":\"mParse\",\"ok\":%s}\n", F->parses ? "true" : "false"));
    return F->parses ? F : nullptr;
}
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* f) { return fmi2_fmu_kind_enu_t(f->kind); }
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t*, fmi2_fmu_kind_enu_t k, fmi2_callback_functions_t const*) {
    emit(fmt("{\"e\":\"mDll\",\"me\":%s}\n", k == fmi2_fmu_kind_me ? "true" : "false"));
    return jm_status_success;
}
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t*, fmi2_string_t, fmi2_type_t t, fmi2_string_t, fmi2_boolean_t) {
    emit(fmt("{\"e\":\"mInst\",\"me\":%s}\n", t == fmi2_model_exchange ? "true" : "false"));
    return jm_status_success;
}
size_t fmi2_import_get_number_of_continuous_states(fmi2_import_t* f) { return f->n; }
size_t fmi2_import_get_number_of_event_indicators(fmi2_import_t* f) { return f->nz; }
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* f, int) {
    auto l = new fmi2_import_variable_list_t;
    l->v = f->vars;
    return l;
}
void fmi2_import_free_variable_list(fmi2_import_variable_list_t* l) { delete l; }
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t* l) { return l->v.size(); }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* l, size_t i) { return &l->v[i]; }
char const* fmi2_import_get_variable_name(fmi2_import_variable_t* v) { return v->name.c_str(); }
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t* v) { return v->vr; }
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t* v) { return v->type; }
fmi2_status_t fmi2_import_set_debug_logging(fmi2_import_t*, fmi2_boolean_t, size_t, fmi2_string_t const*) { return fmi2_status_ok; }
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t*, fmi2_boolean_t def, fmi2_real_t tol, fmi2_real_t start, fmi2_boolean_t stopdef, fmi2_real_t) {
    emit(fmt("{\"e\":\"mSetup\",\"def\":%d,\"stop\":%d,\"tol\":", def != 0, stopdef != 0) + num(tol) + ",\"start\":" + num(start) + "}\n");
    return fmi2_status_ok;
}
unsigned int fmi2_import_get_capability(fmi2_import_t* f, fmi2_capabilities_enu_t c) {
    return c == fmi2_me_providesDirectionalDerivatives ? f->cap : 1;
}
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t*) { CALL("mEnterInit"); return fmi2_status_ok; }
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* f) { CALL("mExitInit"); f->iter = 0; return fmi2_status_ok; }
fmi2_status_t fmi2_import_new_discrete_states(fmi2_import_t* f, fmi2_event_info_t* i) {
    hook();
    Rng r(mix(f->key, f->count++));
    if (f->scripted) {
        bool more = ++f->iter < f->iters;
        f->next = DBL_MAX;
        if (f->change) for (int k = 0; k < f->n; k++) f->x[k] += 1;
        if (f->dt != -2) {
            i->newDiscreteStatesNeeded = more;
            i->terminateSimulation = 0;
            i->nominalsOfContinuousStatesChanged = 0;
            i->valuesOfContinuousStatesChanged = f->change;
            i->nextEventTimeDefined = !more && f->dt >= 0;
            i->nextEventTime = i->nextEventTimeDefined ? f->time + f->dt / 16.0 : -1.0;
            if (i->nextEventTimeDefined) f->next = i->nextEventTime;
        }
        emit(fmt("{\"e\":\"mNew\",\"more\":%s,\"next\":%ld,\"x\":", more ? "true" : "false", ti(f->next)) + vec(f->x, f->n) + "}\n");
        return fmi2_status_ok;
    }
    if (f->iter == 0) {
        f->quiet = r.chance(1, 4);
        f->next = DBL_MAX;
    }
    bool more = f->iter < 3 && r.chance(1, 3);
    if (f->quiet && f->iter == 0 && !more) {
        // Some FMUs leave the fields alone if nothing happens
    } else {
        f->quiet = false;
        i->newDiscreteStatesNeeded = more;
        i->terminateSimulation = 0;
        i->nominalsOfContinuousStatesChanged = 0;
        i->valuesOfContinuousStatesChanged = 1;
        if (r.chance(1, 2)) for (int k = 0; k < f->n; k++) f->x[k] = std::floor(f->x[k] * 4 + 0.5) / 4 + (r.chance(1, 3) ? r.range(-4, 4) / 4.0 : 0);
        if (r.chance(1, 2)) for (int k = 0; k < 2; k++) f->zoff[k] = r.range(-8, 8) / 4.0;
        bool def = r.chance(2, 3);
        i->nextEventTimeDefined = def;
        i->nextEventTime = def ? (r.chance(1, 8) && f->count % 3 == 0 ? f->time : std::floor(f->time * 8) / 8 + r.range(1, 16) / 8.0) : r.chance(1, 2) ? -1.0 : f->time + 0.125;
        f->next = def ? i->nextEventTime : DBL_MAX;
    }
    f->iter++;
    emit(fmt("{\"e\":\"mNew\",\"more\":%s,\"next\":%ld,\"x\":", more ? "true" : "false", ti(f->next)) + vec(f->x, f->n) + "}\n");
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_enter_continuous_time_mode(fmi2_import_t*) { CALL("mEnterCont"); return fmi2_status_ok; }
fmi2_status_t fmi2_import_enter_event_mode(fmi2_import_t* f) { CALL("mEnterEvent"); f->iter = 0; return fmi2_status_ok; }
fmi2_status_t fmi2_import_set_time(fmi2_import_t* f, fmi2_real_t t) {
    emit("{\"e\":\"mTime\",\"t\":" + num(t) + fmt(",\"ti\":%ld}\n", ti(t)));
    f->time = t;
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_set_continuous_states(fmi2_import_t* f, fmi2_real_t const* x, size_t n) {
    emit(fmt("{\"e\":\"mStates\",\"n\":%d,\"x\":", int(n)) + vec(x, std::min<int>(n, f->n)) + "}\n");
    for (size_t i = 0; i < std::min<size_t>(n, f->n); i++) f->x[i] = x[i];
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_continuous_states(fmi2_import_t* f, fmi2_real_t* x, size_t n) {
    emit(fmt("{\"e\":\"mGet\",\"n\":%d}\n", int(n)));
    for (size_t i = 0; i < std::min<size_t>(n, f->n); i++) x[i] = f->x[i];
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_derivatives(fmi2_import_t* f, fmi2_real_t* dx, size_t n) {
    hook();
    for (size_t i = 0; i < std::min<size_t>(n, f->n); i++) dx[i] = f->der(f->x, f->time, i);
    emit(fmt("{\"e\":\"mDer\",\"n\":%d,\"v\":", int(n)) + vec(dx, std::min<int>(n, f->n)) + "}\n");
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_get_event_indicators(fmi2_import_t* f, fmi2_real_t* z, size_t n) {
    hook();
    for (size_t i = 0; i < std::min<size_t>(n, f->nz); i++) z[i] = f->z(f->x, f->time, i);
    emit(fmt("{\"e\":\"mInd\",\"n\":%d,\"v\":", int(n)) + vec(z, std::min<int>(n, f->nz)) + "}\n");
    return fmi2_status_ok;
}
fmi2_status_t fmi2_import_completed_integrator_step(fmi2_import_t* f, fmi2_boolean_t, fmi2_boolean_t* enter, fmi2_boolean_t* term) {
    Rng r(mix(f->key + 5, f->count++));
    *enter = f->scripted ? f->enter : r.chance(1, 6);
    *term = 0;
    emit(fmt("{\"e\":\"mComp\",\"enter\":%s}\n", *enter ? "true" : "false"));
    return fmi2_status_ok;
}
// dz = (derivatives of the variables z with respect to the variables v) dv
fmi2_status_t fmi2_import_get_directional_derivative(fmi2_import_t* f, fmi2_value_reference_t const* v, size_t nv,
                                                     fmi2_value_reference_t const* z, size_t nz, fmi2_real_t const* dv, fmi2_real_t* dz) {
    bool ok = true;
    for (size_t a = 0; a < nz; a++) {
        double s = 0;
        for (size_t b = 0; b < nv; b++) {
            if (int(v[b]) >= f->n || int(z[a]) < f->n || int(z[a]) >= 2 * f->n) ok = false;
            else s += f->dder(z[a] - f->n, v[b]) * dv[b];
        }
        dz[a] = s;
    }
    emit(fmt("{\"e\":\"mDir\",\"ok\":%s}\n", ok ? "true" : "false"));
    return fmi2_status_ok;
}
#define ACCESS(NAME, T, SLOT)                                                                                                   \
    fmi2_status_t fmi2_import_get_##NAME(fmi2_import_t* f, fmi2_value_reference_t const* vr, size_t n, T* v) {                  \
        for (size_t i = 0; i < n; i++) {                                                                                        \
            v[i] = SLOT(f, vr[i]);                                                                                              \
            emit(fmt("{\"e\":\"mGetVar\",\"k\":\"" #NAME "\",\"vr\":%u,\"v\":", vr[i]) + num(v[i]) + "}\n");                    \
        }                                                                                                                       \
        return fmi2_status_ok;                                                                                                  \
    }                                                                                                                           \
    fmi2_status_t fmi2_import_set_##NAME(fmi2_import_t* f, fmi2_value_reference_t const* vr, size_t n, T const* v) {            \
        for (size_t i = 0; i < n; i++) {                                                                                        \
            set_##SLOT(f, vr[i], v[i]);                                                                                         \
            emit(fmt("{\"e\":\"mSetVar\",\"k\":\"" #NAME "\",\"vr\":%u,\"v\":", vr[i]) + num(v[i]) + ",\"x\":" + vec(f->x, f->n) + "}\n"); \
        }                                                                                                                       \
        return fmi2_status_ok;                                                                                                  \
    }
static double rslot(fmi2_import_t* f, unsigned vr) {
    if (vr < unsigned(f->n)) return f->x[vr];
    if (vr < unsigned(2 * f->n)) return f->der(f->x, f->time, vr - f->n);
    return vr - 2 * f->n - f->off < 2 ? f->par[vr - 2 * f->n - f->off] : 0;
}
static void set_rslot(fmi2_import_t* f, unsigned vr, double v) {
    if (vr < unsigned(f->n)) f->x[vr] = v;
    else if (vr - 2 * f->n - f->off < 2) f->par[vr - 2 * f->n - f->off] = v;
}
static int islot(fmi2_import_t* f, unsigned vr) { return vr - f->off < 2 ? f->iv[vr - f->off] : 0; }
static void set_islot(fmi2_import_t* f, unsigned vr, int v) { if (vr - f->off < 2) f->iv[vr - f->off] = v; }
static int bslot(fmi2_import_t* f, unsigned vr) { return vr - f->off < 2 ? f->bv[vr - f->off] : 0; }
static void set_bslot(fmi2_import_t* f, unsigned vr, int v) { if (vr - f->off < 2) f->bv[vr - f->off] = v; }
ACCESS(real, fmi2_real_t, rslot)
ACCESS(integer, fmi2_integer_t, islot)
ACCESS(boolean, fmi2_boolean_t, bslot)
fmi2_status_t fmi2_import_terminate(fmi2_import_t*) { CALL("mTerm"); return fmi2_status_ok; }
fmi2_status_t fmi2_import_reset(fmi2_import_t*) { CALL("mReset"); return fmi2_status_ok; }
void fmi2_import_free_instance(fmi2_import_t*) { CALL("mFreeInst"); }
void fmi2_import_destroy_dllfmu(fmi2_import_t*) { CALL("mDestroy"); }
void fmi2_import_free(fmi2_import_t*) { CALL("mFree"); }
}

// The wrapper with its calls recorded
struct Model : ModelExchange<int> {
    typedef ModelExchange<int> Base;
    bool again;
    // The wrapper may use its own methods; what they do then is part of the first call
    int inside = 0;
    struct In {
        Model &m;
        bool first;
        explicit In(Model &m) : m(m), first(m.inside++ == 0) {}
        ~In() { m.inside--; }
    };
    Model(char const* file, double tol) : Base(file, tol), again(false) {}
    int N() const { return numVars(); }
    void init(double* q) {
        In in(*this);
        if (!in.first) return Base::init(q);
        CALL("InitB");
        Base::init(q);
        emit("{\"e\":\"InitE\",\"q\":" + vec(q, N()) + "}\n");
    }
    void der_func(double const* q, double* dq) {
        In in(*this);
        if (!in.first) return Base::der_func(q, dq);
        CALL("DerB");
        Base::der_func(q, dq);
        emit("{\"e\":\"DerE\",\"q\":" + vec(q, N()) + ",\"v\":" + vec(dq, N()) + "}\n");
    }
    void state_event_func(double const* q, double* z) {
        In in(*this);
        if (!in.first) return Base::state_event_func(q, z);
        CALL("IndB");
        Base::state_event_func(q, z);
        emit("{\"e\":\"IndE\",\"q\":" + vec(q, N()) + ",\"v\":" + vec(z, numEvents()) + "}\n");
    }
    double time_event_func(double const* q) {
        In in(*this);
        if (!in.first) return Base::time_event_func(q);
        double t = Base::time_event_func(q);
        emit(fmt("{\"e\":\"Tev\",\"now\":%ld,\"dt\":%ld}\n", ti(q[N() - 1]), ti(t)));
        return t;
    }
    void postStep(double* q) {
        In in(*this);
        if (!in.first) return Base::postStep(q);
        emit(fmt("{\"e\":\"PostB\",\"adv\":%s,\"ti\":%ld}\n", q[N() - 1] > get_time() ? "true" : "false", ti(q[N() - 1])));
        Base::postStep(q);
        emit("{\"e\":\"PostE\",\"q\":" + vec(q, N()) + ",\"now\":" + num(get_time()) + "}\n");
    }
    void postTrialStep(double* q) {
        In in(*this);
        if (!in.first) return Base::postTrialStep(q);
        CALL("TrialB");
        Base::postTrialStep(q);
        emit("{\"e\":\"TrialE\",\"q\":" + vec(q, N()) + "}\n");
    }
    void ended(double* q) { emit("{\"e\":\"EvE\",\"q\":" + vec(q, N()) + "}\n"); }
    void begun(double* q, char const* k) { emit(fmt("{\"e\":\"EvB\",\"k\":\"%s\",\"q\":", k) + vec(q, N()) + "}\n"); }
    void internal_event(double* q, bool const* f) {
        In in(*this);
        if (!in.first) return Base::internal_event(q, f);
        begun(q, "int");
        Base::internal_event(q, f);
        ended(q);
        if (touch()) {
            begun(q, "int2");
            Base::internal_event(q, f);
            ended(q);
        }
    }
    void external_event(double* q, double e, Bag const &x) {
        In in(*this);
        if (!in.first) return Base::external_event(q, e, x);
        begun(q, "ext");
        Base::external_event(q, e, x);
        ended(q);
        if (touch()) {
            begun(q, "ext2");
            Base::external_event(q, e, x);
            ended(q);
        }
    }
    void confluent_event(double* q, bool const* f, Bag const &x) {
        In in(*this);
        if (!in.first) return Base::confluent_event(q, f, x);
        begun(q, "conf");
        Base::confluent_event(q, f, x);
        ended(q);
        if (touch()) {
            begun(q, "conf2");
            Base::confluent_event(q, f, x);
            ended(q);
        }
    }
    bool get_jacobian(double const* q, double* J) {
        In in(*this);
        if (!in.first) return Base::get_jacobian(q, J);
        CALL("JacB");
        bool r = Base::get_jacobian(q, J);
        std::string m = "[]", want = "[]";
        if (J && r) {
            // Entries by columns, as the solver uses them
            int n = N();
            std::vector<double> w(n * n, 0.0);
            for (int i = 0; i + 1 < n; i++) for (int j = 0; j + 1 < n; j++) w[j * n + i] = F->dder(i, j);
            m = vec(J, n * n);
            want = vec(w.data(), n * n);
        }
        emit(fmt("{\"e\":\"JacE\",\"r\":%s,\"null\":%s,\"q\":", r ? "true" : "false", J ? "false" : "true") + (q ? vec(q, N()) : "[]") + ",\"m\":" + m + ",\"want\":" + want + "}\n");
        return r;
    }
    static char const* kind(fmi2_base_type_enu_t t) { return t == fmi2_base_type_real ? "real" : t == fmi2_base_type_int ? "integer" : "boolean"; }
    // Read some variables, and sometimes write some
    bool touch() {
        if (F->scripted) return false;
        for (int k = var_rng.below(3); k > 0; k--) get_one();
        if (!var_rng.chance(1, 3)) return false;
        for (int k = var_rng.range(1, 2); k > 0; k--) set_one();
        return true;
    }
    void get_one() {
        auto &v = F->vars[var_rng.below(int(F->vars.size()))];
        CALL("GetB");
        std::any a = get_variable(v.name);
        double x = 0;
        bool ok = true;
        if (v.type == fmi2_base_type_real && a.type() == typeid(double)) x = std::any_cast<double>(a);
        else if (v.type == fmi2_base_type_int && a.type() == typeid(fmi2_integer_t)) x = std::any_cast<int>(a);
        else if (v.type == fmi2_base_type_bool && a.type() == typeid(fmi2_boolean_t)) x = std::any_cast<fmi2_boolean_t>(a);
        else ok = false;
        double have = v.type == fmi2_base_type_real ? rslot(F, v.vr) : v.type == fmi2_base_type_int ? islot(F, v.vr) : bslot(F, v.vr);
        emit(fmt("{\"e\":\"GetE\",\"k\":\"%s\",\"vr\":%u,\"ok\":%s,\"v\":", kind(v.type), v.vr, ok ? "true" : "false") + num(x) + ",\"have\":" + num(have) + "}\n");
    }
    void set_one() {
        // Derivatives cannot be set
        size_t i;
        do i = var_rng.below(int(F->vars.size()));
        while (F->vars[i].type == fmi2_base_type_real && int(F->vars[i].vr) >= F->n && int(F->vars[i].vr) < 2 * F->n);
        auto &v = F->vars[i];
        double x = v.type == fmi2_base_type_real ? var_rng.range(-8, 8) / 4.0 : v.type == fmi2_base_type_int ? var_rng.range(-50, 50) : var_rng.below(2);
        CALL("SetB");
        if (v.type == fmi2_base_type_real) set_variable(v.name, double(x));
        else if (v.type == fmi2_base_type_int) set_variable(v.name, fmi2_integer_t(x));
        else set_variable(v.name, fmi2_boolean_t(x));
        double have = v.type == fmi2_base_type_real ? rslot(F, v.vr) : v.type == fmi2_base_type_int ? islot(F, v.vr) : bslot(F, v.vr);
        emit(fmt("{\"e\":\"SetE\",\"k\":\"%s\",\"vr\":%u,\"v\":", kind(v.type), v.vr) + num(x) + ",\"have\":" + num(have) + "}\n");
    }
};

static void make_fmu(Rng &r, uint64_t key) {
    delete F;
    F = new fmi2_import_t();
    F->n = r.chance(1, 6) ? r.range(4, 8) : r.range(1, 3);
    F->off = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(1, 300) : r.range(1, 2000000000);
    F->nz = r.below(3);
    F->version = fmi_version_2_0_enu;
    F->kind = r.chance(1, 4) ? fmi2_fmu_kind_me_and_cs : fmi2_fmu_kind_me;
    F->cap = r.chance(2, 3);
    F->parses = true;
    F->key = key;
    for (int i = 0; i < 8; i++) {
        for (int j = 0; j < 8; j++) F->A[i][j] = r.chance(F->n > 3 ? 2 : 1, 3) ? 0 : r.range(-4, 4) / 8.0 - (i == j ? 0.25 : 0);
        F->c[i] = r.range(-8, 8) / 4.0;
        F->x[i] = r.range(-8, 8) / 4.0;
    }
    F->par[0] = r.range(-8, 8) / 4.0;
    F->par[1] = r.below(2) * -1.0;
    F->time = 0;
    F->next = DBL_MAX;
    for (int i = 0; i < 2; i++) {
        F->iv[i] = r.range(-9, 9);
        F->bv[i] = r.below(2);
        F->zoff[i] = r.range(-8, 8) / 4.0;
    }
    auto &v = F->vars;
    for (unsigned i = 0; i < unsigned(F->n); i++) {
        v.push_back({"x" + std::to_string(i), i, fmi2_base_type_real});
        v.push_back({"der(x" + std::to_string(i) + ")", i + F->n, fmi2_base_type_real});
    }
    for (unsigned i = 0; i < 2; i++) {
        v.push_back({"p" + std::to_string(i), i + 2 * F->n + F->off, fmi2_base_type_real});
        v.push_back({"i" + std::to_string(i), i + F->off, fmi2_base_type_int});
        v.push_back({"b" + std::to_string(i), i + F->off, fmi2_base_type_bool});
    }
    r.shuffle(v);
}

static void begin(int n, double tol) {
    emit(fmt("{\"e\":\"Reset\",\"n\":%d,\"nx\":%d,\"nz\":%d,\"cap\":%s,\"good\":%s,\"tol\":", n, F->n, F->nz, F->cap ? "true" : "false",
             F->version == fmi_version_2_0_enu && F->parses && F->kind != fmi2_fmu_kind_cs ? "true" : "false") +
         num(tol) + ",\"x\":" + vec(F->x, F->n) + ",\"zero\":" + num(0) + ",\"one\":" + num(1) + "}\n");
}

static std::vector<std::string> scripts;
static void run_script(std::string const &text, int n) {
    std::istringstream lines(text);
    Model* m = nullptr;
    int N = 0;
    double q[16] = {0}, p[16], out[64];
    bool f[8] = {false};
    Bag x;
    x.push_back(PinValue<int>(pin_t(), 1));
    auto answer = [](std::istringstream &in) {
        int change;
        in >> F->iters >> F->dt >> change;
        F->change = change;
    };
    for (std::string line; std::getline(lines, line, ';');) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        if (op == "fmu") {
            Rng r(7);
            make_fmu(r, 7);
            int cap;
            in >> F->n >> F->nz >> cap;
            F->cap = cap;
            F->scripted = true;
            for (int i = 0; i < 4; i++) F->x[i] = i + 1;
            begin(n, 0.125);
            m = new Model("some.fmu", 0.125);
            N = m->N();
            emit(fmt("{\"e\":\"Made\",\"nv\":%d,\"ne\":%d}\n", m->numVars(), m->numEvents()));
        } else if (op == "init") {
            answer(in);
            m->init(q);
        } else if (op == "adv") {
            int d, enter;
            in >> d >> enter;
            F->enter = enter;
            m->time_event_func(q);
            for (int j = 0; j < N - 1; j++) p[j] = q[j] + 2;
            p[N - 1] = q[N - 1] + d / 16.0;
            for (std::string k; in >> k;) {
                if (k == "der") m->der_func(p, out);
                else if (k == "ind") m->state_event_func(p, out);
                else m->get_jacobian(p, out);
            }
            m->postTrialStep(q);
            if (d) {
                for (int j = 0; j < N - 1; j++) q[j] += 1;
                q[N - 1] += d / 16.0;
            }
            m->postStep(q);
            m->time_event_func(q);
        } else {
            answer(in);
            if (op == "int") m->internal_event(q, f);
            else if (op == "ext") m->external_event(q, 0.5, x);
            else m->confluent_event(q, f, x);
        }
    }
    CALL("DelB");
    delete m;
    CALL("DelE");
}

static void scenario(std::string const &prof, uint64_t seed, int n) {
    Rng r(mix(seed, mix(prof.size() * 31 + prof[0], n)));
    var_rng = Rng(mix(seed, n + 77));
    make_fmu(r, r.next());
    char const* file = "some.fmu";
    if (prof == "load") {
        int k = r.below(5);
        if (k == 0) F->version = r.chance(1, 2) ? fmi_version_1_enu : fmi_version_3_0_enu;
        if (k == 1) F->kind = fmi2_fmu_kind_cs;
        if (k == 2) F->parses = false;
        if (k == 3) F->version = fmi_version_unsupported_enu;
    }
    double tol = r.range(1, 8) / 1024.0;
    begin(n, tol);
    Model* m = nullptr;
    try {
        m = new Model(file, tol);
        emit(fmt("{\"e\":\"Made\",\"nv\":%d,\"ne\":%d}\n", m->numVars(), m->numEvents()));
    } catch (adevs::exception const &) {
        CALL("Refused");
        return;
    }
    int N = m->N();
    if (prof == "load") {
        m->get_jacobian(nullptr, nullptr);
        CALL("DelB");
        delete m;
        CALL("DelE");
        return;
    }
    Bag x;
    x.push_back(PinValue<int>(pin_t(), 1));
    if (prof == "direct") {
        double q[16] = {0}, p[16], dq[16], z[8], J[256];
        bool f[8] = {false};
        // The memory that receives results is not clean
        for (double &v : dq) v = 77;
        for (double &v : J) v = 77;
        if (r.chance(1, 4)) m->get_jacobian(nullptr, nullptr);
        m->init(q);
        for (int i = 0; i < 25; i++) {
            // A trial step from q that evaluates functions at later points
            double te = m->time_event_func(q);
            double last = q[N - 1] + std::min(te, r.range(0, 16) / 16.0);
            for (int k = r.below(6); k > 0; k--) {
                for (int j = 0; j < N - 1; j++) p[j] = q[j] + r.range(-8, 8) / 8.0;
                p[N - 1] = q[N - 1] + (last - q[N - 1]) * r.range(0, 4) / 4.0;
                int c = r.below(5);
                if (c == 4) m->time_event_func(p);
                else if (c == 0) m->state_event_func(p, z);
                else if (c == 1) m->get_jacobian(p, r.chance(1, 6) ? nullptr : J);
                else m->der_func(p, dq);
            }
            m->postTrialStep(q);
            // The step that is taken
            bool zero = r.chance(1, 5);
            if (!zero && last > q[N - 1]) {
                for (int j = 0; j < N - 1; j++) q[j] += r.range(-8, 8) / 8.0;
                q[N - 1] = last;
            }
            m->postStep(q);
            bool due = m->time_event_func(q) <= 0;
            int c = due ? r.below(3) : r.below(5);
            if (c == 0) m->internal_event(q, f);
            else if (c == 1) m->confluent_event(q, f, x);
            else if (c == 2) m->external_event(q, 0.5, x);
            if (r.chance(1, 3)) m->get_one();
        }
        CALL("DelB");
        delete m;
        CALL("DelE");
        return;
    }
    ode_solver<int>* solver;
    event_locator<int>* finder;
    double hm = r.range(1, 8) / 8.0;
    int k = r.below(8);
    if (k < 3) solver = new corrected_euler<int>(m, 1e-3, hm);
    else if (k < 6) solver = new rk_45<int>(m, 1e-3, hm);
    else solver = new trap<int>(m, 1e-3, hm, true);
    double et = 1.0 / 64;
    k = r.below(5);
    if (k == 0) finder = new bisection_event_locator<int>(m, et);
    else if (k == 1) finder = new linear_event_locator<int>(m, et);
    else if (k == 2) finder = new discontinuous_event_locator<int>(m, et);
    else finder = new fast_event_locator<int>(m, et, k == 3);
    if (F->nz == 0 && r.chance(1, 2)) {
        delete finder;
        finder = new null_event_locator<int>();
    }
    Hybrid<int>* h = new Hybrid<int>(m, solver, finder);
    CALL("Hybrid");
    for (int i = 0; i < 20; i++) {
        double ta = h->ta();
        if (!(ta >= 0) || ta > 100) break;
        if (ta > 0 && r.chance(1, 3)) {
            double e = r.chance(1, 5) ? 0.0 : r.chance(1, 3) ? ta * 0.875 : ta * r.below(1000) / 1000.0;
            h->delta_ext(e, x);
        } else {
            Bag y;
            h->output_func(y);
            if (r.chance(1, 4)) h->delta_conf(x);
            else h->delta_int();
        }
        if (r.chance(1, 4)) m->get_one();
    }
    CALL("DelB");
    delete h;
    CALL("DelE");
}

int main(int argc, char** argv) {
    if (argc != 6) return 2;
    std::string prof = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    if (prof == "script") {
        std::ifstream f(getenv("VERIF_SCRIPT") ? getenv("VERIF_SCRIPT") : "");
        for (std::string l; std::getline(f, l);) scripts.push_back(l);
        if (int(scripts.size()) < atoi(argv[4])) return 2;
    }
    return run_scenarios(argv[5], atoi(argv[3]), atoi(argv[4]), [&](int n) {
        if (prof == "script") run_script(scripts[n], n);
        else if (prof == "worlds") worlds_scenario(seed, n, [&](int, uint64_t key) {
            auto f = F;
            F = nullptr;
            Rng v = var_rng;
            scenario(key % 3 == 0 ? "direct" : key % 7 == 0 ? "load" : "hybrid", key, n);
            delete F;
            F = f;
            var_rng = v;
        });
        else scenario(prof, seed, n);
    });
}
