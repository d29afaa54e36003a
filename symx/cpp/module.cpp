// The repository's own bindings (and, through them, its engine) compiled either with symbolic
// reals (SYMX) or as they are, plus entry points to set up and observe engine states.
#include "symd.h"
#include <nanobind/nanobind.h>
#include <nanobind/stl/string.h>
#include <nanobind/stl/vector.h>
#include <nanobind/stl/pair.h>
#include <nanobind/stl/unique_ptr.h>
#include <nanobind/stl/unordered_map.h>
#include <nanobind/stl/map.h>
#include <nanobind/stl/function.h>
#include <nanobind/stl/optional.h>
#include <nanobind/stl/tuple.h>
#include <nanobind/stl/set.h>
#include <nanobind/ndarray.h>
#include <memory>
#include <streambuf>
#include <cstring>
#ifdef SYMX
#define REAL SymD
#else
#define REAL double
#endif
#include "env.h"
#ifdef SYMXOMP
#define OWNVAR __attribute__((section("symxvars")))
#else
#define OWNVAR
#endif
namespace symx {
OWNVAR PyObject *arena = nullptr, *env = nullptr;
OWNVAR PyTypeObject *S_type = nullptr, *SB_type = nullptr;
OWNVAR bool dead = false;
OWNVAR unsigned long nops = 0;
OWNVAR PyObject *ptype = nullptr, *pval = nullptr, *ptb = nullptr;
}
#ifdef SYMXOMP
#ifdef SYMX
#pragma omp declare reduction(+ : SymD : omp_out = omp_out + omp_in) initializer(omp_priv = SymD(0.0))
#pragma omp declare reduction(- : SymD : omp_out = omp_out + omp_in) initializer(omp_priv = SymD(0.0))
#pragma omp declare reduction(* : SymD : omp_out = omp_out * omp_in) initializer(omp_priv = SymD(1.0))
#pragma omp declare reduction(max : SymD : omp_out = omp_in > omp_out ? omp_in : omp_out) initializer(omp_priv = SymD(-std::numeric_limits<float>::infinity()))
#pragma omp declare reduction(min : SymD : omp_out = omp_in < omp_out ? omp_in : omp_out) initializer(omp_priv = SymD(std::numeric_limits<float>::infinity()))
#endif
extern "C" { void symx_rt_config(int, int); void symx_rt_reset(); void symx_rt_stats(unsigned long *); const char *symx_rt_race_kind(); }
#endif
#ifdef SYMX
namespace nanobind {
namespace detail {
template <> struct type_caster<SymD> {
    NB_TYPE_CASTER(SymD, const_name("float"))
    bool from_python(handle src, uint8_t, cleanup_list *) noexcept {
        PyObject *p = src.ptr();
        PyTypeObject *t = Py_TYPE(p);
        if (t == symx::S_type || t == symx::SB_type) {
            PyList_Append(symx::arena, p);
            value.o = p; value.c = 0;
            return true;
        }
        if (PyUnicode_Check(p) || p == Py_None) return false;
        double v = PyFloat_AsDouble(p);
        if (v == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; }
        value.o = nullptr; value.c = v;
        return true;
    }
    static handle from_cpp(SymD v, rv_policy, cleanup_list *) noexcept { return v.py(); }
};
}
template <> class ndarray<numpy, SymD, ndim<1>> {
public:
    std::vector<SymD> v;
    ndarray() {}
    ndarray(SymD *p, std::initializer_list<size_t> sh, handle = {}) : v(p, p + *sh.begin()) {}
    ndarray(const SymD *p, std::initializer_list<size_t> sh, handle = {}) : v(p, p + *sh.begin()) {}
};
namespace detail {
template <> struct type_caster<ndarray<numpy, SymD, ndim<1>>> {
    using ND = ndarray<numpy, SymD, ndim<1>>;
    NB_TYPE_CASTER(ND, const_name("numpy.ndarray"))
    bool from_python(handle, uint8_t, cleanup_list *) noexcept { return false; }
    static handle from_cpp(const ND &a, rv_policy, cleanup_list *) noexcept {
        PyObject *l = PyList_New((Py_ssize_t)a.v.size());
        for (size_t i = 0; i < a.v.size(); i++) PyList_SET_ITEM(l, (Py_ssize_t)i, a.v[i].py());
        PyObject *r = PyObject_CallMethod(symx::env, "array", "O", l);
        Py_DECREF(l);
        return r;
    }
};
}
}
#define double SymD
#endif
#include "uxsim/trafficpp/bindings.cpp"
#ifdef SYMX
#undef double
#endif

namespace symx {
// calls env.<m>(...): a pending Python exception unwinds the engine
static PyObject *env_result(PyObject *r) {
    if (r) return r;
#if defined(SYMX) || defined(SYMXOMP)
    fail();
#else
    nanobind::raise_python_error();
#endif
}
static REAL env_number(PyObject *r) {
    env_result(r);
#ifdef SYMX
    return SymD::take(r);
#else
    double v = PyFloat_AsDouble(r);
    Py_DECREF(r);
    return v;
#endif
}
static long long env_int(PyObject *r) {
    env_result(r);
    long long v = PyLong_AsLongLong(r);
    Py_DECREF(r);
    return v;
}
#ifdef SYMX
#define ENVARG(x) x.py()
#else
#define ENVARG(x) PyFloat_FromDouble(x)
#endif
REAL env_real(REAL lo, REAL hi) {
    tick();
    return env_number(PyObject_CallMethod(env, "real", "NN", ENVARG(lo), ENVARG(hi)));
}
long long env_pick(long long n) {
    tick();
    return env_int(PyObject_CallMethod(env, "pick", "L", n));
}
#ifdef SYMXOMP
REAL env_real_at(unsigned long long key, REAL lo, REAL hi) {
    tick();
    return env_number(PyObject_CallMethod(env, "real_at", "KNN", key, ENVARG(lo), ENVARG(hi)));
}
long long env_pick_at(unsigned long long key, long long n) {
    tick();
    return env_int(PyObject_CallMethod(env, "pick_at", "KL", key, n));
}
#endif
}

// ------------------------------------------------------------------ states
static void x_put_link(World &w, int link, std::vector<int> vehs, std::vector<REAL> x0, std::vector<REAL> x, std::vector<REAL> v, std::vector<REAL> t_in, std::vector<nanobind::object> over, int lane0, REAL arrived) {
    Link *l = w.links[link];
    int n = l->number_of_lanes;
    for (size_t i = 0; i < vehs.size(); i++) {
        Vehicle *q = w.vehicles[vehs[i]];
        q->state = vsRUN;
        q->link = l;
        q->x = x0[i]; q->x_old = x0[i]; q->x_next = x[i];
        q->v = v[i];
        q->lane = (lane0 + (int)i) % n;
        q->arrival_time_link = t_in[i];
        q->leader = nullptr;
        if ((int)i >= n) { q->leader = l->vehicles[l->vehicles.size() - n]; q->leader->follower = q; }
        if (!over[i].is_none()) q->move_remain = nanobind::cast<REAL>(over[i]);
        if (q->_traveled_nodes.size() < w.nodes.size()) q->_traveled_nodes.resize(w.nodes.size(), false);
        q->_traveled_nodes[l->start_node->id] = true;
        q->_traveled_link_count++;
        l->vehicles.push_back(q);
        w.vehicles_running[q->id] = q;
    }
    size_t t = w.timestep > 0 ? w.timestep - 1 : 0;
    l->arrival_curve[t] = arrived;
    l->departure_curve[t] = arrived - REAL((int)vehs.size()) * w.delta_n;
}
static void x_put_queue(World &w, int node, std::vector<int> vehs) {
    for (int i : vehs) { w.vehicles[i]->state = vsWAIT; w.nodes[node]->generation_queue.push_back(w.vehicles[i]); }
}
// the last part of a time step: movement of the vehicles on links, then the registries
static void x_finish(World &w) {
    size_t t = w.timestep;
    w.timestep = t > 0 ? t - 1 : 0;
    for (auto lk : w.links) {
        std::vector<Vehicle *> s(lk->vehicles.begin(), lk->vehicles.end());
        for (size_t i = 0; i < s.size(); i++)
            s[i]->update((int)i - lk->number_of_lanes >= 0 ? s[i - lk->number_of_lanes] : nullptr);
    }
    for (auto lk : w.links) {
        for (auto v : lk->ended_buf) { w.vehicles_running.erase(v->id); w.vehicles_living.erase(v->id); }
        lk->ended_buf.clear();
    }
    w.timestep = t;
}
static void x_set_caps(World &w, int link, nanobind::object cin, nanobind::object cout_) {
    if (!cin.is_none()) w.links[link]->capacity_in_remain = nanobind::cast<REAL>(cin);
    if (!cout_.is_none()) w.links[link]->capacity_out_remain = nanobind::cast<REAL>(cout_);
}
static nanobind::list x_vehs(World &w, int link) { nanobind::list r; for (auto v : w.links[link]->vehicles) r.append(v->id); return r; }
static nanobind::list x_queue(World &w, int node) { nanobind::list r; for (auto v : w.nodes[node]->generation_queue) r.append(v->id); return r; }
static nanobind::list x_living(World &w) { std::set<int> s; for (auto &k : w.vehicles_living) s.insert(k.second->id); nanobind::list r; for (int i : s) r.append(i); return r; }
static nanobind::list x_running(World &w) { std::set<int> s; for (auto &k : w.vehicles_running) s.insert(k.second->id); nanobind::list r; for (int i : s) r.append(i); return r; }
static void x_set_pref(World &w, int dest, int link, REAL v) { w.route_preference[dest][link] = v; w.route_pref_active[dest] = 1; }
static nanobind::tuple x_veh(World &w, int i) {
    Vehicle *v = w.vehicles[i];
    return nanobind::make_tuple(v->state, v->link ? v->link->id : -1, v->x, v->x_old, v->v, v->lane, v->departure_time, v->arrival_time, v->travel_time, v->arrival_time_link,
                                v->route_next_link ? v->route_next_link->id : -1, v->flag_trip_aborted, v->leader ? v->leader->id : -1, v->trip_abort, v->orig->id, v->dest->id, v->distance_traveled);
}
static nanobind::list x_logged(World &w, int i) {
    nanobind::list r;
    Vehicle *v = w.vehicles[i];
    int prev = -999;
    for (size_t k = 0; k < v->log_size; k++) if (v->log_link[k] >= 0 && v->log_link[k] != prev) { prev = v->log_link[k]; r.append(prev); }
    return r;
}
static nanobind::list x_prefs(World &w, int dest) { nanobind::list r; for (auto &p : w.route_preference[dest]) r.append(p); return r; }
static void x_set_tinst(World &w, int link, int ts, REAL v) { w.links[link]->traveltime_instant[ts] = v; }
static void x_set_adj(World &w, int i, int j, REAL v) { w.adj_mat_time[i][j] = v; }
static void x_route_search(World &w) { w.update_adj_time_matrix(); w.route_search_all(w.adj_mat_time, 0.0); w.route_dist = w.rsa_dist; w.route_next = w.rsa_next; }
static void x_duo(World &w, bool gradual) { if (gradual) w.route_choice_duo_gradual(); else w.route_choice_duo(); }
static void x_set_next(World &w, int i, int j, int k) { if (w.route_next.size() != w.nodes.size()) w.route_next.assign(w.nodes.size(), std::vector<int>(w.nodes.size(), -1)); w.route_next[i][j] = k; }
static void x_set_curves(World &w, int link, std::vector<REAL> a, std::vector<REAL> d, std::vector<REAL> tt) {
    Link *l = w.links[link];
    l->arrival_curve = a; l->departure_curve = d; l->traveltime_real = tt;
    l->traveltime_real_events.clear(); l->traveltime_real_events_applied = 0;
}
static void x_set_timestep(World &w, int t) { w.timestep = t; w.time = w.timestep * w.delta_t; }
static void x_set_trip(World &w, int i, int state, std::vector<int> links, std::vector<int> steps, int end_ts, REAL arrival) {
    // a finished (or not) trip: the log entries a vehicle would have, links[k] entered at steps[k]
    Vehicle *v = w.vehicles[i];
    v->state = state;
    v->log_link.clear(); v->log_x.clear(); v->log_v.clear(); v->log_lane.clear(); v->log_s.clear();
    v->log_first_ts = 0; v->log_size = 0; v->log_wait_count = 0;
    for (int t = 0; t <= end_ts; t++) {
        int cur = -1;
        for (size_t k = 0; k < links.size(); k++) if (steps[k] <= t) cur = links[k];
        if (t == end_ts) cur = -1;
        if (cur == -1 && t > 0 && t < end_ts) v->log_wait_count++;
        v->log_link.push_back(cur); v->log_x.push_back(0.0); v->log_v.push_back(0.0); v->log_lane.push_back(0); v->log_s.push_back(-1.0);
        v->log_size++;
    }
    v->log_last_ts = end_ts;
    v->log_end_count = 1;
    v->_traveled_link_count = (int)links.size();
    v->arrival_time = arrival;
    v->travel_time = arrival - v->departure_time;
}

NB_MODULE(uxsim_symx, m) {
    if (!symx::arena) symx::arena = PyList_New(0);
    m.def("setup", [](nanobind::object s, nanobind::object sb) {
        symx::S_type = (PyTypeObject *)s.ptr(); symx::SB_type = (PyTypeObject *)sb.ptr();
        Py_INCREF(s.ptr()); Py_INCREF(sb.ptr());
    });
    m.def("begin", [](nanobind::object env) {
        Py_XDECREF(symx::env); symx::env = env.ptr(); Py_INCREF(symx::env);
        Py_XDECREF(symx::arena); symx::arena = PyList_New(0);
        symx::dead = false; symx::nops = 0;
        Py_XDECREF(symx::ptype); Py_XDECREF(symx::pval); Py_XDECREF(symx::ptb);
        symx::ptype = symx::pval = symx::ptb = nullptr;
#ifdef SYMXOMP
        symx_rt_reset();
#endif
    });
#ifdef SYMXOMP
    m.def("rt_config", [](int order, int maxt) { symx_rt_config(order, maxt); });
    m.def("rt_stats", []() {
        unsigned long o[7];
        symx_rt_stats(o);
        return nanobind::make_tuple(o[0], o[1], o[2], o[3], o[4], o[5], o[6], symx_rt_race_kind());
    });
    m.def("rt_pending", []() { return symx::dead; });
    m.def("rt_raise", []() {
        // re-raises what interrupted a parallel region
        if (!symx::dead) return;
        PyErr_Restore(symx::ptype, symx::pval, symx::ptb);
        symx::ptype = symx::pval = symx::ptb = nullptr;
        nanobind::raise_python_error();
    });
#endif
    m.def("set_env", [](nanobind::object env) { Py_XDECREF(symx::env); symx::env = env.ptr(); Py_INCREF(symx::env); });
    m.def("nops", []() { return symx::nops; });
    nanobind::register_exception_translator([](const std::exception_ptr &p, void *) {
        try { std::rethrow_exception(p); }
        catch (const symx::Abort &) {
            if (symx::ptype) { PyErr_Restore(symx::ptype, symx::pval, symx::ptb); symx::ptype = symx::pval = symx::ptb = nullptr; }
            else PyErr_SetString(PyExc_RuntimeError, "symbolic execution aborted");
        }
    });
    m.def("put_link", &x_put_link);
    m.def("put_queue", &x_put_queue);
    m.def("finish", &x_finish);
    m.def("set_caps", &x_set_caps, nanobind::arg("w"), nanobind::arg("link"), nanobind::arg("cin").none(), nanobind::arg("cout").none());
    m.def("vehs", &x_vehs);
    m.def("queue", &x_queue);
    m.def("living", &x_living);
    m.def("running", &x_running);
    m.def("set_pref", &x_set_pref);
    m.def("veh", &x_veh);
    m.def("logged", &x_logged);
    m.def("prefs", &x_prefs);
    m.def("set_tinst", &x_set_tinst);
    m.def("set_adj", &x_set_adj);
    m.def("route_search", &x_route_search);
    m.def("duo", &x_duo);
    m.def("set_next", &x_set_next);
    m.def("set_curves", &x_set_curves);
    m.def("set_timestep", &x_set_timestep);
    m.def("set_trip", &x_set_trip);
}
