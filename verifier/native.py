"""The real code as an executable: every function under contract behind a small pipe protocol.

The driver is generated from the signatures found in the current IR, compiled together with /repo's
sources, and called with concrete arguments.  It is used to replay counterexamples (never to prove)."""
import os, re, struct, subprocess, shutil, select, time, signal, concurrent.futures as cf
from . import build, spec
from .build import REPO, HERE, WORK, run, BuildError, tool, sources
from .prog import split_sig, split_args, norm_type

PRE = r'''
#include <cmath>
#include <cassert>
#include <cstddef>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <vector>
#include <array>
#include <list>
#include <map>
#include <string>
#include <memory>
#include <utility>
#include <limits>
#include <functional>
#include <algorithm>
#include <iostream>
#include <initializer_list>
#include "catima/catima.h"
#include "catima/reactions.h"
#include "catima/integrator.h"
#include "catima/storage.h"
#include "catima/spline.h"
#include "catima/nucdata.h"
#include "catima/data_ionisation_potential.h"
#include "catima/abundance_database.h"
#include "catima/material_database.h"
#include "catima/cwrapper.h"
using namespace catima;
extern "C" double vf_integrand(double x) { return std::exp(x) * std::cos(x); }
extern "C" double vf_integrand2(double x, double y) { return std::exp(x) * std::cos(y); }
struct In { const double *p; double d() { return *p++; } int i() { return (int)d(); } };
typedef std::vector<double> Out;
template<class T> struct G { static T get(In &in) { return (T)in.d(); } };
template<> struct G<bool> { static bool get(In &in) { return in.d() != 0; } };
template<> struct G<material> { static material get(In &in) { return (material)in.i(); } };
template<> struct G<Projectile> { static Projectile get(In &in) { Projectile r; r.A = in.d(); r.Z = in.d(); r.Q = in.d(); r.T = in.d(); return r; } };
template<> struct G<Target> { static Target get(In &in) { Target r; r.A = in.d(); r.Z = in.i(); r.stn = in.d(); return r; } };
template<> struct G<Config> { static Config get(In &in) { Config r; r.z_effective = in.i(); r.corrections = in.i(); r.calculation = in.i(); r.low_energy = in.i(); r.scattering = in.i(); r.scattering_factor = in.d(); return r; } };
template<> struct G<Phasespace> { static Phasespace get(In &in) { Phasespace r; r.sigma_x = in.d(); r.sigma_a = in.d(); r.cov_x = in.d(); return r; } };
template<class T> struct G<std::vector<T>> { static std::vector<T> get(In &in) { int n = in.i(); std::vector<T> r; for (int k = 0; k < n; k++) r.push_back(G<T>::get(in)); return r; } };
template<> struct G<Material> { static Material get(In &in) { Material r; r.rho = in.d(); r.th = in.d(); r.molar_mass = in.d(); r.i_potential = in.d(); r.atoms = G<std::vector<Target>>::get(in); return r; } };
template<> struct G<Layers> { static Layers get(In &in) { Layers r; r.materials = G<std::vector<Material>>::get(in); return r; } };
inline void put(Out &o, double v) { o.push_back(v); }
inline void put(Out &o, material v) { o.push_back((double)(int)v); }
inline void put(Out &o, const Projectile &v) { put(o, v.A); put(o, v.Z); put(o, v.Q); put(o, v.T); }
inline void put(Out &o, const Target &v) { put(o, v.A); put(o, (double)v.Z); put(o, v.stn); }
inline void put(Out &o, const Config &v) { put(o, (double)v.z_effective); put(o, (double)v.corrections); put(o, (double)v.calculation); put(o, (double)v.low_energy); put(o, (double)v.scattering); put(o, v.scattering_factor); }
inline void put(Out &o, const Phasespace &v) { put(o, v.sigma_x); put(o, v.sigma_a); put(o, v.cov_x); }
inline void put(Out &o, const Result &v) { put(o, v.Ein); put(o, v.Eout); put(o, v.Eloss); put(o, v.range); put(o, v.dEdxi); put(o, v.dEdxo); put(o, v.sigma_E); put(o, v.sigma_a); put(o, v.sigma_r); put(o, v.sigma_x); put(o, v.cov); put(o, v.tof);
%(sp)s
}
inline void put(Out &o, const CatimaResult &v) { put(o, v.Ein); put(o, v.Eout); put(o, v.Eloss); put(o, v.range); put(o, v.dEdxi); put(o, v.dEdxo); put(o, v.sigma_E); put(o, v.sigma_a); put(o, v.sigma_r); put(o, v.tof); }
template<class A, class B> void put(Out &o, const std::pair<A, B> &v) { put(o, (double)v.first); put(o, (double)v.second); }
inline void put(Out &o, const Material &v);
template<class T> void put(Out &o, const std::vector<T> &v) { put(o, (double)v.size()); for (auto &e : v) put(o, e); }
template<class T, size_t N> void put(Out &o, const std::array<T, N> &v) { for (auto &e : v) put(o, e); }
inline void put(Out &o, const Material &v) { put(o, v.rho); put(o, v.th); put(o, v.molar_mass); put(o, v.i_potential); put(o, v.atoms); }
inline void put(Out &o, const Layers &v) { put(o, v.materials); }
inline void put(Out &o, const MultiResult &v) { put(o, v.results); put(o, v.total_result); }
inline void put(Out &o, const DataPoint &v) { put(o, v.p); put(o, v.m); put(o, v.config); put(o, v.range); put(o, v.range_straggling); put(o, v.angular_variance); }
struct Lst { std::vector<std::array<double, 3>> v; };
typedef Lst List3;
template<> struct G<Lst> { static Lst get(In &in) { int n = in.i(); Lst r; for (int k = 0; k < n; k++) { double a = in.d(), b = in.d(), c = in.d(); r.v.push_back({a, b, c}); } return r; } };
// an initializer_list over a run-time array: libstdc++ passes (pointer, length)
struct ILRep { const std::array<double, 3> *p; size_t n; };
static std::initializer_list<std::array<double, 3>> il(const Lst &l) { ILRep r{l.v.data(), l.v.size()}; std::initializer_list<std::array<double, 3>> x; static_assert(sizeof x == sizeof r, ""); memcpy((void *)&x, &r, sizeof r); return x; }
struct SplineArg { Interpolator *s; };
// tables and splines of a request computed afresh, not through the cache; requests told apart by their bytes
struct Fresh { std::vector<double> k; DataPoint d; Interpolator s[3]; };
inline void fkey(std::vector<double> &k, const Projectile &p, const Material &m, const Config &c) { k = {p.A, p.Z, p.Q, m.molar_mass, m.i_potential}; for (auto &t : m.atoms) put(k, t); put(k, c); }
inline Fresh &fresh(const Projectile &p, const Material &m, const Config &c) {
    static std::list<Fresh> all; std::vector<double> k; fkey(k, p, m, c);
    for (auto &f : all) if (f.k == k) return f;
    if (all.size() > 400) all.clear();
    all.emplace_back(); Fresh &f = all.back(); f.k = k; f.d = calculate_DataPoint(p, m, c);
    f.s[0] = Interpolator(energy_table, f.d.range); f.s[1] = Interpolator(energy_table, f.d.range_straggling); f.s[2] = Interpolator(energy_table, f.d.angular_variance);
    return f;
}
template<> struct G<SplineArg> { static SplineArg get(In &in) { Projectile p = G<Projectile>::get(in); Material m = G<Material>::get(in); Config c = G<Config>::get(in); int k = in.i(); return SplineArg{&fresh(p, m, c).s[k]}; } };
'''
TAIL = r'''
int main() {
    _defaults = default_config; _cdefaults = catima_defaults;
    for (;;) {
        uint32_t h[2];
        if (fread(h, 4, 2, stdin) != 2) return 0;
        std::vector<double> in(h[1] + 1);
        if (h[1] && fread(in.data(), 8, h[1], stdin) != h[1]) return 0;
        Out o; In i{in.data()};
        default_config = _defaults; catima_defaults = _cdefaults;
        if (h[0] >= sizeof(table) / sizeof(*table)) return 3;
        table[h[0]](i, o);
        uint32_t n = (uint32_t)o.size();
        fwrite(&n, 4, 1, stdout); fwrite(o.data(), 8, n, stdout); fflush(stdout);
    }
}
'''
EXTRA = r'''
static Config _defaults; static CatimaConfig _cdefaults;
static void x_reset(In &in, Out &o) { _storage.Reset(); put(o, 0.0); }
static void x_rate(In &in, Out &o) { double s = in.d(), g = in.d(), t = in.d(); auto f = [=](double x) { return s + g * x; }; put(o, catima::reaction_rate(f, t)); }
// outgoing energies for thicknesses that leave the projectile with an energy between 10 MeV/u and its own: first one not found
static void x_eout(In &in, Out &o) {
    unsigned s = (unsigned)in.d() | 1; int n = in.i(); auto rnd = [&] { s = s * 1664525u + 1013904223u; return (s >> 8) / 16777216.0; };
    const int A[] = {1, 4, 12, 40, 132, 238}, Z[] = {1, 2, 6, 18, 50, 92}, M[] = {1, 4, 6, 13, 29, 82, 92};
    o = {-1.0};
    for (int k = 0; k < n; k++) {
        int i = (int)(rnd() * 6), j = (int)(rnd() * 7); Projectile p(A[i], Z[i]); Material m = get_material(M[j]);
        double T = 10.0 * std::pow(300.0, rnd()), f = k % 3 ? k % 3 == 1 ? std::pow(10, -6 * rnd()) : 1 - std::pow(10, -6 * rnd()) : rnd(), R = range(p(T), m), R10 = range(p(10.0), m), th = f * (R - R10);
        if (!(R - th > R10)) continue;
        m.thickness(th);
        double e = energy_out(p(T), m), left = range(p(e), m);
        if (!(e >= 9.99 && std::fabs(R - left - th) <= 1.1e-5)) { o = {0.0, (double)A[i], (double)Z[i], (double)M[j], T, th, e, R - th - left}; return; }
    }
}
static void x_spline(In &in, Out &o) { SplineArg a = G<SplineArg>::get(in); double x = in.d(); put(o, a.s->eval(x)); put(o, a.s->derivative(x)); }
static void x_etable(In &in, Out &o) { for (int i = 0; i < max_datapoints; i++) put(o, energy_table(i)); }
static void x_data(In &in, Out &o) { Projectile p = G<Projectile>::get(in); Material m = G<Material>::get(in); Config c = G<Config>::get(in); put(o, get_data(p, m, c)); }
// a sequence of requests to one store against a model of a circular store; reports the first operation that disagrees
static double check_entry(const DataPoint &d, const Projectile &p, const Material &m, const Config &c) {
    std::vector<double> a, b; fkey(a, p, m, c); fkey(b, d.p, d.m, d.config); if (a != b) return 1;
    Fresh &f = fresh(p, m, c);
    auto differ = [](const std::vector<double> &x, const std::vector<double> &y) { if (x.size() != y.size()) return true; for (size_t i = 0; i < x.size(); i++) if (!(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]))) return true; return false; };
    if (differ(d.range, f.d.range)) return 2; if (differ(d.range_straggling, f.d.range_straggling)) return 3; if (differ(d.angular_variance, f.d.angular_variance)) return 4;
#ifdef STORE_SPLINES
    const Interpolator *s[3] = {&d.range_spline, &d.range_straggling_spline, &d.angular_variance_spline};
#else
    Interpolator s_[3] = {get_range_spline(d), get_range_straggling_spline(d), get_angular_variance_spline(d)}; const Interpolator *s[3] = {s_, s_ + 1, s_ + 2};
#endif
    for (int k = 0; k < 3; k++) for (double x : {0.002, 0.7, 33.0, 1234.5, 2e5}) { double u = s[k]->eval(x), v = f.s[k].eval(x), g = s[k]->derivative(x), h = f.s[k].derivative(x);
        if (!(u == v || (u != u && v != v)) || !(g == h || (g != g && h != h))) return 5 + k; }
    return 0;
}
static void x_history(In &in, Out &o) {
    int n = in.i(); Data d; int size = d.GetN();
    std::vector<std::vector<double>> keys(size); int idx = 0; bool wrapped = false; (void)wrapped;
    for (int k = 0; k < n; k++) {
        int op = in.i(); double bad = 0; int want_idx = idx;
        if (op == 2) { d.Reset(); for (auto &x : keys) x.clear(); idx = want_idx = 0; }
        else {
            Projectile p = G<Projectile>::get(in); Material m = G<Material>::get(in); Config c = G<Config>::get(in);
            std::vector<double> key; fkey(key, p, m, c); key.push_back(m.rho);
            int at = -1; for (int i = 0; i < size; i++) if (keys[i] == key) { at = i; break; }
            if (at < 0) { at = idx == size ? 0 : idx; keys[at] = key; want_idx = at + 1; }
            const DataPoint *r;
            if (op == 0) { r = &d.Get(p, m, c); } else { d.Add(p, m, c); r = &d.Get((unsigned)at); }
            bad = check_entry(*r, p, m, c);
            if (!bad && r != &d.Get((unsigned)at)) bad = 8;
        }
        if (!bad && d.GetN() != size) bad = 9;
        if (!bad && d.get_index() != want_idx) bad = 10;
        idx = want_idx;
        for (int i = 0; i < size && !bad; i++) { const DataPoint &s = d.Get((unsigned)i); std::vector<double> a; fkey(a, s.p, s.m, s.config); a.push_back(s.m.rho); if (keys[i].empty() ? s.p.A != 0 : keys[i] != a) bad = 11; }
        if (bad) { put(o, (double)k); put(o, bad); return; }
    }
    put(o, -1.0);
}
// a sequence of calls of the C interface, each against the C++ interface with an explicit configuration; reports the first call that disagrees
static void x_capi(In &in, Out &o) {
    int n = in.i(); default_config = Config(); catima_defaults.z_effective = 1;
    for (int k = 0; k < n; k++) {
        int f = in.i(), ze = in.i(); double pa = in.d(); int pz = in.i(); double T = in.d(), T2 = in.d(), ta = in.d(), tz = in.d(), th = in.d(), rho = in.d();
        Config c; c.z_effective = ze; catima_defaults.z_effective = ze;
        if (f > 1) rho = -1; if (f > 1 && f != 6) th = 0;
        Material m; if (tz > 200) m = get_material((int)tz); else m.add_element(ta, (int)tz, 1.0);
        m.rho = rho > 0 ? rho : get_material((int)tz).rho; m.th = th;
        Projectile p; p.A = pa; p.Z = p.Q = pz; p.T = 0;
        std::vector<double> a, b; Projectile q = p; q.T = T;
        if (f == 0) { Result r = calculate(q, m, c); b = {r.Ein, r.Eout, r.Eloss, r.range, r.dEdxi, r.dEdxo, r.sigma_E, r.sigma_a, r.sigma_r, r.tof}; put(a, catima_calculate(pa, pz, T, ta, tz, th, rho)); }
        if (f == 1) { b = {energy_out(q, m, c)}; a = {catima_Eout(pa, pz, T, ta, tz, th, rho)}; }
        if (f == 2) { b = {range(q, m, c)}; a = {catima_range(pa, pz, T, ta, tz)}; }
        if (f == 3) { b = {range_straggling(p, T, m, c)}; a = {catima_range_straggling(pa, pz, T, ta, tz)}; }
        if (f == 4) { b = {angular_straggling_from_E(q, T2, m, c)}; a = {catima_angular_straggling_from_E(pa, pz, T, T2, ta, tz)}; }
        if (f == 5) { b = {energy_straggling_from_E(p, T, T2, m, c)}; a = {catima_energy_straggling_from_E(pa, pz, T, T2, ta, tz)}; }
        if (f == 6) { b = {nonreaction_rate(q, m, c)}; a = {catima_nonreaction_rate(pa, pz, T, ta, tz, th)}; }
        if (f == 7) { int z = (int)tz; b = {element_atomic_weight(z)}; a = {atomic_weight(z)}; }
        for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || std::fabs(a[i] - b[i]) <= 1e-9 * (std::fabs(a[i]) + std::fabs(b[i])))) { put(o, (double)k); put(o, (double)i); put(o, a[i]); put(o, b[i]); return; }
    }
    put(o, -1.0);
}
// grids: lookup and interpolation around every grid point, far outside, infinite, not a number; kind 0 lookup, 1 interpolation, 2 LogVArray, 3 LinearVArray
template<class F> static bool around(int n, const std::vector<double> &x, unsigned seed, F f) {
    unsigned s = seed * 2654435761u + 12345u; auto rnd = [&] { s = s * 1664525u + 1013904223u; return (s >> 8) / 16777216.0; };
    for (int k = 0; k < n; k++) {
        double lo = x[k], hi = x[k]; if (f(x[k])) return true;
        for (int u = 0; u < 12; u++) { lo = std::nextafter(lo, -INFINITY); hi = std::nextafter(hi, INFINITY); if (f(lo) || f(hi)) return true; }
        for (double e : {1e-14, 1e-12, 1e-9, 1e-6}) if (f(x[k] * (1 - e)) || f(x[k] * (1 + e))) return true;
        if (k + 1 < n) for (int u = 0; u < 4; u++) if (f(x[k] + rnd() * (x[k + 1] - x[k]))) return true;
    }
    for (double v : {0.0, -0.0, 1e-300, 5e-324, -1.0, -1e300, 1e300, 1.7976931348623157e308, (double)INFINITY, -(double)INFINITY, (double)NAN, -(double)NAN, x[0] * 0.5, x[n - 1] * 2}) if (f(v)) return true;
    for (int u = 0; u < 300; u++) { double m = x[0] + (x[n - 1] - x[0]) * rnd(); if (f(m) || f(std::exp(-700 + 1400 * rnd()))) return true; }
    return false;
}
static bool bad_index(Out &o, double v, int i, const std::vector<double> &x) {
    int n = (int)x.size(), j = v >= x[0] ? (int)(std::upper_bound(x.begin(), x.end(), v) - x.begin()) - 1 : -1;
    double what = -1;
    if (j < 0) { if (i != -1) what = 0; }
    else if (i < 0 || i >= n) what = 1;
    else if (v > x[n - 1]) { if (i != n - 1) what = 3; }
    else if (v < x[i] - std::fabs(x[i]) * 1e-9 - 1e-14 || (i < n - 1 && v > x[i + 1] + std::fabs(x[i + 1]) * 1e-9 + 1e-14)) what = 2;
    if (what < 0) return false;
    o = {what, v, (double)i, (double)j}; return true;
}
template<int N> static void grid_of(int kind, double a, double b, unsigned seed, Out &o) {
    const EnergyTable<N> t(a, b); std::vector<double> x;
    for (int k = 0; k < N; k++) { double w = std::exp(2.30258509299404568401799145468 * (a + k * ((b - a) / (N - 1.0)))); if (!(std::fabs(t[k] - w) <= 1e-12 * w) || t(k) != t[k]) { o = {9, (double)k, t[k], w}; return; } x.push_back(t[k]); }
    if (kind == 0) { around(N, x, seed, [&](double v) { return bad_index(o, v, t.index(v), x); }); return; }
    double *y = new double[N]; unsigned s = seed | 1; for (int k = 0; k < N; k++) { s = s * 1664525u + 1013904223u; y[k] = (s >> 8) / 16777216.0 * 10 - 3; }
    around(N, x, seed, [&](double v) {
        double r = EnergyTable_interpolate(t, v, y), w = 0, what = 6;
        if (v >= x[0] && v <= x[N - 1]) { int j = std::min((int)(std::upper_bound(x.begin(), x.end(), v) - x.begin()) - 1, N - 2); w = y[j] + (y[j + 1] - y[j]) * ((v - x[j]) / (x[j + 1] - x[j])); what = v == x[j] || v == x[j + 1] ? 4 : 5; }
        if (!(std::fabs(r - w) <= 1e-6)) { o = {what, v, r, w}; return true; }
        return false; });
    delete[] y;
}
static void x_grid(In &in, Out &o) {
    int kind = in.i(), n = in.i(); double a = in.d(), b = in.d(); unsigned seed = (unsigned)in.d(); o = {-1.0};
    if (kind < 2) { if (n == 200) grid_of<200>(kind, a, b, seed, o); else grid_of<max_datapoints>(kind, a, b, seed, o); }
    if (kind == 2) { LogVArray<max_datapoints> t(a, b); std::vector<double> x; for (int k = 0; k < max_datapoints; k++) { double w = std::exp(2.30258509299404568401799145468 * (a + k * ((b - a) / (max_datapoints - 1.0)))); if (!(std::fabs(t[k] - w) <= 1e-12 * w) || t(k) != t[k]) { o = {9, (double)k, t[k], w}; return; } x.push_back(t[k]); }
        around(max_datapoints, x, seed, [&](double v) { return bad_index(o, v, t.index(v), x); }); }
    if (kind == 3) { LinearVArray<max_datapoints> t(a, b); std::vector<double> x; for (int k = 0; k < max_datapoints; k++) { double w = a + k * ((b - a) / (max_datapoints - 1.0)); if (!(std::fabs(t[k] - w) <= 1e-12 * (std::fabs(w) + std::fabs(a) + std::fabs(b)))) { o = {9, (double)k, t[k], w}; return; } x.push_back(t[k]); }
        around(max_datapoints, x, seed, [&](double v) { if (v >= x[max_datapoints - 1] && v < b) return false; return bad_index(o, v, t.index(v), x); }); }
}
// tridiagonal systems: residual of the solution
static void x_tri(In &in, Out &o) {
    unsigned s = (unsigned)in.d() | 1; int kind = in.i(); auto rnd = [&] { s = s * 1664525u + 1013904223u; return (s >> 8) / 16777216.0; };
    o = {-1.0}; const int N = max_datapoints; static tridiagonal_matrix<N> A; std::array<double, N> b; std::vector<double> l(N), d(N), u(N);
    for (int i = 0; i < N; i++) { l[i] = (rnd() - 0.5) * 2; u[i] = (rnd() - 0.5) * 2; d[i] = (2.5 + rnd()) * (kind && rnd() < 0.5 ? -1 : 1); b[i] = (rnd() - 0.5) * std::exp(6 * rnd()); }
    for (int i = 0; i < N; i++) { if (i) A(i, i - 1) = l[i]; A(i, i) = d[i]; if (i < N - 1) A(i, i + 1) = u[i]; }
    const tridiagonal_matrix<N> &C = A;
    for (int i = 0; i < N; i++) for (int j = std::max(0, i - 3); j <= std::min(N - 1, i + 3); j++) { double w = j == i ? d[i] : j == i - 1 ? l[i] : j == i + 1 ? u[i] : 0; if (C(i, j) != w) { o = {0, (double)i, (double)j, C(i, j), w}; return; } }
    auto x = A.trig_solve(b);
    for (int i = 0; i < N; i++) { double r = d[i] * x[i], m = std::fabs(r) + std::fabs(b[i]); if (i) { r += l[i] * x[i - 1]; m += std::fabs(l[i] * x[i - 1]); } if (i < N - 1) { r += u[i] * x[i + 1]; m += std::fabs(u[i] * x[i + 1]); }
        if (!(std::fabs(r - b[i]) <= 1e-10 * m)) { o = {1, (double)i, (double)i, r, b[i]}; return; } }
}
// spline against a natural cubic spline computed here in extended precision
static void x_spl(In &in, Out &o) {
    double a = in.d(), b = in.d(); unsigned s = (unsigned)in.d() | 1; int kind = in.i(); auto rnd = [&] { s = s * 1664525u + 1013904223u; return (s >> 8) / 16777216.0; };
    o = {-1.0}; const int N = max_datapoints; EnergyTable<N> *tp = new EnergyTable<N>(a, b); const EnergyTable<N> &t = *tp; std::vector<double> y(N); double p = 0.3 + 2 * rnd();
    for (int i = 0; i < N; i++) y[i] = kind == 0 ? rnd() * 10 - 3 : kind == 1 ? std::pow(t[i], p) : std::pow(t[i], p) * (1 + 0.05 * rnd());
    typedef long double L; std::vector<L> x(N), M(N, 0), g(N, 0), h(N, 0);
    for (int i = 0; i < N; i++) x[i] = t[i];
    { std::vector<L> c(N, 0), d(N, 0); for (int i = 1; i < N - 1; i++) { L h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i], r = 6 * (((L)y[i + 1] - y[i]) / h1 - ((L)y[i] - y[i - 1]) / h0), q = 2 * (h0 + h1) - (i > 1 ? h0 * c[i - 1] : 0); c[i] = h1 / q; d[i] = (r - (i > 1 ? h0 * d[i - 1] : 0)) / q; }
      for (int i = N - 2; i >= 1; i--) M[i] = d[i] - (i < N - 2 ? c[i] * M[i + 1] : 0); }
    InterpolatorCSpline<EnergyTable<N>> *sp = new InterpolatorCSpline<EnergyTable<N>>(t, y);
    auto ref = [&](L v, L &val, L &der, L &sv, L &sd) {
        int k; bool lin = false; L w = v; if (v < x[0]) { lin = true; w = x[0]; } if (v > x[N - 1]) { lin = true; w = x[N - 1]; }
        k = std::min(std::max((int)(std::upper_bound(x.begin(), x.end(), w) - x.begin()) - 1, 0), N - 2); L H = x[k + 1] - x[k], u = (x[k + 1] - w), z = (w - x[k]);
        L t1 = M[k] * u * u * u / (6 * H), t2 = M[k + 1] * z * z * z / (6 * H), t3 = (y[k] / H - M[k] * H / 6) * u, t4 = (y[k + 1] / H - M[k + 1] * H / 6) * z;
        val = t1 + t2 + t3 + t4; der = -M[k] * u * u / (2 * H) + M[k + 1] * z * z / (2 * H) + ((L)y[k + 1] - y[k]) / H - (M[k + 1] - M[k]) * H / 6;
        sd = (std::fabs(M[k]) + std::fabs(M[k + 1])) * H + (std::fabs((L)y[k + 1]) + std::fabs((L)y[k])) / H; sv = std::fabs((L)y[k]) + std::fabs((L)y[k + 1]) + (std::fabs(M[k]) + std::fabs(M[k + 1])) * H * H;
        if (lin) { val += der * (v - w); sv += sd * std::fabs(v - w); } };
    auto f = [&](double v) {
        if (!(std::fabs(v) < 1e150)) return false;
        L val, der, sv, sd; ref(v, val, der, sv, sd); double e = (*sp)(v), e2 = sp->eval(v), d = sp->derivative(v);
        if (!(std::fabs(e - (double)val) <= 1e-7 * sv) || !(e == e2)) { o = {7, v, e, (double)val}; return true; }
        if (!(std::fabs(d - (double)der) <= 1e-7 * sd)) { o = {8, v, d, (double)der}; return true; }
        return false; };
    std::vector<double> xs(x.begin(), x.end()); around(N, xs, s, f);
    if (o[0] < 0) around(N, xs, s, [&](double v) { volatile double r = sp->eval(v) + sp->derivative(v); (void)r; return false; });      // every energy, for memory errors
    if (o[0] < 0 && (sp->get_min() != t[0] || sp->get_max() != t[N - 1])) o = {9, 0, sp->get_min(), sp->get_max()};
    delete sp; delete tp;
}
// splines of several tables evaluated one after another; reports the last value and slope
static void x_splh(In &in, Out &o) {
    int n = in.i(); const int N = max_datapoints; struct S { double k; std::vector<double> y; InterpolatorCSpline<EnergyTable<N>> s; }; std::list<S> all; double v = 0, d = 0;
    for (int j = 0; j < n; j++) { double k = in.d(), x = in.d(); S *f = nullptr; for (auto &e : all) if (e.k == k) f = &e;
        if (!f) { unsigned s = (unsigned)k | 1; auto rnd = [&] { s = s * 1664525u + 1013904223u; return (s >> 8) / 16777216.0; }; all.emplace_back(); f = &all.back(); f->k = k; f->y.resize(N); double p = 0.3 + 2 * rnd();
            for (int i = 0; i < N; i++) f->y[i] = std::pow(energy_table(i), p) * (1 + 0.05 * rnd()); f->s = InterpolatorCSpline<EnergyTable<N>>(energy_table, f->y); }
        v = f->s.eval(x); d = f->s.derivative(x); }
    o = {v, d};
}
// quadrature rules: nodes, weights, moments, scaling, error estimate, adaptive integration
struct Probe { std::vector<double> x, y; long one = -1; double operator()(double v) { x.push_back(v); return (long)x.size() - 1 == one ? 1 : 0; } double operator()(double u, double v) { y.push_back(v); return (*this)(u); } };
struct Rand1 { unsigned k; double s; double operator()(double x) const { return s * (std::sin(x * (1 + k % 7)) + std::cos(3 * x + k) + 0.3 * x); } };
struct Counted { std::function<double(double)> g; long n; long max; double lo, hi; double operator()(double x) { if (++n > max) throw 1; lo = std::min(lo, x); hi = std::max(hi, x); return g(x); } };
static void leg(long double x, int M, std::vector<long double> &p) { p.assign(M + 2, 1); p[1] = x; for (int m = 1; m <= M; m++) p[m + 1] = ((2 * m + 1) * x * p[m] - m * p[m - 1]) / (m + 1); }
// nodes and weights of a rule on (a, b)
template<class Fn> static void response(Fn rule, double a, double b, std::vector<double> &x, std::vector<double> &w, std::vector<double> *e = nullptr) {
    Probe p; rule(p, a, b); x = p.x; w.clear(); if (e) e->clear();
    for (size_t i = 0; i < x.size(); i++) { Probe q; q.one = i; auto r = rule(q, a, b); w.push_back(r.first); if (e) e->push_back(r.second); }
}
template<class Fn> static bool rule1(Fn rule, int deg, double a, double b, unsigned k, Out &o) {
    std::vector<double> x, w, u, v, P, Q; response(rule, -1, 1, x, w);
    std::map<double, double> nw; for (size_t i = 0; i < x.size(); i++) nw[x[i]] += w[i];
    for (auto &q : nw) { if (!(std::fabs(q.first) <= 1)) { o = {0, q.first, -1, 1, q.first, 1}; return true; } if (!(q.second > 0)) { o = {1, q.first, -1, 1, q.second, 0}; return true; } }
    std::vector<long double> s(deg + 1, 0), p; for (size_t i = 0; i < x.size(); i++) { leg(x[i], deg, p); for (int m = 0; m <= deg; m++) s[m] += w[i] * p[m]; }
    for (int m = 0; m <= deg; m++) if (!(std::fabs((double)(s[m] - (m ? 0 : 2))) <= 3e-15)) { o = {4, (double)m, -1, 1, (double)s[m], m ? 0. : 2.}; return true; }
    response(rule, a, b, u, v);
    double sc = 4e-15 * (std::fabs(a) + std::fabs(b));
    for (size_t i = 0; i < u.size(); i++) { if (!(u[i] >= std::min(a, b) - sc && u[i] <= std::max(a, b) + sc)) { o = {0, a, b, u[i], u[i], 0}; return true; }
        if (u.size() == x.size() && (!(std::fabs(u[i] - (0.5 * (a + b) + 0.5 * (b - a) * x[i])) <= sc) || !(std::fabs(v[i] - 0.5 * (b - a) * w[i]) <= 1e-14 * std::fabs(b - a)))) { o = {5, a, b, (double)i, u[i], 0.5 * (a + b) + 0.5 * (b - a) * x[i]}; return true; } }
    Rand1 f{k, 1}, g{k + 3, 0.7}; struct Both { Rand1 f, g; double operator()(double x) const { return 2 * f(x) - 3 * g(x); } } h{f, g};
    double F = rule(f, a, b).first, H = rule(g, a, b).first, S = rule(h, a, b).first, m = 20 * std::fabs(b - a) * (1 + std::fabs(a) + std::fabs(b));
    if (!(std::fabs(S - (2 * F - 3 * H)) <= 1e-12 * m)) { o = {2, a, b, 0, S, 2 * F - 3 * H}; return true; }
    { struct Big { std::vector<double> x; double v; double operator()(double u) { x.push_back(u); return v; } } big; for (double v : {1e200, -1e200, 1e-200}) { big.v = v; rule(big, a, b); } for (double u : big.x) if (!(u >= std::min(a, b) - sc && u <= std::max(a, b) + sc)) { o = {0, a, b, u, u, 0}; return true; } }
    double B = rule(f, b, a).first; if (!(std::fabs(F + B) <= 1e-12 * m)) { o = {3, a, b, 0, B, -F}; return true; }
    return false;
}
template<class A> static bool points(const A &p, const std::vector<double> &x, double a, double b, Out &o) {
    std::vector<double> u(p.begin(), p.end()), v; std::map<double, int> q; for (double z : x) q[z]++; for (auto &z : q) v.push_back(z.first); std::sort(u.begin(), u.end());
    double sc = 4e-15 * (std::fabs(a) + std::fabs(b));
    if (u.size() != v.size()) { o = {8, a, b, 0, (double)u.size(), (double)v.size()}; return true; }
    for (size_t i = 0; i < u.size(); i++) if (!(std::fabs(u[i] - v[i]) <= sc)) { o = {8, a, b, (double)i, u[i], v[i]}; return true; }
    return false;
}
template<int N> static void q_gl(double a, double b, unsigned k, Out &o) {
    integrators::GaussLegendreIntegration<N> g; auto r = [&](auto &f, double x, double y) { return std::make_pair(g.integrate(f, x, y), 0.0); };
    if (rule1(r, 2 * N - 1, a, b, k, o)) return;
    auto r2 = [&](auto &f, double x, double y) { return std::make_pair(g(f, x, y), 0.0); }; if (rule1(r2, 2 * N - 1, a, b, k, o)) return;
    std::vector<double> x, w; response(r, a, b, x, w); points(g.get_points(a, b), x, a, b, o);
}
template<int N, int M, class G> static void q_gl2(const G &g, double a, double b, unsigned k, Out &o) {
    // in each variable separately, the integrand being a fixed function of the other one
    double c = -0.3 - (k % 5), d = 1.7 + (k % 3);
    struct F1 { Probe *p; double operator()(double u, double v) { double r = (*p)(u); return r; } };
    for (int op = 0; op < 2; op++) {
        auto val = [&](auto &f, double x0, double x1, double y0, double y1) { return op ? g(f, x0, x1, y0, y1) : g.integrate(f, x0, x1, y0, y1); };
        auto rx = [&](auto &f, double x, double y) { auto h = [&](double u, double v) { return f(u); }; return std::make_pair(val(h, x, y, c, d) / (d - c), 0.0); };
        auto ry = [&](auto &f, double x, double y) { auto h = [&](double u, double v) { return f(v); }; return std::make_pair(val(h, c, d, x, y) / (d - c), 0.0); };
        if (N * M <= 1100) { if (rule1(rx, 2 * N - 1, a, b, k, o)) return; if (rule1(ry, 2 * M - 1, a, b, k, o)) return; }
        for (int q = 0; q < (N * M > 1100 ? 6 : 60); q++) { int i = (q * 7 + k) % (2 * N), j = (q * 13 + 5 * k) % (2 * M);
            auto h = [&](double u, double v) { std::vector<long double> p, s; leg((2 * u - a - b) / (b - a), 2 * N, p); leg((2 * v - c - d) / (d - c), 2 * M, s); return (double)(p[i] * s[j]); };
            double t = val(h, a, b, c, d), e = i == 0 && j == 0 ? (b - a) * (d - c) : 0; if (!(std::fabs(t - e) <= 1e-9 * std::fabs((b - a) * (d - c)))) { o = {4, (double)i, (double)j, 0, t, e}; return; } }
        Probe p; val(p, a, b, c, d); double sc = 4e-15 * (std::fabs(a) + std::fabs(b) + std::fabs(c) + std::fabs(d));
        for (size_t i = 0; i < p.x.size(); i++) if (!(p.x[i] >= std::min(a, b) - sc && p.x[i] <= std::max(a, b) + sc && p.y[i] >= c - sc && p.y[i] <= d + sc)) { o = {0, p.x[i], p.y[i], 0, p.x[i], p.y[i]}; return; }
        for (size_t i = 0; i < p.x.size(); i += 1 + p.x.size() / 200) { Probe q; double s = 0; auto h = [&](double u, double v) { return u == p.x[i] && v == p.y[i] ? 1.0 : 0.0; }; s = val(h, a, b, c, d); if (!(s / ((b - a) * (d - c)) > 0)) { o = {1, p.x[i], p.y[i], 0, s, 0}; return; } }
    }
}
template<int N> static void q_gk(double a, double b, unsigned k, Out &o) {
    typedef integrators::GaussKronrodIntegration<N> G; const int g = (N - 1) / 2, deg = 3 * g + 1 + g % 2;
    auto r = [&](auto &f, double x, double y) { return G::integrate_nonadaptive(f, x, y); };
    if (rule1(r, deg, a, b, k, o)) return;
    for (int m = 0; m < 2 * g; m++) { auto h = [&](double x) { std::vector<long double> p; leg((long double)x, std::max(m, 1), p); return (double)p[m]; }; double e = r(h, -1, 1).second; if (!(std::fabs(e) <= 2.5e-14)) { o = {6, (double)m, -1, 1, e, 0}; return; } }
    { auto h = [&](double x) { std::vector<long double> p; leg((long double)x, 2 * g, p); return (double)p[2 * g]; }; double e = r(h, -1, 1).second; if (!(std::fabs(e) > 1e-3)) { o = {6, (double)(2 * g), -1, 1, e, 1}; return; } }
    std::vector<double> x, w; response(r, a, b, x, w); points(G::get_points(a, b), x, a, b, o);
}
template<int N> static void q_ad(double a, double b, unsigned k, Out &o) {
    typedef integrators::GaussKronrodIntegration<N> G; const int g = (N - 1) / 2, deg = 3 * g + 1 + g % 2;
    // polynomials over any number of parts
    for (int m = 0; m <= std::min(deg, 12); m++) for (int parts : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 31, 64, 100, 257, 1000}) { auto h = [&](double x) { return (m + 1) * std::pow((x - a) / (b - a), m); }; double t = G::integrate(h, a, b, 1e-9, 1e-12, parts); if (!(std::fabs(t - (b - a)) <= 1e-10 * std::fabs(b - a))) { o = {4, (double)m, (double)parts, 0, t, b - a}; return; } }
    // a step inside the interval: the subdivisions follow it and stop
    double c = a + (b - a) * (0.1 + 0.8 * ((k * 37) % 100) / 100.0), big[7][2] = {{a, b}, {1e15, 1e15 + 2}, {-3e11, 1e12}, {1e15, 1e15 + 2}, {1e15 + 0.125, 1e15 + 2.125}, {1e15, 1e15 + 2}, {1e15 - 0.125, 1e15 + 2}}, at[7] = {c, 1e15 + 0.5, 1e3 + k, 1e15 + 0.125, 1e15 + 0.25, 1e15 + 2, 1e15 + 1.875};
    for (int q = 0; q < 7; q++) for (int s = 0; s < 2; s++) { double lo = q ? big[q][0] : std::min(a, b), hi = q ? big[q][1] : std::max(a, b), m = at[q]; Counted f{[=](double x) { return x < m ? 1.0 : 2.0; }, 0, 2000L * N, 1e300, -1e300};
        double t; try { t = s ? G::integrate(f, hi, lo, 1e-13, 1e-14, 1) : G::integrate(f, lo, hi, 1e-13, 1e-14, 1); } catch (int) { o = {7, lo, hi, (double)s, (double)f.n, (double)f.max}; return; }
        double sc = 4e-15 * (std::fabs(lo) + std::fabs(hi)); if (!(f.lo >= lo - sc && f.hi <= hi + sc)) { o = {0, lo, hi, (double)s, f.lo, f.hi}; return; } }
    // neighbouring numbers, which cannot be subdivided
    for (int q = 0; q < 4; q++) { double lo = 1e300; for (int i = 0; i < q / 2 + 1; i++) lo = std::nextafter(lo, 2e300); double hi = std::nextafter(lo, 2e300); if (q % 2) std::swap(lo, hi); Counted f{[](double) { return 1.0; }, 0, 2000L * N, 1e300, -1e300};
        try { G::integrate(f, lo, hi, 1e260, 0, 1); } catch (int) { o = {7, lo, hi, (double)q, (double)f.n, (double)f.max}; return; } }
    // swapped limits and lists of intervals
    auto peak = [&](double x) { double u = (x - c) / (b - a); return 1 / (1e-4 + u * u); };
    double t = G::integrate(peak, a, b, 1e-7, 1e-7), u = G::integrate(peak, b, a, 1e-7, 1e-7); if (!(std::fabs(t + u) <= 1e-5 * std::fabs(t))) { o = {3, a, b, c, u, -t}; return; }
    std::vector<std::pair<double, double>> iv; double sum = 0; for (int i = 0; i < (int)(k % 4); i++) { double x = a + i * 1.5 * (b - a), y = x + (b - a) / (i + 1); if (i % 3 == 1) std::swap(x, y); iv.push_back({x, y}); sum += y - x; }
    auto one = [](double) { return 1.0; }; t = G::integrate_intervals(one, iv); if (!(std::fabs(t - sum) <= 1e-12 * (1 + std::fabs(sum)))) { o = {9, a, b, (double)iv.size(), t, sum}; return; }
    sum = 0; for (auto &z : iv) sum += G::integrate_adaptive(peak, z.first, z.second, 1e-7, 1e-9); t = G::integrate_intervals(peak, iv, 1e-7, 1e-9); if (!(std::fabs(t - sum) <= 1e-4 * (1 + std::fabs(sum)))) { o = {9, a, b, (double)iv.size(), t, sum}; return; }
}
static void x_quad(In &in, Out &o) {
    int kind = in.i(), n = in.i(), m = in.i(); unsigned s = (unsigned)in.d() | 1; int it = in.i(); auto rnd = [&] { s = s * 1664525u + 1013904223u; return (s >> 8) / 16777216.0; };
    double a = it == 0 ? 0 : (rnd() - 0.5) * 20, b = it == 0 ? 1 : a + (0.01 + 10 * rnd()) * (it % 3 == 2 && kind < 4 ? -1 : 1); unsigned k = (unsigned)(rnd() * 1000);
    o = {-1.0};
#define GLS(F) F(3) F(4) F(5) F(6) F(7) F(8) F(10) F(12) F(14) F(16) F(20) F(32) F(64) F(128)
#define G1(N) if (kind == 0 && n == N) q_gl<N>(a, b, k, o);
#define G2(N) if (kind == 1 && n == N) q_gl2<N, N>(integrators::GaussLegendreIntegration2D<N>(), a, b, k, o);
#define G3(N, M) if (kind == 2 && n == N && m == M) q_gl2<N, M>(integrators::GaussLegendreIntegration2DA<N, M>(), a, b, k, o);
#define G4(N) G3(N, N)
#define G5(N) if (kind == 3 && n == N) q_gk<N>(a, b, k, o); if (kind == 4 && n == N) q_ad<N>(a, b, k, o);
    GLS(G1) GLS(G2) GLS(G4) G3(3, 8) G3(8, 5) G3(7, 16) G5(7) G5(15) G5(21) G5(31) G5(61)
}
'''
EXTRAS = ['rate', 'eout', 'reset', 'spline', 'etable', 'data', 'history', 'capi', 'grid', 'tri', 'spl', 'splh', 'quad']
OKT = {'catima::Projectile', 'catima::Target', 'catima::Material', 'catima::Config', 'catima::Phasespace', 'catima::Layers', 'double', 'float', 'int', 'bool', 'unsigned int', 'unsigned long',
       'unsigned char', 'long', 'short', 'char', 'catima::material'}
def base_type(t):
    t = t.strip()
    ref = t.endswith(('&', '*'))
    t = re.sub(r'[&*\s]+$', '', t)
    t = re.sub(r'\s*const\b', '', t).strip()
    t = re.sub(r'\bconst\s+', '', t).strip()
    return t, ref
def vec_of(t):
    m = re.match(r'std::vector<(.*?), std::allocator<.*> ?>$', t)
    return m.group(1) if m else None

_hdr = {}
def ns_in_headers(qual):
    """is a function of this name declared in the headers the driver includes"""
    if 'txt' not in _hdr: _hdr['txt'] = ''.join(open(os.path.join(REPO, 'include/catima', f), errors='replace').read() for f in os.listdir(os.path.join(REPO, 'include/catima')) if f.endswith('.h') and 'generated' not in f)
    return re.search(r'\b%s\s*\(' % re.escape(qual.split('::')[-1]), _hdr['txt']) is not None
class Native:
    """functions by contract name"""
    def __init__(self, prog, contracts, asan=False, over=None):
        self.prog, self.asan, self.over = prog, asan, over
        self.ids = {}; self.proc = None; self.err = None
        self.contracts = contracts
        self.gen = []; self.sigs = {}
        self.drop = set()
        for attempt in range(8):
            self.gen = []; self.sigs = {}; self.ids = {}
            for c in contracts:
                if c.name in self.drop or c.own is not None: continue
                try: self.add(c)
                except KeyError as x: pass
            try: self.build(); break
            except BuildError as x:
                # leave out wrappers that do not compile with the current signatures
                bad = set()
                lines = self.src.split('\n')
                for m in re.finditer(r'driver\.cpp:(\d+):\d+: (?:fatal )?error', str(x)):
                    for k in range(int(m.group(1)) - 1, -1, -1):
                        q = re.search(r'\b[wh](\d+)\b', lines[k])
                        if q:
                            bad |= {n.split('@')[0] for n, i in self.ids.items() if i == int(q.group(1))}; break
                bad = {n for n in bad if not n.startswith('!')}
                if not bad or attempt == 7: raise
                self.drop |= bad
    def add(self, c):
        fname = self.prog.find(c.key)
        if fname is None and c.cfun and c.qual in self.prog.mod.funcs: fname = c.qual
        if fname is None: return
        ctor = bool(c.member and c.qual.split('::')[-1] == c.cls.split('::')[-1])
        f = self.prog.func(fname).f
        internal = bool(re.search(r'\b(internal|private)\b', f.header.split('@')[0]))
        if internal and (c.member or not ns_in_headers(c.qual)): return
        d = self.prog.dem.get(fname, fname)
        q, a = split_sig(d)
        if c.cfun:
            # C function: no parameter types in the name; use the IR types
            ats = [{('f64',): 'double', ('f32',): 'float', ('i', 32): 'int'}.get(t) for t, nm, at in f.params if 'sret' not in at]
            if None in ats: return
        else: ats = split_args(a or '')
        if ats == ['void'] or ats == ['']: ats = []
        params = []
        const = d.endswith(' const')
        if c.member:
            cls = c.cls
            if cls not in OKT: return
            params.append((cls + (' const*' if const else '*'), cls, 'ptr'))
        for t in ats:
            b, ref = base_type(t)
            v = vec_of(b)
            if 'initializer_list<std::array<double, 3' in b: params.append((t, 'List3', 'val'))
            elif v is not None and v in OKT: params.append((t, 'std::vector<%s>' % v, 'ref' if ref else 'val'))
            elif b in OKT and t.endswith('*'): return
            elif b in OKT: params.append((t, b, 'ref' if ref else 'val'))
            elif b.startswith('catima::InterpolatorCSpline'): params.append((t, 'SplineArg', 'spl'))
            else: return
        rt = f.ret
        if c.ret == 'R': rty = 'float' if rt == ('f32',) else 'double'
        elif c.ret == 'I': rty = 'int' if rt[0] == 'i' and rt[1] <= 32 else 'long'
        elif c.ret == 'B': rty = 'bool'
        elif c.ret == 'pair': rty = 'std::pair<int,float>' if rt[0] == 'i' else 'std::pair<double,double>'
        elif c.ret.startswith('vector<'): rty = 'std::' + c.ret
        elif c.ret == 'void': rty = 'void'
        elif c.ret == 'ref': rty = 'void*'
        else: rty = spec.ptype(c.ret)[1]
        for al in [None] + list(c.alias or ()): self.wrapper(c, fname, internal, params, rty, ctor, al)
    def wrapper(self, c, fname, internal, params, rty, ctor, al):
        n = len(self.gen)
        ps = ', '.join(p[0] for p in params)
        if ctor: decl = ''
        elif internal: decl = 'static %s (*w%d)(%s) = %s;' % (rty, n, ps, c.qual)
        else: decl = '%s w%d(%s) asm("%s");' % (rty, n, ps, fname)
        body = ['static void h%d(In &in, Out &o) {' % n]
        names = [p for p, t in c.all_params()]
        for k, (t, b, how) in enumerate(params):
            body.append('  auto a%d_ = G<%s>::get(in);' % (k, b))
            if al and names[k] in al: body.append('  auto &a%d = a%d;' % (k, names.index(al[names[k]])))
            else: body.append('  auto &a%d = a%d_;' % (k, k))
        args = ', '.join({'ptr': '&a%d', 'spl': '*a%d.s', 'ref': 'a%d', 'val': 'il(a%d)' if b == 'List3' else 'a%d'}[how] % k for k, (t, b, how) in enumerate(params))
        if ctor: body.append('  typedef %s X; a0.~X(); new (&a0) X(%s);' % (c.cls, args.partition(', ')[2]))
        elif rty in ('void', 'void*'): body.append('  w%d(%s);' % (n, args))
        else: body.append('  %s r = w%d(%s); put(o, r);' % (rty, n, args))
        for k, (t, b, how) in enumerate(params):
            if b not in ('SplineArg', 'List3'): body.append('  put(o, a%d);' % k)
        body.append('}')
        self.gen.append(decl + '\n' + '\n'.join(body))
        nm = c.name + ('@' + ','.join('%s=%s' % kv for kv in al.items()) if al else '')
        self.ids[nm] = n
        self.sigs[nm] = ([p[1] for p in params], rty)
    def source(self):
        opts = build.options()
        if self.over: opts.update(self.over)
        s = PRE % {'sp': '#ifdef REACTIONS\n put(o, v.sp);\n#endif'}
        s += '\n'.join(self.gen) + EXTRA
        s += 'static void (*table[])(In &, Out &) = {%s};' % ', '.join(['h%d' % i for i in range(len(self.gen))] + ['x_' + e for e in EXTRAS])
        for i, e in enumerate(EXTRAS): self.ids['!' + e] = len(self.gen) + i
        return s + TAIL
    def build(self):
        import hashlib
        src = self.src = self.source()
        h = hashlib.sha256(src.encode()).hexdigest()[:8]
        d = build.workdir('nat%s-%s' % ('a' if self.asan else '', h), self.over)
        self.exe = d + '/driver'
        if os.path.exists(self.exe): return
        tmp = '%s.tmp%d' % (d, os.getpid())
        os.makedirs(tmp, exist_ok=True)
        build.gen_config(tmp + '/gen', self.over)
        open(tmp + '/driver.cpp', 'w').write(src)
        flags = ['-std=c++17', '-O1', '-w', '-fPIC', '-fno-inline', '-fno-access-control', '-ffp-contract=off', '-DNDEBUG', '-I' + REPO + '/include', '-I' + REPO + '/include/catima', '-I' + tmp + '/gen', '-I' + tmp + '/gen/catima']
        if self.asan: flags += ['-g', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']
        cxx = build.LLVM + 'clang++' if os.path.exists(build.LLVM + 'clang++') else 'clang++'
        def one(s):
            o = tmp + '/' + os.path.basename(s) + '.o'
            run([cxx, *flags, '-c', s, '-o', o]); return o
        tus = sources() + [os.path.join(HERE, 'tu', f) for f in sorted(os.listdir(HERE + '/tu')) if f.endswith('.cpp')] + [tmp + '/driver.cpp']
        try:
            with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, tus))
            run([cxx, *(['-fsanitize=address,undefined'] if self.asan else []), *objs, '-o', tmp + '/driver', '-Wl,--unresolved-symbols=report-all'])
        except BuildError:
            shutil.rmtree(tmp, ignore_errors=True); raise
        for o in objs: os.unlink(o)
        if os.path.exists(d): shutil.rmtree(tmp)
        else:
            try: os.rename(tmp, d)
            except OSError: shutil.rmtree(tmp, ignore_errors=True)
        build.prune({d})
    def has(self, name): return name in self.ids
    def start(self):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77')
        self.proc = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    def stop(self):
        if self.proc:
            try: self.proc.kill(); self.proc.wait(); self.proc.stdin.close(); self.proc.stdout.close(); self.proc.stderr.close()
            except OSError: pass
            self.proc = None
    def raw(self, name, doubles, timeout=20):
        """outputs, or raises Crash"""
        if self.proc is None: self.start()
        p = self.proc
        try:
            p.stdin.write(struct.pack('<II%dd' % len(doubles), self.ids[name], len(doubles), *doubles)); p.stdin.flush()
            h = self._read(4, timeout)
            n = struct.unpack('<I', h)[0]
            return list(struct.unpack('<%dd' % n, self._read(8 * n, timeout)))
        except (Crash, BrokenPipeError, struct.error) as x:
            if isinstance(x, Crash) and x.args[0] == 'timeout':
                self.stop(); raise
            try: err = p.stderr.read(20000).decode('utf8', 'replace')
            except Exception: err = ''
            rcode = p.wait()
            self.stop()
            raise Crash('exit status %s: %s' % (rcode, err[:3000]))
    def _read(self, n, timeout):
        fd = self.proc.stdout.fileno(); out = b''
        end = time.time() + timeout
        while len(out) < n:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r: raise Crash('timeout')
            b = os.read(fd, n - len(out))
            if not b: raise Crash('eof')
            out += b
        return out
    # ---- values
    def call(self, name, args, timeout=20):
        ts, rty = self.sigs[name]
        ds = []
        for t, v in zip(ts, args): pack(t, v, ds)
        o = self.raw(name, ds, timeout)
        it = iter(o)
        ret = None if rty in ('void', 'void*') else unpack(rty, it)
        outs = [None if t in ('SplineArg', 'List3') else unpack(t, it) for t in ts]
        return ret, outs
class Crash(Exception): pass
REC = {'catima::Projectile': ('A', 'Z', 'Q', 'T'), 'catima::Target': ('A', 'Z', 'stn'), 'catima::Phasespace': ('sigma_x', 'sigma_a', 'cov_x'),
       'catima::Config': ('z_effective', 'corrections', 'calculation', 'low_energy', 'scattering', 'scattering_factor'),
       'catima::Result': ('Ein', 'Eout', 'Eloss', 'range', 'dEdxi', 'dEdxo', 'sigma_E', 'sigma_a', 'sigma_r', 'sigma_x', 'cov', 'tof', 'sp'),
       'CatimaResult': ('Ein', 'Eout', 'Eloss', 'range', 'dEdxi', 'dEdxo', 'sigma_E', 'sigma_a', 'sigma_r', 'tof')}
INTS = {('catima::Target', 'Z'), ('catima::Config', 'z_effective'), ('catima::Config', 'corrections'), ('catima::Config', 'calculation'), ('catima::Config', 'low_energy'), ('catima::Config', 'scattering')}
def pack(t, v, out):
    if t in REC:
        for k in REC[t]: out.append(float(v[k]))
    elif t == 'catima::Material':
        for k in ('rho', 'th', 'molar_mass', 'i_potential'): out.append(float(v[k]))
        pack('std::vector<catima::Target>', v['atoms'], out)
    elif t == 'catima::Layers': pack('std::vector<catima::Material>', v['materials'], out)
    elif t.startswith('std::vector<'):
        out.append(float(len(v)))
        for x in v: pack(t[12:-1], x, out)
    elif t == 'List3':
        out.append(float(len(v)))
        for x in v: out += [float(x['a']), float(x['b']), float(x['c'])]
    elif t == 'SplineArg':
        pack('catima::Projectile', v['p'], out); pack('catima::Material', v['m'], out); pack('catima::Config', v['c'], out); out.append(float(v['kind']))
    else: out.append(float(v))
def unpack(t, it):
    if t in REC: return {k: (int(next(it)) if (t, k) in INTS else next(it)) for k in REC[t]}
    if t == 'catima::Material':
        d = {k: next(it) for k in ('rho', 'th', 'molar_mass', 'i_potential')}
        d['atoms'] = unpack('std::vector<catima::Target>', it); return d
    if t == 'catima::Layers': return {'materials': unpack('std::vector<catima::Material>', it)}
    if t == 'catima::MultiResult':
        r = unpack('std::vector<catima::Result>', it); return {'results': r, 'total_result': unpack('catima::Result', it)}
    if t == 'catima::DataPoint':
        d = {'p': unpack('catima::Projectile', it), 'm': unpack('catima::Material', it), 'config': unpack('catima::Config', it)}
        for k in ('range', 'range_straggling', 'angular_variance'): d[k] = unpack('std::vector<double>', it)
        return d
    if t.startswith('std::vector<'): return [unpack(t[12:-1], it) for _ in range(int(next(it)))]
    if t.startswith('std::pair<'):
        a, b = next(it), next(it); return {'first': int(a) if t[10:].startswith('int') else a, 'second': b}
    v = next(it)
    if t in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'char', 'unsigned char', 'catima::material'): return int(v)
    if t == 'bool': return bool(v)
    return v
