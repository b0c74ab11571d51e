// Instantiates the header-only parts of the library so that they appear in the verified module.
// It contains no definitions of its own beyond calls into the library's headers.
#include <cmath>
#include <cassert>
#include <cstddef>
#include <vector>
#include "catima/catima.h"
#include "catima/reactions.h"
#include "catima/integrator.h"
#include "catima/storage.h"
#include "catima/spline.h"
#include "catima/nucdata.h"
#include "catima/data_ionisation_potential.h"
#include "catima/abundance_database.h"
#include "catima/cwrapper.h"

extern "C" double vf_integrand(double);
extern "C" double vf_integrand2(double, double);
struct OpaqueF { double operator()(double x) const { return vf_integrand(x); } };
struct OpaqueF2 { double operator()(double x, double y) const { return vf_integrand2(x, y); } };

template<int... O> struct GLs {};
template<int O> void use_gl() {
    integrators::GaussLegendreIntegration<O> g; OpaqueF f; volatile double r;
    r = g.integrate(f, 0., 1.); r = g(f, 0., 1.);
    auto pts = g.get_points(0., 1.); r = pts[0];
    integrators::GaussLegendreIntegration2D<O> g2; OpaqueF2 f2;
    r = g2.integrate(f2, 0., 1., 0., 1.);
    integrators::GaussLegendreIntegration2DA<O, O> g3;
    r = g3.integrate(f2, 0., 1., 0., 1.);
    r = g2(f2, 0., 1., 0., 1.); r = g3(f2, 0., 1., 0., 1.);
}
template<int O, int Q> void use_gl2() { integrators::GaussLegendreIntegration2DA<O, Q> g; OpaqueF2 f; volatile double r = g.integrate(f, 0., 1., 0., 1.); (void)r; }
template<int O> void use_gk() {
    using G = integrators::GaussKronrodIntegration<O>; OpaqueF f; volatile double r;
    r = G::integrate(f, 0., 1.); r = G::integrate_nonadaptive(f, 0., 1.).first; r = G::integrate_adaptive(f, 0., 1.);
    std::vector<std::pair<double, double>> iv; r = G::integrate_intervals(f, iv);
    auto pts = G::get_points(0., 1.); r = pts[0];
}
void vf_use_integrators() {
    use_gl<3>(); use_gl<4>(); use_gl<5>(); use_gl<6>(); use_gl<7>(); use_gl<8>(); use_gl<10>(); use_gl<12>(); use_gl<14>();
    use_gl<16>(); use_gl<20>(); use_gl<32>(); use_gl<64>(); use_gl<128>();
    use_gl2<3, 8>(); use_gl2<8, 5>(); use_gl2<7, 16>();
    use_gk<7>(); use_gk<15>(); use_gk<21>(); use_gk<31>(); use_gk<61>();
}
using namespace catima;
template struct catima::EnergyTable<max_datapoints>;
template struct catima::EnergyTable<200>;
template struct catima::LogVArray<max_datapoints>;
template struct catima::LinearVArray<max_datapoints>;
template class catima::InterpolatorCSpline<EnergyTable<max_datapoints>>;
template struct catima::cspline_special<EnergyTable<max_datapoints>>;
template class catima::tridiagonal_matrix<max_datapoints>;
template class catima::tridiagonal_matrix<3>;
template class catima::tridiagonal_matrix<4>;
template class catima::tridiagonal_matrix<300>;

void vf_use_misc(double x, int i, Projectile p, Material m, Layers l, Config c, double *y, Data &d) {
    volatile double r; volatile int k;
    r = EnergyTable_interpolate(energy_table, x, y);
    const Material &cm = m;
    r = cm.weight_fraction(i); r = cm.molar_fraction(i); k = cm.ncomponents(); r = cm.M(); m.M(x);
    r = cm.density(); m.density(x); r = cm.thickness(); r = cm.thickness_cm(); m.thickness(x); m.thickness_cm(x); m.I(x); r = cm.I();
    r = cm.number_density(); r = cm.number_density(i); r = cm.number_density_cm2(); r = cm.number_density_cm2(i);
    r = cm.get_element(i).A;
    k = l.num(); r = l[i].M(); r = l.get_materials()[0].M();
    r = reaction_rate(x, x); r = nonreaction_rate(x, x); OpaqueF f; r = reaction_rate(f, x);
    r = catima::Ecm_from_T(x, x, x); 
    r = power(x, x); r = ipow(x, i); r = ipot(i); r = element_atomic_weight(i); r = element_density(i);
    r = calculate(p, m, x, c).Ein; MultiResult mr = calculate(p, l, c); mr = calculate(p, x, l, c);
    Material mm = get_material(material::Water);
    d.Reset(); k = d.GetN(); k = d.get_index(); r = d.Get(i).p.A;
    Projectile pp(x, x, x, x); pp(x);
    const DataPoint &dp = get_data(p, m, c); r = dp.p.A;
    CatimaResult cr = catima_calculate(x, i, x, x, x, x, x); r = cr.Ein;
}
