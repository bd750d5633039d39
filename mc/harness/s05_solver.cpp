// S05: in complete simulations, too, the collision relaxes with the rate that belongs to the configured viscosity
// and the time by which the simulation really advances - whatever the time integrator does to the step
#include "collide.h"
#include "flow.h"
using namespace natrium;
using namespace fl;
namespace cu = natrium::CFDSolverUtilities;

static void integrator(SolverConfiguration& c, size_t k) {
	TimeIntegratorName t = OTHER;
	DealIntegratorName d = NONE;
	std::string s;
	cu::get_integrator_by_id(k, t, d, s);
	c.setTimeIntegrator(t);
	c.setDealIntegrator(d);
}
template<size_t dim> void one(const cl::Accepted& a, size_t k, bool tight, double scaling, double visc, size_t p) {
	Spec sp;
	general(sp, 0.06);
	auto u = sp.u;
	sp.u = [u, scaling](const V& x, size_t c) {return scaling * u(x, c);};
	sp.visc = visc * scaling;
	auto c = config([=](SolverConfiguration& c) {
		c.setStencil(a.st.type);
		c.setStencilScaling(scaling);
		c.setCollisionScheme(a.s.coll);
		c.setEquilibriumScheme(a.s.eq);
		c.setMRTBasis(a.s.mb);
		c.setMRTRelaxationTimes(a.s.rm);
		c.setAdvectionScheme(k ? SEDG : SEMI_LAGRANGIAN);
		c.setSedgOrderOfFiniteElement(p);
		c.setCFL(0.35);
		if (k) {
			integrator(c, k);
			c.setEmbeddedDealIntegratorParameters(1.3, 0.7, 0.03, 1.0, tight ? 1e-7 : 1e-3, tight ? 1e-9 : 1e-4);
		}
	});
	CFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
	const cl::Lat L(*s.getStencil());
	s.collide();
	double first = 0, last = 0;
	for (size_t step = 0; step < mc::tier<size_t>(3, 8); step++) {
		const double t0 = s.getTime();
		s.stream();
		const double dt = s.getTime() - t0;
		(step ? last : first) = dt;
		const Snapshot before = snapshot<dim>(s);
		s.collide();
		const Snapshot after = snapshot<dim>(s);
		after.hash();
		mc::transition();
		if (!mc::check(dt > 0, "time", "time does not advance"))
			return;
		const double om = 1 / (sp.visc / (dt * L.cs2 * scaling * scaling) + 0.5);
		double wrong = 0;
		for (auto& n : before.n) {
			const V& f = n.second.f;
			const V feq = cl::eq_ref(L, a.s.eq, cl::density(f), cl::velocity(L, f));
			const V& r = after.n.at(n.first).f;
			for (size_t x = 0; x < dim; x++)
				for (size_t y = 0; y < dim; y++) {
					auto m = [&](const V& g) {
						return x != y ? cl::stress(L, g, x, y) : cl::stress(L, g, x, x) - cl::stress(L, g, (x + 1) % dim, (x + 1) % dim);
					};
					const double e = std::fabs(m(r) - m(feq) - (1 - om) * (m(f) - m(feq)));
					wrong = e <= wrong ? wrong : std::isnan(e) ? 1e300 : e;
				}
		}
		mc::check(wrong <= 1e-10, "rate", mc::cat("the stress is not relaxed with the rate ", om, " of viscosity ", sp.visc, " and a step of ", dt, " (step ", step + 1, ", error ", wrong, ")"));
	}
	mc::trace();
	mc::outcome(first == last ? "constant step" : "changing step");
}
template<size_t dim> void explore() {
	for (auto& a : cl::accepted()) {
		if (a.st.d != dim)
			continue;
		const bool standard = a.id == "D2Q9/bgk/bgkeq" || a.id == "D3Q19/bgk/bgkeq";
		if (a.st.type == Stencil_D3Q77 && !mc::thorough())
			continue;
		for (size_t k = 0; k <= 15; k++) {
			if (!standard && !mc::thorough() && k != 0 && k != 13)
				continue;
			for (int tight = 0; tight < (k > 10 ? 2 : 1); tight++)
				for (double scaling : standard ? V { 1, 9.1 } : V { 3 })
					for (double visc : standard && dim == 2 ? V { 0.0004, 0.02 } : V { 0.01 })
						for (size_t p : standard && dim == 2 ? std::vector<size_t> { 1, 3 } : std::vector<size_t> { 2 })
							mc::run_case(mc::cat("solver: ", a.id, " integrator ", k, tight ? " tight" : "", " scaling ", scaling, " viscosity ", visc, " p", p), [&]() {
								one<dim>(a, k, tight, scaling, visc, p);
							});
		}
	}
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	explore<2>();
	explore<3>();
	mc::finish();
}
