// S05: relaxation of the deviatoric second moment with the rate of the configured viscosity
#include "collide.h"
#include "natrium/collision/BGKStandard.h"
#include "natrium/collision/BGKStandardTransformed.h"
using namespace cl;

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	std::vector<Param> ps = params();
	{ // small and large viscosities and steps beyond the common grid
		for (double s : V { 1, 3.7, 0.4 })
			for (double nu : V { 1e-5, 0.013, 2.5 })
				for (double dt : V { 0.01, 1.0 })
					ps.push_back(Param { s, nu, dt });
	}
	for (auto& a : accepted())
		for (auto& p : ps)
			mc::run_case(mc::cat(a.id, "/s=", p.scaling, "/nu=", p.visc, "/dt=", p.dt), [&] {
				auto st = make(a.st.type, p.scaling);
				const Lat L(*st);
				std::vector<Node> A = alphabet(L, a.s.eq, mc::thorough());
				Scheme s = a.s;
				s.visc = p.visc;
				s.dt = p.dt;
				const double om = 1 / (p.visc / (p.dt * L.cs2 * p.scaling * p.scaling) + 0.5);
				Field r = collide(*st, s, pops(A));
				const bool exact = a.st.q == 9 || a.st.type == Stencil_D3Q15 || a.st.type == Stencil_D3Q19 || a.st.type == Stencil_D3Q27;
				for (size_t k = 0; k < A.size(); k++) {
					const V feq = eq_ref(L, a.s.eq, density(A[k].f), velocity(L, A[k].f));
					const double t = (exact ? 1e-12 : 1e-8) * magnitude(A[k].f);
					for (size_t x = 0; x < L.D; x++)
						for (size_t y = 0; y < L.D; y++) {
							if (y < x)
								continue;
							// off-diagonal moments, and the differences of neighbouring diagonal ones
							auto m = [&](const V& f) {
								return x != y ? stress(L, f, x, y) : stress(L, f, x, x) - stress(L, f, (x + 1) % L.D, (x + 1) % L.D);
							};
							const double before = m(A[k].f) - m(feq);
							mc::check_close(m(r.f[k]) - m(feq), (1 - om) * before, 3 * t, a.id + ":stress",
									mc::cat("deviatoric stress ", x, y, " after the collision of ", A[k].id, " (rate ", om, ")"));
							if (std::fabs(before) > 1e-6)
								mc::outcome("stress relaxed");
						}
					if (a.s.coll == BGK_STANDARD)
						for (size_t i = 0; i < L.Q; i++)
							mc::check_close(r.f[k][i], A[k].f[i] - om * (A[k].f[i] - feq[i]), t, a.id + ":bgk-rate", mc::cat("population ", i, " of ", A[k].id));
					mc::state(r.f[k]);
				}
			});
	for (auto& sn : stencils())
		for (auto& p : ps)
			mc::run_case(mc::cat("tau/", sn.name, "/s=", p.scaling, "/nu=", p.visc, "/dt=", p.dt), [&] {
				auto st = make(sn.type, p.scaling);
				const Lat L(*st);
				const double tau = p.visc / (p.dt * L.cs2 * p.scaling * p.scaling);
				mc::transition();
				mc::check_close(calculateTauFromNu(p.visc, st->getSpeedOfSoundSquare(), p.dt), tau + 0.5, 1e-12 * (1 + tau), "tau-from-nu", "relaxation time");
				mc::check_close(BGKStandard::calculateRelaxationParameter(p.visc, p.dt, *st), tau, 1e-12 * (1 + tau), "relaxation-parameter", "relaxation parameter");
				mc::check_close(BGKStandardTransformed::calculateRelaxationParameter(p.visc, p.dt, *st), tau, 1e-12 * (1 + tau), "relaxation-parameter-transformed",
						"relaxation parameter");
				BGKStandard b(tau, p.dt, st);
				mc::check_close(b.getRelaxationParameter(), tau, 1e-12 * (1 + tau), "bgk-parameter", "stored relaxation parameter");
				mc::state(sn.name);
			});
	mc::finish();
}
