// S03: one collision of every accepted scheme on every node state of the alphabet
#include "collide.h"
#include "natrium/collision/BGKStandard.h"
#include "natrium/collision/BGKStandardTransformed.h"
#include "natrium/collision/BGKSteadyState.h"
#include "natrium/collision/BGKIncompressible.h"
#include "natrium/collision/BGKRegularized.h"
#include "natrium/collision/MRTStandard.h"
#include "natrium/collision/MRTEntropic.h"
#include "natrium/collision/KBCStandard.h"
#include "natrium/collision/KBCCentral.h"
#include "natrium/collision/EntropicStabilized.h"
using namespace cl;

static void conserved(const std::string& key, const Lat& L, const std::vector<Node>& A, const Field& r, double tol, bool fixpoint) {
	for (size_t k = 0; k < A.size(); k++) {
		const double t = tol * magnitude(A[k].f);
		const double rho = density(A[k].f);
		const V m = momentum(L, A[k].f);
		mc::check_close(density(r.f[k]), rho, t, key + ":mass", "density after the collision of " + A[k].id);
		const V m2 = momentum(L, r.f[k]);
		for (size_t a = 0; a < L.D; a++) {
			mc::check_close(m2[a], m[a], 2 * t, key + ":momentum", "momentum after the collision of " + A[k].id);
			mc::check_close(r.u[k][a], m[a] / rho * L.scaling, 1e-12 * L.scaling, key + ":reported-velocity", "reported velocity of " + A[k].id);
		}
		mc::check_close(r.rho[k], rho, 1e-13 * magnitude(A[k].f), key + ":reported-density", "reported density of " + A[k].id);
		if (A[k].eq && fixpoint)
			for (size_t i = 0; i < L.Q; i++)
				mc::check_close(r.f[k][i], A[k].f[i], t, key + ":fixpoint", mc::cat("population ", i, " of ", A[k].id));
		mc::state(r.f[k]);
		mc::outcome(A[k].eq ? "equilibrium kept" : "disturbed node relaxed");
	}
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	for (auto& a : accepted())
		for (auto& p : params())
			mc::run_case(mc::cat(a.id, "/s=", p.scaling, "/nu=", p.visc, "/dt=", p.dt), [&] {
				auto st = make(a.st.type, p.scaling);
				const Lat L(*st);
				std::vector<Node> A = alphabet(L, a.s.eq, mc::thorough());
				Scheme s = a.s;
				s.visc = p.visc;
				s.dt = p.dt;
				Field r = collide(*st, s, pops(A));
				const bool exact = a.st.q == 9 || a.st.type == Stencil_D3Q15 || a.st.type == Stencil_D3Q19 || a.st.type == Stencil_D3Q27;
				// quartic equilibria need moments to degree 6 for the momentum flux, and to degree 4 for density and momentum
				conserved(a.id, L, A, r, exact ? 1e-12 : 1e-8, true);
			});
	// the collision model classes
	struct M {
		const char* n;
		StencilType t;
		std::function<boost::shared_ptr<CollisionModel>(double, double, boost::shared_ptr<Stencil>)> mk;
		bool bgkfix; // equilibria of the BGK form are fixed points
	};
#define MK(C) [](double tau, double dt, boost::shared_ptr<Stencil> s) -> boost::shared_ptr<CollisionModel> {return boost::make_shared<C>(tau, dt, s);}
	std::vector<M> ms = {
		{ "BGKStandard", Stencil_D2Q9, MK(BGKStandard), true }, { "BGKStandard", Stencil_D3Q15, MK(BGKStandard), true },
		{ "BGKStandard", Stencil_D3Q19, MK(BGKStandard), true }, { "BGKStandard", Stencil_D3Q27, MK(BGKStandard), true },
		{ "BGKRegularized", Stencil_D2Q9, MK(BGKRegularized), true }, { "EntropicStabilized", Stencil_D2Q9, MK(EntropicStabilized), true },
		{ "EntropicStabilized", Stencil_D3Q19, MK(EntropicStabilized), true }, { "KBCCentral", Stencil_D2Q9, MK(KBCCentral), true },
		// these relax towards an equilibrium of their own
		{ "MRTStandard", Stencil_D2Q9, MK(MRTStandard), false }, { "KBCStandard", Stencil_D2Q9, MK(KBCStandard), false },
	};
	for (auto& m : ms)
		for (auto& p : params())
			mc::run_case(mc::cat("class/", m.n, "/", (int) m.t, "/s=", p.scaling, "/nu=", p.visc), [&] {
				auto st = make(m.t, p.scaling);
				const Lat L(*st);
				std::vector<Node> A = alphabet(L, BGK_EQUILIBRIUM, false);
				const double tau = p.visc / (p.dt * st->getSpeedOfSoundSquare());
				auto model = m.mk(tau, p.dt, st);
				const size_t n = A.size();
				dealii::IndexSet dofs(n);
				dofs.add_range(0, n);
				DistributionFunctions f;
				f.reinit(L.Q, dofs, MPI_COMM_WORLD);
				distributed_vector rho;
				rho.reinit(dofs, MPI_COMM_WORLD);
				std::vector<distributed_vector> u(L.D);
				for (auto& x : u)
					x.reinit(dofs, MPI_COMM_WORLD);
				for (size_t k = 0; k < n; k++)
					for (size_t i = 0; i < L.Q; i++)
						f.at(i)(k) = A[k].f[i];
				model->collideAll(f, rho, u, dofs, false);
				mc::transition(n);
				Field r;
				for (size_t k = 0; k < n; k++) {
					V x(L.Q), y(L.D);
					for (size_t i = 0; i < L.Q; i++)
						x[i] = f.at(i)(k);
					for (size_t b = 0; b < L.D; b++)
						y[b] = u[b](k);
					r.f.push_back(x);
					r.u.push_back(y);
					r.rho.push_back(rho(k));
				}
				conserved(mc::cat("class:", m.n, ":", L.D, "D", L.Q), L, A, r, 1e-12, m.bgkfix);
			});
	mc::finish();
}
