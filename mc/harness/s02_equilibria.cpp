// S02: all equilibrium forms x velocity sets x scalings x a grid of macroscopic states
#include "collide.h"
#include "natrium/collision/BGKStandard.h"
#include "natrium/collision/BGKStandardTransformed.h"
#include "natrium/collision/BGKSteadyState.h"
#include "natrium/collision/BGKIncompressible.h"
#include "natrium/collision/BGKRegularized.h"
#include "natrium/collision/MRTStandard.h"
#include "natrium/collision/MRTEntropic.h"
#include "natrium/collision/KBCStandard.h"
#include "natrium/collision/KBCCentral.h"
#include "natrium/collision/EntropicStabilized.h"
using namespace cl;

struct State {
	double rho, T, gamma;
	V u;
};
enum Form {
	BGK_, QUARTIC_, STEADY_, INCOMP_
};
static const char* fname[] = { "bgk", "quartic", "steadystate", "incompressible" };

/// moments of feq against the ones the form promises
static void moments(const std::string& key, const Lat& L, const V& f, double rho, const V& mom, const std::vector<V>& P, double tol) {
	mc::check_close(density(f), rho, tol, key + ":density", "density of the equilibrium");
	V m = momentum(L, f);
	for (size_t a = 0; a < L.D; a++)
		mc::check_close(m[a], mom[a], tol, key + ":momentum", "momentum of the equilibrium");
	for (size_t a = 0; a < L.D; a++)
		for (size_t b = 0; b < L.D; b++)
			mc::check_close(stress(L, f, a, b), P[a][b], 3 * tol, key + ":momentum-flux", mc::cat("momentum flux ", a, b));
	mc::state(f);
}

template<int D, int Q> void explore(const StencilName& sn, const Stencil& st, const std::vector<State>& states, double wtol) {
	const Lat L(st);
	SolverConfiguration cfg;
	cfg.setStencil(sn.type);
	cfg.setStencilScaling(st.getScaling());
	NoFlow<D> pd;
	for (double gss : { 1.0, 0.3 })
		for (int form = 0; form < 4; form++) {
			if ((gss != 1.0) != (form == STEADY_))
				continue;
			if (form == STEADY_) {
				cfg.setEquilibriumScheme(STEADYSTATE_EQUILIBRIUM);
				cfg.setBGKSteadyStateGamma(gss);
			} else
				cfg.setEquilibriumScheme(BGK_EQUILIBRIUM);
			GeneralCollisionData<D, Q>* p = new GeneralCollisionData<D, Q>(cfg, pd, st.getScaling(), 0.1, st, st.getSpeedOfSoundSquare(), 0.1);
			p->H3 = calculateH3<D, Q>(p->cs2, p->e);
			p->H4 = calculateH4<D, Q>(p->cs2, p->e);
			std::array<double, Q> feq, geq;
			const std::string key = mc::cat(sn.name, ":", fname[form]);
			for (auto& s : states) {
				if (s.T != 1 && form != QUARTIC_)
					continue;
				if (s.gamma != 1.4 && s.T == 1)
					continue;
				p->density = s.rho;
				p->temperature = s.T;
				for (int a = 0; a < D; a++)
					p->velocity[a] = s.u[a];
				mc::transition();
				V f;
				V mom = s.u;
				double th = L.cs2 * s.T, uf = s.rho;
				if (form == BGK_) {
					BGKEquilibrium<D, Q> eq(p->cs2, p->e);
					eq.calc(feq, *p);
				} else if (form == QUARTIC_) {
					QuarticEquilibrium<D, Q>* eq = new QuarticEquilibrium<D, Q>(p->cs2, p->e);
					eq->calc(feq, *p);
					delete eq;
				} else if (form == STEADY_) {
					SteadyStateEquilibrium<D, Q> eq(p->cs2, p->e);
					eq.calc(feq, *p);
					uf = s.rho / gss;
				} else {
					IncompressibleEquilibrium<D, Q> eq(p->cs2, p->e);
					eq.calc(feq, *p);
					uf = 1;
				}
				for (double& m : mom)
					m *= form == INCOMP_ ? 1 : s.rho;
				std::vector<V> P(D, V(D));
				for (int a = 0; a < D; a++)
					for (int b = 0; b < D; b++)
						P[a][b] = (a == b ? s.rho * th : 0) + uf * s.u[a] * s.u[b];
				f.assign(feq.begin(), feq.end());
				const double tol = wtol * (1 + s.rho);
				// quartic terms need moments up to degree 6 to leave density, momentum and stress untouched
				const bool low = form == QUARTIC_ && !(sn.type == Stencil_D2Q19H || sn.type == Stencil_D2Q19V || sn.type == Stencil_D2Q25H || sn.type == Stencil_D2Q777
						|| sn.type == Stencil_D3Q45 || sn.type == Stencil_D3Q77 || sn.type == Stencil_D3V27);
				if (!low)
					moments(key, L, f, s.rho, mom, P, tol);
				else {
					// velocity sets of degree 5: density and momentum are exact
					mc::check_close(density(f), s.rho, tol, key + ":density", "density of the equilibrium");
					V m = momentum(L, f);
					if (s.T == 1)
						for (int a = 0; a < D; a++)
							mc::check_close(m[a], mom[a], tol, key + ":momentum", "momentum of the equilibrium");
				}
				if (form == QUARTIC_) {
					const V h = eq_hermite(L, s.rho, s.u, s.T, 4);
					for (size_t i = 0; i < L.Q; i++)
						if (!mc::check_close(f[i], h[i], 1e-12 * (1 + std::fabs(s.rho)) * (1 + std::fabs(h[i] / L.w[i])), key + ":expansion", mc::cat("population ", i, " of the Hermite expansion")))
							break;
				}
				mc::outcome(key + (s.T != 1 ? ":thermal" : ""));
				double uu = 0;
				for (double x : s.u)
					uu += x * x;
				if (uu == 0 && s.T == 1)
					for (size_t i = 0; i < L.Q; i++)
						mc::check_close(f[i], s.rho * L.w[i], 1e-13 * (1 + s.rho), key + ":rest", "equilibrium at rest");
				if (form == QUARTIC_ && !low) {
					// energy of the two-population model: E = sum (c^2 f / cs2 + g)/2 = rho (C_v T + u^2/(2 cs2))
					cfg.setHeatCapacityRatioGamma(s.gamma);
					calculateGeqFromFeq<D, Q>(feq, geq, *p);
					double g = 0;
					for (double x : geq)
						g += x;
					const double Cv = 1 / (s.gamma - 1);
					mc::check_close(0.5 * (trace2(L, f) / L.cs2 + g), s.rho * (Cv * s.T + uu / (2 * L.cs2)), 30 * tol * (1 + Cv) * s.T, key + ":energy",
							"total energy of the equilibrium pair");
					std::array<double, D> uv;
					for (int a = 0; a < D; a++)
						uv[a] = s.u[a];
					mc::check_close(calculateTemperature<D, Q>(feq, geq, uv, s.rho, 0, *p, 0), s.T, 30 * tol * s.T / s.rho, key + ":temperature",
							"temperature of the equilibrium pair");
					std::array<double, Q> geq2;
					calculateGeqFromFeq<D, Q>(feq, geq2, s.T, s.gamma);
					for (int i = 0; i < Q; i++)
						mc::check_close(geq2[i], geq[i], 1e-14 * (1 + std::fabs(geq[i])), key + ":geq", "two ways to compute the second equilibrium");
				}
			}
			delete p;
		}
}

static std::vector<State> grid(size_t D) {
	std::vector<State> r;
	for (double rho : mc::thorough() ? V { 1, 0.3, 2.5, 1e-4, 40 } : V { 1, 0.3, 2.5 })
		for (auto& u : cl::velocities(D, true))
			for (double T : mc::thorough() ? V { 1, 0.7, 0.9, 1.1, 1.6, 3 } : V { 1, 0.7, 1.6 })
				for (double g : mc::thorough() ? V { 1.4, 5. / 3., 1.2 } : V { 1.4, 5. / 3. })
					r.push_back(State { rho, T, g, u });
	return r;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	for (auto& sn : stencils())
		for (double s : mc::thorough() ? V { 1, 0.25, 3.7, 57.7350269, 0.01 } : V { 1, 3.7 }) {
			mc::run_case(mc::cat("new/", sn.name, "/s=", s), [&] {
				auto st = make(sn.type, s);
				auto g = grid(sn.d);
				const double t = 1e-9;
				switch (sn.type) {
				case Stencil_D2Q9: explore<2, 9>(sn, *st, g, 1e-13); break;
				case Stencil_D2Q19H: explore<2, 19>(sn, *st, g, t); break;
				case Stencil_D2Q19V: explore<2, 19>(sn, *st, g, t); break;
				case Stencil_D2Q25H: explore<2, 25>(sn, *st, g, t); break;
				case Stencil_D2Q777: {
					std::vector<State> few;
					for (size_t i = 0; i < g.size(); i += mc::tier(13, 3))
						few.push_back(g[i]);
					explore<2, 777>(sn, *st, few, 1e-4);
					break;
				}
				case Stencil_D3Q13: explore<3, 13>(sn, *st, g, t); break;
				case Stencil_D3Q15: explore<3, 15>(sn, *st, g, 1e-13); break;
				case Stencil_D3Q19: explore<3, 19>(sn, *st, g, 1e-13); break;
				case Stencil_D3Q21: explore<3, 21>(sn, *st, g, t); break;
				case Stencil_D3Q27: explore<3, 27>(sn, *st, g, 1e-13); break;
				case Stencil_RD3Q27: explore<3, 27>(sn, *st, g, t); break;
				case Stencil_D3Q45: explore<3, 45>(sn, *st, g, t); break;
				case Stencil_D3Q77: explore<3, 77>(sn, *st, g, t); break;
				case Stencil_D3V27: explore<3, 27>(sn, *st, g, t); break;
				}
			});
			// the equilibria the solver initializes with
			mc::run_case(mc::cat("models/", sn.name, "/s=", s), [&] {
				auto st = make(sn.type, s);
				const Lat L(*st);
				std::vector<std::pair<std::string, boost::shared_ptr<CollisionModel> > > models;
				models.push_back( { "BGKStandard", boost::make_shared<BGKStandard>(0.7, 0.1, st) });
				models.push_back( { "BGKStandardTransformed", boost::make_shared<BGKStandardTransformed>(0.7, 0.1, st) });
				models.push_back( { "BGKSteadyState", boost::make_shared<BGKSteadyState>(0.7, 0.1, st, 0.4) });
				models.push_back( { "BGKIncompressible", boost::make_shared<BGKIncompressible>(0.7, 0.1, st) });
				models.push_back( { "BGKRegularized", boost::make_shared<BGKRegularized>(0.7, 0.1, st) });
				models.push_back( { "MRTEntropic", boost::make_shared<MRTEntropic>(0.7, 0.1, st) });
				models.push_back( { "KBCCentral", boost::make_shared<KBCCentral>(0.7, 0.1, st) });
				models.push_back( { "MRTStandard", boost::make_shared<MRTStandard>(0.7, 0.1, st) });
				models.push_back( { "KBCStandard", boost::make_shared<KBCStandard>(0.7, 0.1, st) });
				models.push_back( { "EntropicStabilized", boost::make_shared<EntropicStabilized>(0.7, 0.1, st) });
				const double wt = sn.q == 777 ? 1e-4 : 1e-9;
				for (auto& m : models) {
					// product-form (entropic) equilibrium: defined on the full product velocity sets
					const bool product = m.first == "KBCStandard";
					if (product && sn.type != Stencil_D2Q9 && sn.type != Stencil_D3Q27)
						continue;
					const std::string key = mc::cat(sn.name, ":", m.first);
					for (double rho : V { 1, 0.3, 2.5 })
						for (auto& u : cl::velocities(sn.d, true)) {
							numeric_vector un(sn.d);
							V us = u;
							for (size_t a = 0; a < sn.d; a++)
								un(a) = u[a] * s;
							std::vector<double> feq(sn.q);
							m.second->getEquilibriumDistributions(feq, un, rho);
							mc::transition();
							if (m.first == "BGKStandardTransformed")
								for (size_t i = 0; i < sn.q; i++)
									feq[i] += L.w[i];
							V mom = u;
							for (double& x : mom)
								x *= rho;
							std::vector<V> P(sn.d, V(sn.d));
							for (size_t a = 0; a < sn.d; a++)
								for (size_t b = 0; b < sn.d; b++)
									P[a][b] = (a == b ? rho * L.cs2 : 0) + rho / (m.first == "BGKSteadyState" ? 0.4 : 1) * u[a] * u[b];
							if (product)
								for (size_t a = 0; a < sn.d; a++)
									for (size_t b = 0; b < sn.d; b++)
										P[a][b] = stress(L, feq, a, b);
							moments(key, L, feq, rho, mom, P, wt * (1 + rho));
						}
				}
			});
		}
	mc::finish();
}
