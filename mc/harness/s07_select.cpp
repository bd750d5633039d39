// S07: the full cross product of the collision configuration
#include "collide.h"
using namespace cl;

/// independent result of the named scheme, or empty if nothing of that name exists
static V named(const Lat& L, const Scheme& s, const V& f) {
	if (s.coll != BGK_STANDARD && s.coll != BGK_REGULARIZED && s.coll != MRT_STANDARD)
		return V();
	double gamma = 1;
	auto eq = [&](double rho, const V& u) -> V {
		switch (s.eq) {
			case BGK_EQUILIBRIUM: return eq_bgk(L, rho, u);
			case QUARTIC_EQUILIBRIUM: return eq_hermite(L, rho, u, 1, 4);
			default: return V();
		}
	};
	const double om = 1 / (s.visc / (gamma * s.dt * L.cs2 * L.scaling * L.scaling) + 0.5);
	const double rho = density(f);
	V u = velocity(L, f), du(L.D, 0.0), us = u;
	for (size_t a = 0; a < s.F.size(); a++)
		du[a] = s.dt * s.F[a] / rho / L.scaling;
	if (s.forcing == SHIFTING_VELOCITY)
		for (size_t a = 0; a < L.D; a++)
			us[a] += du[a] / om;
	V feq = eq(rho, us);
	if (feq.empty())
		return V();
	V r;
	if (s.coll == BGK_STANDARD)
		r = ref_bgk(f, feq, om);
	else if (s.coll == BGK_REGULARIZED) {
		r = ref_regularized(L, f, feq, om);
		// first order part, which only a force makes non-zero
		V neq(L.Q);
		for (size_t i = 0; i < L.Q; i++)
			neq[i] = f[i] - feq[i];
		V j = momentum(L, neq);
		for (size_t i = 0; i < L.Q; i++)
			for (size_t a = 0; a < L.D; a++)
				r[i] += (1 - om) * L.w[i] * L.e[i][a] * j[a] / L.cs2;
	} else {
		V rt;
		if ((s.mb == DHUMIERES_D3Q19) != (L.Q == 19 && L.D == 3) || (s.mb != DHUMIERES_D3Q19) != (L.Q == 9) || !rates(s.mb, s.rm, om, rt))
			return V();
		if (s.rm == RELAX_DHUMIERES_PAPER)
			rt[3] = rt[5] = rt[7] = om;
		std::vector<Poly> B = basis(s.mb);
		r = f;
		for (size_t k = 0; k < B.size(); k++) {
			double nn = 0, m = 0;
			const bool wt = s.mb == DELLAR_D2Q9;
			for (size_t i = 0; i < L.Q; i++) {
				const double p = B[k](L.e[i]);
				nn += p * p * (wt ? L.w[i] : 1);
				m += p * (f[i] - feq[i]);
			}
			for (size_t i = 0; i < L.Q; i++)
				r[i] -= rt[k] * m / nn * B[k](L.e[i]) * (wt ? L.w[i] : 1);
		}
	}
	if (s.forcing == EXACT_DIFFERENCE) {
		for (size_t a = 0; a < L.D; a++)
			us[a] = u[a] + du[a];
		V fs = eq(rho, us);
		for (size_t i = 0; i < L.Q; i++)
			r[i] += fs[i] - feq[i];
	}
	return r;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	std::set<std::string> must;
	for (auto& a : accepted())
		must.insert(a.id);
	for (auto& sn : stencils())
		for (int c = BGK_STANDARD; c <= BGK_REGULARIZED; c++)
			mc::run_case(mc::cat(sn.name, "/", name((CollisionSchemeName) c)), [&] {
				auto st = make(sn.type, 1.9);
				const Lat L(*st);
				std::vector<V> in;
				for (double q : { 0.0, 0.08 }) {
					V u(L.D, q);
					u[0] *= -0.6;
					V f = eq_bgk(L, 1.2, u);
					for (size_t i = 0; i < L.Q; i++)
						f[i] += L.w[i] * 0.2 * std::sin(1 + 2.7 * i);
					in.push_back(f);
					in.push_back(eq_bgk(L, 0.9, u));
				}
				for (int e = BGK_EQUILIBRIUM; e <= ENTROPIC_EQUILIBRIUM; e++)
					for (int ft = NO_FORCING; ft <= GUO; ft++)
						for (int force = 0; force < 2; force++)
							for (int mb = 0; mb < 3; mb++)
								for (int rm = 0; rm < 3; rm++) {
									if (c != MRT_STANDARD && (mb || rm))
										continue;
									Scheme s;
									s.coll = (CollisionSchemeName) c;
									s.eq = (EquilibriumSchemeName) e;
									s.forcing = (ForceType) ft;
									s.mb = (MomentBasis) mb;
									s.rm = (RelaxMode) rm;
									s.visc = 0.21;
									s.dt = 0.13;
									if (force)
										s.F = L.D == 2 ? V { 0.1, -0.2 } : V { 0.1, -0.2, 0.3 };
									std::string id = mc::cat(sn.name, "/", name(s.coll), "/", name(s.eq));
									if (c == MRT_STANDARD)
										id += mc::cat("/", name(s.mb), "/", name(s.rm));
									const std::string key = id + (force ? mc::cat("/", name(s.forcing)) : "");
									Field r;
									bool refused = false;
									try {
										r = collide(*st, s, in);
									} catch (NATriuMException&) {
										refused = true;
									}
									mc::state(key);
									if (refused) {
										mc::outcome("refused");
										mc::check(!must.count(id) || (force && (ft == NO_FORCING || ft == GUO)), key + ":lost", "implemented combination refused");
										continue;
									}
									mc::outcome("collided");
									for (size_t k = 0; k < in.size(); k++) {
										V w;
										if (!(force && (ft == NO_FORCING || ft == GUO)))
											w = named(L, s, in[k]);
										if (!mc::check(!w.empty(), key + ":unnamed", "a combination without meaning was accepted"))
											break;
										for (size_t i = 0; i < L.Q; i++)
											if (!mc::check_close(r.f[k][i], w[i], 1e-8, key + ":other-scheme", mc::cat("population ", i, " of node ", k)))
												break;
									}
								}
			});
	mc::finish();
}
