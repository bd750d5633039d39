// S06: momentum added by external forces
#include "collide.h"
using namespace cl;

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	for (auto& a : accepted())
		for (int ft = 0; ft < 4; ft++)
			for (auto& p : params())
				mc::run_case(mc::cat(a.id, "/", name((ForceType) ft), "/s=", p.scaling, "/nu=", p.visc, "/dt=", p.dt), [&] {
					auto st = make(a.st.type, p.scaling);
					const Lat L(*st);
					std::vector<Node> A = alphabet(L, a.s.eq, false);
					if (!mc::thorough()) { // every third state
						std::vector<Node> B;
						for (size_t k = 0; k < A.size(); k += 3)
							B.push_back(A[k]);
						A = B;
					}
					Scheme s = a.s;
					s.visc = p.visc;
					s.dt = p.dt;
					s.forcing = (ForceType) ft;
					const bool exact = a.st.q == 9 || a.st.type == Stencil_D3Q15 || a.st.type == Stencil_D3Q19 || a.st.type == Stencil_D3Q27;
					// no force object, and a force object that is zero
					for (const V& F : { V(), V(L.D, 0.0) }) {
						s.F = F;
						Field r = collide(*st, s, pops(A));
						for (size_t k = 0; k < A.size(); k++) {
							const V m = momentum(L, A[k].f), m2 = momentum(L, r.f[k]);
							for (size_t x = 0; x < L.D; x++)
								mc::check_close(m2[x], m[x], (exact ? 1e-12 : 1e-8) * magnitude(A[k].f), a.id + ":no-force", "momentum without force");
						}
					}
					// single axes, both signs, and a diagonal; the size follows the scaling
					std::vector<V> Fs;
					for (size_t x = 0; x < L.D; x++)
						for (double q : { 0.01, -0.03 }) {
							V F(L.D, 0.0);
							F[x] = q * p.scaling / p.dt;
							Fs.push_back(F);
						}
					V F(L.D, 0.02 * p.scaling / p.dt);
					F[L.D - 1] *= -0.5;
					Fs.push_back(F);
					for (auto& F : Fs) {
						s.F = F;
						Field r;
						bool refused = false;
						try {
							r = collide(*st, s, pops(A));
						} catch (NATriuMException&) {
							refused = true;
						}
						const std::string key = a.id + ":" + name((ForceType) ft);
						if (ft == NO_FORCING || ft == GUO) {
							mc::check(refused, key + ":accepted", "a force with a forcing scheme that cannot apply it was accepted");
							mc::outcome("refused");
							continue;
						}
						if (!mc::check(!refused, key + ":refused", "forcing scheme refused"))
							continue;
						mc::outcome(name((ForceType) ft));
						for (size_t k = 0; k < A.size(); k++) {
							const double t = (exact ? 1e-11 : 1e-7) * magnitude(A[k].f);
							const double rho = density(A[k].f);
							const V m = momentum(L, A[k].f), m2 = momentum(L, r.f[k]);
							mc::check_close(density(r.f[k]), rho, t, key + ":density", "density after a forced collision of " + A[k].id);
							for (size_t x = 0; x < L.D; x++) {
								mc::check_close(m2[x] * p.scaling, m[x] * p.scaling + F[x] * p.dt, t * p.scaling, key + ":momentum",
										mc::cat("momentum ", x, " after a forced collision of ", A[k].id));
								mc::check_close(r.u[k][x], m[x] / rho * p.scaling + 0.5 * p.dt * F[x] / rho, 1e-11 * p.scaling, key + ":velocity",
										mc::cat("reported velocity ", x, " of ", A[k].id));
							}
							mc::check_close(r.rho[k], rho, 1e-12 * magnitude(A[k].f), key + ":reported-density", "reported density");
							mc::state(r.f[k]);
						}
					}
				});
	mc::finish();
}
