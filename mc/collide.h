// Shared by the collision harnesses (S02-S07, S24): node states, the real collision step,
// and an independent reference for every scheme the configuration can name.
#ifndef MC_COLLIDE_H_
#define MC_COLLIDE_H_
#include "mc.h"
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D2Q19H.h"
#include "natrium/stencils/D2Q19V.h"
#include "natrium/stencils/D2Q25H.h"
#include "natrium/stencils/D2Q777.h"
#include "natrium/stencils/D3Q13.h"
#include "natrium/stencils/D3Q15.h"
#include "natrium/stencils/D3Q19.h"
#include "natrium/stencils/D3Q21.h"
#include "natrium/stencils/D3Q27.h"
#include "natrium/stencils/D3Q45.h"
#include "natrium/stencils/D3Q77.h"
#include "natrium/stencils/D3V27.h"
#include "natrium/stencils/RD3Q27.h"
#include "natrium/utilities/CFDSolverUtilities.h"
#include "natrium/utilities/MPIGuard.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/solver/DistributionFunctions.h"
#include "natrium/problemdescription/ProblemDescription.h"
#include "natrium/problemdescription/ConstantExternalForce.h"
#include "natrium/collision_advanced/CollisionSelection.h"

namespace cl {
using namespace natrium;
typedef std::vector<double> V;

struct StencilName {
	const char* name;
	StencilType type;
	size_t d, q;
};
inline const std::vector<StencilName>& stencils() {
	static std::vector<StencilName> s = { { "D2Q9", Stencil_D2Q9, 2, 9 }, { "D2Q19H", Stencil_D2Q19H, 2, 19 }, { "D2Q19V", Stencil_D2Q19V, 2, 19 }, {
			"D2Q25H", Stencil_D2Q25H, 2, 25 }, { "D2Q777", Stencil_D2Q777, 2, 777 }, { "D3Q13", Stencil_D3Q13, 3, 13 }, { "D3Q15", Stencil_D3Q15, 3, 15 }, {
			"D3Q19", Stencil_D3Q19, 3, 19 }, { "D3Q21", Stencil_D3Q21, 3, 21 }, { "D3Q27", Stencil_D3Q27, 3, 27 }, { "RD3Q27", Stencil_RD3Q27, 3, 27 }, {
			"D3Q45", Stencil_D3Q45, 3, 45 }, { "D3Q77", Stencil_D3Q77, 3, 77 }, { "D3V27", Stencil_D3V27, 3, 27 } };
	return s;
}
inline boost::shared_ptr<Stencil> make(StencilType t, double s) {
	switch (t) {
	case Stencil_D2Q9:
		return boost::make_shared<D2Q9>(s);
	case Stencil_D2Q19H:
		return boost::make_shared<D2Q19H>(s);
	case Stencil_D2Q19V:
		return boost::make_shared<D2Q19V>(s);
	case Stencil_D2Q25H:
		return boost::make_shared<D2Q25H>(s);
	case Stencil_D2Q777:
		return boost::make_shared<D2Q777>(s);
	case Stencil_D3Q13:
		return boost::make_shared<D3Q13>(s);
	case Stencil_D3Q15:
		return boost::make_shared<D3Q15>(s);
	case Stencil_D3Q19:
		return boost::make_shared<D3Q19>(s);
	case Stencil_D3Q21:
		return boost::make_shared<D3Q21>(s);
	case Stencil_D3Q27:
		return boost::make_shared<D3Q27>(s);
	case Stencil_D3Q45:
		return boost::make_shared<D3Q45>(s);
	case Stencil_D3Q77:
		return boost::make_shared<D3Q77>(s);
	case Stencil_D3V27:
		return boost::make_shared<D3V27>(s);
	case Stencil_RD3Q27:
		return boost::make_shared<RD3Q27>(s);
	}
	return boost::shared_ptr<Stencil>();
}

/// velocity set in units of the scaling
struct Lat {
	size_t D, Q;
	std::vector<V> e;
	V w;
	double cs2, scaling;
	Lat(const Stencil& s) :
			D(s.getD()), Q(s.getQ()), cs2(s.getSpeedOfSoundSquare() / (s.getScaling() * s.getScaling())), scaling(s.getScaling()) {
		for (size_t i = 0; i < Q; i++) {
			V x;
			for (size_t a = 0; a < D; a++)
				x.push_back(s.getDirection(i)(a) / s.getScaling());
			e.push_back(x);
			w.push_back(s.getWeight(i));
		}
	}
};
inline double density(const V& f) {
	double r = 0;
	for (double x : f)
		r += x;
	return r;
}
inline V momentum(const Lat& L, const V& f) {
	V m(L.D, 0.0);
	for (size_t i = 0; i < L.Q; i++)
		for (size_t a = 0; a < L.D; a++)
			m[a] += f[i] * L.e[i][a];
	return m;
}
inline V velocity(const Lat& L, const V& f) {
	V m = momentum(L, f);
	const double r = density(f);
	for (double& x : m)
		x /= r;
	return m;
}
inline double stress(const Lat& L, const V& f, size_t a, size_t b) {
	double r = 0;
	for (size_t i = 0; i < L.Q; i++)
		r += f[i] * L.e[i][a] * L.e[i][b];
	return r;
}
/// trace of the second moment
inline double trace2(const Lat& L, const V& f) {
	double r = 0;
	for (size_t a = 0; a < L.D; a++)
		r += stress(L, f, a, a);
	return r;
}

// ---- reference equilibria (u in units of the scaling, theta = T) ---------------------------
inline V eq_bgk(const Lat& L, double rho, const V& u) {
	V f(L.Q);
	double uu = 0;
	for (double x : u)
		uu += x * x;
	for (size_t i = 0; i < L.Q; i++) {
		double eu = 0;
		for (size_t a = 0; a < L.D; a++)
			eu += L.e[i][a] * u[a];
		f[i] = L.w[i] * rho * (1 + eu / L.cs2 + eu * eu / (2 * L.cs2 * L.cs2) - uu / (2 * L.cs2));
	}
	return f;
}
/// Hermite expansion to the given order with full tensors
inline V eq_hermite(const Lat& L, double rho, const V& u, double T, int order) {
	const size_t D = L.D;
	const double c = L.cs2, t = c * (T - 1);
	auto dl = [](size_t a, size_t b) {return a == b ? 1.0 : 0.0;};
	V f(L.Q);
	for (size_t i = 0; i < L.Q; i++) {
		const V& e = L.e[i];
		double s = 1;
		for (size_t a = 0; a < D; a++)
			s += u[a] * e[a] / c;
		for (size_t a = 0; a < D; a++)
			for (size_t b = 0; b < D; b++)
				s += (u[a] * u[b] + t * dl(a, b)) * (e[a] * e[b] - c * dl(a, b)) / (2 * c * c);
		if (order >= 3)
			for (size_t a = 0; a < D; a++)
				for (size_t b = 0; b < D; b++)
					for (size_t g = 0; g < D; g++) {
						const double m = u[a] * u[b] * u[g] + t * (dl(a, b) * u[g] + dl(a, g) * u[b] + dl(b, g) * u[a]);
						const double h = e[a] * e[b] * e[g] - c * (dl(a, b) * e[g] + dl(a, g) * e[b] + dl(b, g) * e[a]);
						s += m * h / (6 * c * c * c);
					}
		if (order >= 4)
			for (size_t a = 0; a < D; a++)
				for (size_t b = 0; b < D; b++)
					for (size_t g = 0; g < D; g++)
						for (size_t k = 0; k < D; k++) {
							auto two = [&](const V& x) {
								return x[a]*x[b]*dl(g,k) + x[a]*x[g]*dl(b,k) + x[a]*x[k]*dl(b,g)
								+ x[b]*x[g]*dl(a,k) + x[b]*x[k]*dl(a,g) + x[g]*x[k]*dl(a,b);
							};
							const double dd = dl(a, b) * dl(g, k) + dl(a, g) * dl(b, k) + dl(a, k) * dl(b, g);
							const double m = u[a] * u[b] * u[g] * u[k] + t * two(u) + t * t * dd;
							const double h = e[a] * e[b] * e[g] * e[k] - c * two(e) + c * c * dd;
							s += m * h / (24 * c * c * c * c);
						}
		f[i] = L.w[i] * rho * s;
	}
	return f;
}
inline V eq_ref(const Lat& L, EquilibriumSchemeName eq, double rho, const V& u, double T = 1) {
	return eq == QUARTIC_EQUILIBRIUM ? eq_hermite(L, rho, u, T, 4) : eq_bgk(L, rho, u);
}

// ---- reference relaxation ---------------------------------------------------------------
typedef std::function<double(const V&)> Poly;
/// rows of the moment bases as polynomials of the direction, and whether they are orthogonal with the weights
inline std::vector<Poly> basis(MomentBasis b) {
	auto n2 = [](const V& e) {double s = 0; for (double x : e) s += x * x; return s;};
	switch (b) {
	case DELLAR_D2Q9: // Hermite-like: density, momentum, stress, ghosts N and J
		return {[](const V& e) {return 1.0;}, [](const V& e) {return e[0];}, [](const V& e) {return e[1];},
			[](const V& e) {return 9. / 2. * (e[0] * e[0] - 1. / 3.);}, [](const V& e) {return 9 * e[0] * e[1];},
			[](const V& e) {return 9. / 2. * (e[1] * e[1] - 1. / 3.);},
			[](const V& e) {const double s = e[0]*e[0]+e[1]*e[1]; return s == 0 ? 1. : (s < 1.5 ? -2. : 4.);},
			[](const V& e) {const double s = e[0]*e[0]+e[1]*e[1]; return e[0] * (s < 1.5 ? -2. : 4.);},
			[](const V& e) {const double s = e[0]*e[0]+e[1]*e[1]; return e[1] * (s < 1.5 ? -2. : 4.);}};
	case LALLEMAND_D2Q9: // rho jx jy pxx pxy e qx qy eps
		return {[](const V& e) {return 1.0;}, [](const V& e) {return e[0];}, [](const V& e) {return e[1];},
			[](const V& e) {return e[0] * e[0] - e[1] * e[1];}, [](const V& e) {return e[0] * e[1];},
			[n2](const V& e) {return -4 + 3 * n2(e);},
			[n2](const V& e) {return (-5 + 3 * n2(e)) * e[0];}, [n2](const V& e) {return (-5 + 3 * n2(e)) * e[1];},
			[n2](const V& e) {return 4 - 10.5 * n2(e) + 4.5 * n2(e) * n2(e);}};
	default: // d'Humieres: rho e eps jx qx jy qy jz qz 3pxx 3pixx pww piww pxy pyz pxz mx my mz
		return {[](const V& e) {return 1.0;}, [n2](const V& e) {return 19 * n2(e) - 30;},
			[n2](const V& e) {return (21 * n2(e) * n2(e) - 53 * n2(e) + 24) / 2;},
			[](const V& e) {return e[0];}, [n2](const V& e) {return (5 * n2(e) - 9) * e[0];},
			[](const V& e) {return e[1];}, [n2](const V& e) {return (5 * n2(e) - 9) * e[1];},
			[](const V& e) {return e[2];}, [n2](const V& e) {return (5 * n2(e) - 9) * e[2];},
			[n2](const V& e) {return 3 * e[0] * e[0] - n2(e);}, [n2](const V& e) {return (3 * n2(e) - 5) * (3 * e[0] * e[0] - n2(e));},
			[](const V& e) {return e[1] * e[1] - e[2] * e[2];}, [n2](const V& e) {return (3 * n2(e) - 5) * (e[1] * e[1] - e[2] * e[2]);},
			[](const V& e) {return e[0] * e[1];}, [](const V& e) {return e[1] * e[2];}, [](const V& e) {return e[0] * e[2];},
			[](const V& e) {return (e[1] * e[1] - e[2] * e[2]) * e[0];}, [](const V& e) {return (e[2] * e[2] - e[0] * e[0]) * e[1];},
			[](const V& e) {return (e[0] * e[0] - e[1] * e[1]) * e[2];}};
	}
}
/// relaxation rates of the rows; false: the combination is not defined
inline bool rates(MomentBasis b, RelaxMode m, double om, V& r) {
	if (b == DELLAR_D2Q9 && m == RELAX_FULL)
		r = {om, om, om, om, om, om, 1, 1, 1};
	else if (b == DELLAR_D2Q9 && m == DELLAR_RELAX_ONLY_N)
		r = {om, om, om, om, om, om, 1, om, om};
	else if (b == LALLEMAND_D2Q9 && m == RELAX_FULL)
		r = {om, om, om, om, om, om, 1, 1, 1};
	else if (b == DHUMIERES_D3Q19 && m == RELAX_FULL)
		r = {om, om, 1, om, 1, om, 1, om, 1, om, 1, om, 1, om, om, om, 1, 1, 1};
	else if (b == DHUMIERES_D3Q19 && m == RELAX_DHUMIERES_PAPER)
		r = {0, 1.19, 1.4, 0, 1.2, 0, 1.2, 0, 1.2, om, 1.4, om, 1.4, om, om, om, 1.98, 1.98, 1.98};
	else
		return false;
	return true;
}
inline V ref_bgk(const V& f, const V& feq, double om) {
	V r(f.size());
	for (size_t i = 0; i < f.size(); i++)
		r[i] = f[i] - om * (f[i] - feq[i]);
	return r;
}
inline V ref_regularized(const Lat& L, const V& f, const V& feq, double om) {
	V r(f.size()), neq(f.size());
	for (size_t i = 0; i < f.size(); i++)
		neq[i] = f[i] - feq[i];
	for (size_t i = 0; i < L.Q; i++) {
		double s = 0;
		for (size_t a = 0; a < L.D; a++)
			for (size_t b = 0; b < L.D; b++)
				s += (L.e[i][a] * L.e[i][b] - (a == b ? L.cs2 : 0)) * stress(L, neq, a, b);
		r[i] = feq[i] + (1 - om) * L.w[i] / (2 * L.cs2 * L.cs2) * s;
	}
	return r;
}
inline V ref_mrt(const Lat& L, const V& f, const V& feq, double om, MomentBasis mb, RelaxMode rm) {
	// every basis is orthogonal: project on each row and relax it
	std::vector<Poly> B = basis(mb);
	V r;
	rates(mb, rm, om, r);
	V out = f;
	const bool weighted = mb == DELLAR_D2Q9;
	for (size_t k = 0; k < B.size(); k++) {
		double nn = 0, m = 0;
		for (size_t i = 0; i < L.Q; i++) {
			const double p = B[k](L.e[i]);
			nn += p * p * (weighted ? L.w[i] : 1);
			m += p * (f[i] - feq[i]);
		}
		for (size_t i = 0; i < L.Q; i++)
			out[i] -= r[k] * m / nn * B[k](L.e[i]) * (weighted ? L.w[i] : 1);
	}
	return out;
}

// ---- the real thing ---------------------------------------------------------------------
template<size_t dim> class NoFlow: public ProblemDescription<dim> {
public:
	NoFlow() :
			ProblemDescription<dim>(boost::make_shared<Mesh<dim> >(
#ifdef WITH_TRILINOS_MPI
							MPI_COMM_WORLD
#endif
							), 1.0, 1.0) {
	}
	virtual void refine(Mesh<dim>&) {
	}
	virtual void transform(Mesh<dim>&) {
	}
	virtual bool isCartesian() {
		return true;
	}
	void force(const V& F) {
		dealii::Tensor<1, dim> t;
		for (size_t a = 0; a < dim; a++)
			t[a] = F.empty() ? 0 : F[a];
		this->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(t));
	}
};

struct Scheme {
	CollisionSchemeName coll = BGK_STANDARD;
	EquilibriumSchemeName eq = BGK_EQUILIBRIUM;
	MomentBasis mb = DELLAR_D2Q9;
	RelaxMode rm = RELAX_FULL;
	ForceType forcing = NO_FORCING;
	V F;             // external force; empty: none set
	double visc = 0.1, dt = 0.1;
	bool init = false;
	V u_init;        // velocity to keep when init
};
struct Field { // population fields plus reported macroscopic values, [node][...]
	std::vector<V> f;
	V rho;
	std::vector<V> u;
};

template<size_t dim> Field collide(const Stencil& st, const Scheme& s, const std::vector<V>& in, int times = 1) {
	SolverConfiguration cfg;
	cfg.setStencil(st.getStencilType());
	cfg.setStencilScaling(st.getScaling());
	cfg.setCollisionScheme(s.coll);
	cfg.setEquilibriumScheme(s.eq);
	cfg.setMRTBasis(s.mb);
	cfg.setMRTRelaxationTimes(s.rm);
	cfg.setForcingScheme(s.forcing);
	NoFlow<dim> pd;
	if (!s.F.empty())
		pd.force(s.F);
	const size_t n = in.size(), Q = st.getQ();
	dealii::IndexSet dofs(n);
	dofs.add_range(0, n);
	DistributionFunctions f;
	f.reinit(Q, dofs, MPI_COMM_WORLD);
	distributed_vector rho;
	rho.reinit(dofs, MPI_COMM_WORLD);
	std::vector<distributed_vector> u(dim);
	for (auto& x : u)
		x.reinit(dofs, MPI_COMM_WORLD);
	for (size_t k = 0; k < n; k++) {
		for (size_t i = 0; i < Q; i++)
			f.at(i)(k) = in[k][i];
		for (size_t a = 0; a < dim; a++)
			u[a](k) = s.u_init.empty() ? 0.0 : s.u_init[a];
	}
	for (int t = 0; t < times; t++)
		selectCollision<dim>(cfg, pd, f, rho, u, dofs, s.visc, s.dt, st, s.init);
	mc::transition(n * times);
	Field r;
	for (size_t k = 0; k < n; k++) {
		V x(Q), y(dim);
		for (size_t i = 0; i < Q; i++)
			x[i] = f.at(i)(k);
		for (size_t a = 0; a < dim; a++)
			y[a] = u[a](k);
		r.f.push_back(x);
		r.rho.push_back(rho(k));
		r.u.push_back(y);
	}
	return r;
}
inline Field collide(const Stencil& st, const Scheme& s, const std::vector<V>& in, int times = 1) {
	return st.getD() == 2 ? collide<2>(st, s, in, times) : collide<3>(st, s, in, times);
}

inline const char* name(CollisionSchemeName c) {
	switch (c) {
	case BGK_STANDARD: return "bgk";
	case BGK_STANDARD_TRANSFORMED: return "bgk-transformed";
	case BGK_STEADY_STATE: return "bgk-steadystate";
	case BGK_MULTIPHASE: return "bgk-multiphase";
	case BGK_INCOMPRESSIBLE: return "bgk-incompressible";
	case MRT_STANDARD: return "mrt";
	case MRT_ENTROPIC: return "mrt-entropic";
	case ENTROPIC_STABILIZED: return "entropic-stabilized";
	case KBC_STANDARD: return "kbc";
	case KBC_CENTRAL: return "kbc-central";
	case BGK_MULTI_AM4: return "multi-am4";
	case BGK_MULTI_BDF2: return "multi-bdf2";
	case BGK_REGULARIZED: return "regularized";
	}
	return "?";
}
inline const char* name(EquilibriumSchemeName c) {
	switch (c) {
	case BGK_EQUILIBRIUM: return "bgkeq";
	case QUARTIC_EQUILIBRIUM: return "quartic";
	case INCOMPRESSIBLE_EQUILIBRIUM: return "incompressible";
	case STEADYSTATE_EQUILIBRIUM: return "steadystate";
	case ENTROPIC_EQUILIBRIUM: return "entropic";
	}
	return "?";
}
inline const char* name(MomentBasis b) {
	return b == DELLAR_D2Q9 ? "dellar" : b == LALLEMAND_D2Q9 ? "lallemand" : "dhumieres";
}
inline const char* name(RelaxMode b) {
	return b == RELAX_FULL ? "full" : b == DELLAR_RELAX_ONLY_N ? "only-n" : "paper";
}
inline const char* name(ForceType f) {
	return f == NO_FORCING ? "no-forcing" : f == SHIFTING_VELOCITY ? "shifting-velocity" : f == EXACT_DIFFERENCE ? "exact-difference" : "guo";
}

struct Accepted {
	StencilName st;
	Scheme s;
	std::string id;
};
/// all tuples that the collision selection is meant to support (one per relaxation variant)
inline std::vector<Accepted> accepted() {
	std::vector<Accepted> r;
	auto add = [&](const char* n, CollisionSchemeName c, EquilibriumSchemeName e, MomentBasis mb = DELLAR_D2Q9, RelaxMode rm = RELAX_FULL) {
		for (auto& st : stencils())
			if (std::string(st.name) == n) {
				Accepted a;
				a.st = st;
				a.s.coll = c;
				a.s.eq = e;
				a.s.mb = mb;
				a.s.rm = rm;
				a.id = mc::cat(n, "/", name(c), "/", name(e));
				if (c == MRT_STANDARD)
					a.id += mc::cat("/", name(mb), "/", name(rm));
				r.push_back(a);
			}
	};
	add("D2Q9", BGK_STANDARD, BGK_EQUILIBRIUM);
	add("D2Q9", BGK_STANDARD, QUARTIC_EQUILIBRIUM);
	add("D2Q9", BGK_REGULARIZED, BGK_EQUILIBRIUM);
	add("D2Q9", MRT_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, RELAX_FULL);
	add("D2Q9", MRT_STANDARD, BGK_EQUILIBRIUM, DELLAR_D2Q9, DELLAR_RELAX_ONLY_N);
	add("D2Q9", MRT_STANDARD, BGK_EQUILIBRIUM, LALLEMAND_D2Q9, RELAX_FULL);
	for (const char* n : { "D2Q25H", "D2Q19H", "D2Q19V" })
		add(n, BGK_STANDARD, QUARTIC_EQUILIBRIUM);
	for (const char* n : { "D3Q13", "D3Q15", "D3Q19", "D3Q21", "D3Q27", "D3V27", "D3Q45", "D3Q77" })
		add(n, BGK_STANDARD, BGK_EQUILIBRIUM);
	for (const char* n : { "D3Q15", "D3Q19", "D3Q27" })
		add(n, BGK_REGULARIZED, BGK_EQUILIBRIUM);
	for (const char* n : { "D3Q27", "D3V27", "D3Q45", "D3Q77" })
		add(n, BGK_STANDARD, QUARTIC_EQUILIBRIUM);
	add("D3Q19", MRT_STANDARD, BGK_EQUILIBRIUM, DHUMIERES_D3Q19, RELAX_FULL);
	add("D3Q19", MRT_STANDARD, BGK_EQUILIBRIUM, DHUMIERES_D3Q19, RELAX_DHUMIERES_PAPER);
	return r;
}
/// independent result of one collision without forces
inline V reference(const Lat& L, const Scheme& s, const V& f) {
	const double om = 1 / (s.visc / (s.dt * L.cs2 * L.scaling * L.scaling) + 0.5);
	const V feq = eq_ref(L, s.eq, density(f), velocity(L, f));
	if (s.coll == BGK_REGULARIZED)
		return ref_regularized(L, f, feq, om);
	if (s.coll == MRT_STANDARD)
		return ref_mrt(L, f, feq, om, s.mb, s.rm);
	return ref_bgk(f, feq, om);
}

// ---- node states ------------------------------------------------------------------------
/// velocities (units of the scaling): rest, axis and diagonal directions, small and large
inline std::vector<V> velocities(size_t D, bool more) {
	std::vector<V> r;
	std::vector<size_t> n(D, 3);
	mc::product(n, [&](const std::vector<size_t>& x) {
		V u;
		for (size_t k : x)
			u.push_back((double) k - 1);
		for (double m : more ? V {0.01, 0.07, 0.15} : V {0.08}) {
			V v;
			for (size_t a = 0; a < D; a++)
				v.push_back(m * u[a] * (1 + 0.25 * a));
			r.push_back(v);
			bool rest = true;
			for (double y : u)
				rest &= y == 0;
			if (rest)
				break;
		}
	});
	return r;
}
struct Node {
	std::string id;
	V f;
	bool eq;
};
/// the alphabet of node states for a velocity set and equilibrium: equilibria, equilibria with one
/// population disturbed either way, and sign patterns over all populations
inline std::vector<Node> alphabet(const Lat& L, EquilibriumSchemeName eq, bool more) {
	std::vector<Node> r;
	std::vector<double> rhos = more ? V { 1.0, 0.7, 1.4, 1e-3, 50. } : V { 1.0, 0.8, 0.02, 30. };
	std::vector<V> us = velocities(L.D, more);
	for (double rho : rhos)
		for (size_t k = 0; k < us.size(); k++)
			r.push_back(Node { mc::cat("eq(rho=", rho, ",u", k, ")"), eq_ref(L, eq, rho, us[k]), true });
	const size_t step = L.Q > 100 && !more ? 37 : 1;
	for (size_t b : { (size_t) 0, us.size() - 1 }) {
		const V base = eq_ref(L, eq, 1.1, us[b]);
		for (size_t i = 0; i < L.Q; i += step)
			for (double s : { -0.4, 0.7 }) {
				Node n { mc::cat("hot(u", b, ",", i, ",", s, ")"), base, false };
				n.f[i] += s * L.w[i];
				r.push_back(n);
			}
		// Walsh-like sign patterns
		for (size_t p = 1; p < L.Q; p = p * 2 + 1) {
			Node n { mc::cat("signs(u", b, ",", p, ")"), base, false };
			for (size_t i = 0; i < L.Q; i++)
				n.f[i] *= 1 + 0.05 * (__builtin_popcountll(i & p) % 2 ? 1 : -1) + 0.01 * (i % 5);
			r.push_back(n);
		}
	}
	return r;
}
inline std::vector<V> pops(const std::vector<Node>& a) {
	std::vector<V> r;
	for (auto& n : a)
		r.push_back(n.f);
	return r;
}
inline double magnitude(const V& f) {
	double s = 0;
	for (double x : f)
		s += std::fabs(x);
	return s;
}
struct Param {
	double scaling, visc, dt;
};
inline std::vector<Param> params() {
	std::vector<Param> r;
	for (double s : mc::thorough() ? V { 1, 0.25, 3.7, 57.7350269, 0.01 } : V { 1, 3.7 })
		for (double tau : mc::thorough() ? V { 0.0005, 0.02, 0.4, 0.5, 1.3, 20 } : V { 0.02, 0.5, 1.3 })
			for (double dt : mc::thorough() ? V { 1, 0.003 } : V { 0.3 })
				r.push_back(Param { s, tau * dt * s * s / 3., dt });
	return r;
}

} // namespace cl
#endif
