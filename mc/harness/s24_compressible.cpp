// S24: the compressible solver: conservation and relaxation in collisions, uniform gases, totals, order of steps, restarts
#include "collide.h"
#include "flow.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include <deal.II/fe/fe_values.h>
using namespace natrium;
using namespace fl;

struct Aborted: public std::runtime_error {
	Aborted() :
			std::runtime_error("MPI_Abort") {
	}
};
/// the library ends the program through MPI_Abort
extern "C" int MPI_Abort(MPI_Comm, int) {
	throw Aborted();
}
static Setup also(const Setup& a, const Setup& b) {
	return [=](SolverConfiguration& c) {
		if (a)
			a(c);
		if (b)
			b(c);
	};
}
struct Tuple {
	std::string id;
	size_t d;
	StencilType st;
	CollisionSchemeName coll;
	EquilibriumSchemeName eq;
	Setup set() const {
		const Tuple t = *this;
		return [t](SolverConfiguration& c) {
			c.setStencil(t.st);
			c.setCollisionScheme(t.coll);
			c.setEquilibriumScheme(t.eq);
		};
	}
	/// equilibria of second order do not know the temperature
	bool thermal() const {
		return eq == QUARTIC_EQUILIBRIUM;
	}
};
static std::vector<Tuple> tuples() {
	return { {"D2Q19H/quartic", 2, Stencil_D2Q19H, BGK_STANDARD, QUARTIC_EQUILIBRIUM}, {"D2Q19V/quartic", 2, Stencil_D2Q19V, BGK_STANDARD, QUARTIC_EQUILIBRIUM},
		{"D2Q25H/quartic", 2, Stencil_D2Q25H, BGK_STANDARD, QUARTIC_EQUILIBRIUM}, {"D2Q19H/bgkeq", 2, Stencil_D2Q19H, BGK_STANDARD, BGK_EQUILIBRIUM},
		{"D2Q25H/bgkeq", 2, Stencil_D2Q25H, BGK_STANDARD, BGK_EQUILIBRIUM}, {"D3Q45/quartic", 3, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM},
		{"D3Q77/quartic", 3, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM}};
}
struct Gas {
	double rho;
	V u;
	double T;
};
/// populations of a node and what they are made of
struct State {
	Gas gas;
	int kind; // deviation from equilibrium
	V f, g;
};
static const double magic[] = { 0.37, -0.81, 0.59, 0.13, -0.29, 0.91, -0.47, 0.23, 0.71, -0.67, 0.05, -0.11, 0.83 };
static State state(const cl::Lat& L, const Gas& x, double gamma, EquilibriumSchemeName eq, int kind, double amp, size_t seed) {
	State s;
	s.gas = x;
	s.kind = kind;
	s.f = cl::eq_ref(L, eq, x.rho, x.u, x.T);
	const double c = 2 / (gamma - 1) - double(L.D);
	s.g = s.f;
	for (double& y : s.g)
		y *= x.T * c;
	for (size_t i = 0; i < L.Q; i++) {
		const double w = L.w[i] * x.rho * amp;
		auto& e = L.e[i];
		switch (kind) {
		case 1: // shear
			s.f[i] += w * e[0] * e[1];
			break;
		case 2: // normal stress without trace
			s.f[i] += w * (e[0] * e[0] - e[1] * e[1]);
			break;
		case 3: // heat flux and third moments
			s.f[i] += w * (e[0] * e[0] * e[0] - 0.4 * e[1] * e[0] * e[0] + 0.3 * e[1]);
			s.g[i] += w * (0.6 * e[0] - 0.2 * e[1]);
			break;
		case 4: // the other energy
			s.g[i] += w * (1 + 0.3 * e[0] * e[0]);
			break;
		case 5: // everything
			s.f[i] += w * magic[(i * 5 + seed) % 13];
			s.g[i] += w * magic[(i * 7 + 3 * seed + 1) % 13];
			break;
		}
	}
	return s;
}
struct Moments {
	double rho, E, T;
	V j;
};
static Moments moments(const cl::Lat& L, const V& f, const V& g, double gamma) {
	Moments m;
	m.rho = cl::density(f);
	m.j = cl::momentum(L, f);
	m.E = cl::trace2(L, f) / L.cs2 + cl::density(g);
	double uu = 0;
	for (double x : m.j)
		uu += x * x / m.rho / m.rho;
	m.T = (m.E - m.rho * uu / L.cs2) * (gamma - 1) / (2 * m.rho);
	return m;
}
struct Options {
	double gamma, scaling, visc, pr; // pr 0: not set
	bool sutherland;
	std::string id() const {
		return mc::cat("gamma ", gamma, " scaling ", scaling, " viscosity ", visc, " Pr ", pr, sutherland ? " Sutherland" : "");
	}
	Setup set() const {
		const Options o = *this;
		return [o](SolverConfiguration& c) {
			c.setStencilScaling(o.scaling);
			c.setHeatCapacityRatioGamma(o.gamma);
			if (o.pr > 0)
				c.setPrandtlNumber(o.pr);
			if (o.sutherland)
				c.setSutherlandLaw();
		};
	}
};
/// third central moment
static double third(const cl::Lat& L, const V& f, const V& u, size_t a, size_t b, size_t c) {
	double r = 0;
	for (size_t i = 0; i < L.Q; i++)
		r += f[i] * (L.e[i][a] - u[a]) * (L.e[i][b] - u[b]) * (L.e[i][c] - u[c]);
	return r;
}
static double first(const cl::Lat& L, const V& g, const V& u, size_t a) {
	double r = 0;
	for (size_t i = 0; i < L.Q; i++)
		r += g[i] * (L.e[i][a] - u[a]);
	return r;
}
/// worst relative errors
struct Worst {
	double mass = 0, momentum = 0, energy = 0, energy1 = 0, rho = 0, u = 0, T = 0, stress = 0, heat = 0, other = 0, f = 0, g = 0;
	static void add(double& m, double e) {
		e = std::fabs(e);
		m = e <= m ? m : std::isnan(e) ? 1e300 : e;
	}
};
template<size_t dim> void collision(const Tuple& t, const Options& o) {
	Spec sp;
	sp.level = 2;
	sp.visc = o.visc * o.scaling;
	auto c = config(also(also(t.set(), o.set()), [=](SolverConfiguration& c) {
		c.setAdvectionScheme(SEMI_LAGRANGIAN);
		c.setSedgOrderOfFiniteElement(dim == 2 ? 3 : 1);
		c.setCFL(0.9);
	}));
	CompressibleCFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
	const cl::Lat L(*s.getStencil());
	const size_t Q = L.Q;
	std::vector<State> states;
	size_t seed = 0;
	for (double rho : { 0.3, 1.0, 2.7 })
		for (double T : { 1.0, 0.7, 1.6 })
			for (double U : { 0.0, 0.12, -0.35 })
				for (int kind = 0; kind <= 5; kind++) {
					V u(dim);
					for (size_t a = 0; a < dim; a++)
						u[a] = U * (1 - 0.7 * a);
					states.push_back(state(L, { rho, u, T }, o.gamma, t.eq, kind, 0.08, ++seed));
				}
	const auto& dofs = s.getAdvectionOperator()->getLocallyOwnedDofs();
	const size_t n = dofs.n_elements();
	const double dt = s.getTimeStepSize();
	Worst w;
	for (size_t begin = 0; begin < states.size(); begin += n) {
		const size_t m = std::min(n, states.size() - begin);
		for (size_t k = 0; k < n; k++) { // unused nodes: repeat
			const State& x = states[begin + k % m];
			for (size_t i = 0; i < Q; i++) {
				s.getF().at(i)(dofs.nth_index_in_set(k)) = x.f[i];
				s.getG().at(i)(dofs.nth_index_in_set(k)) = x.g[i];
			}
		}
		s.getF().updateGhosted();
		s.getG().updateGhosted();
		s.collide();
		for (size_t k = 0; k < n; k++) {
			const State& x = states[begin + k % m];
			const size_t d = dofs.nth_index_in_set(k);
			V f(Q), g(Q);
			for (size_t i = 0; i < Q; i++) {
				f[i] = s.getF().at(i)(d);
				g[i] = s.getG().at(i)(d);
			}
			mc::transition();
			const Moments a = moments(L, x.f, x.g, o.gamma), b = moments(L, f, g, o.gamma);
			Worst::add(w.mass, (a.rho - b.rho) / a.rho);
			Worst::add(t.thermal() || std::fabs(a.T - 1) < 1e-12 ? w.energy : w.energy1, (a.E - b.E) / a.E);
			Worst::add(w.rho, (s.getDensity()(d) - a.rho) / a.rho);
			Worst::add(w.T, (s.getTemperature()(d) - a.T) / a.T);
			V u(dim);
			for (size_t q = 0; q < dim; q++) {
				u[q] = a.j[q] / a.rho;
				Worst::add(w.momentum, (a.j[q] - b.j[q]) / a.rho);
				Worst::add(w.u, s.getVelocity().at(q)(d) / o.scaling - u[q]);
			}
			// what remains of the deviation from equilibrium
			const V feq = cl::eq_ref(L, t.eq, a.rho, u, a.T);
			V geq = feq;
			for (double& y : geq)
				y *= a.T * (2 / (o.gamma - 1) - double(dim));
			const double nu = o.visc * o.scaling / (s.getStencil()->getSpeedOfSoundSquare() * dt) / (a.rho * a.T) * (o.sutherland ? std::pow(a.T / 0.85, 0.7) : 1);
			const double keep = 1 - 1 / (nu + 0.5), keepq = 1 - 1 / (nu / (o.pr > 0 ? o.pr : 1) + 0.5);
			V nb(Q), na(Q), gb(Q), ga(Q);
			for (size_t i = 0; i < Q; i++) {
				nb[i] = x.f[i] - feq[i];
				na[i] = f[i] - feq[i];
				gb[i] = x.g[i] - geq[i];
				ga[i] = g[i] - geq[i];
			}
			for (size_t p = 0; p < dim; p++)
				for (size_t q = 0; q < dim; q++)
					Worst::add(w.stress, (cl::stress(L, na, p, q) - keep * cl::stress(L, nb, p, q)) / a.rho);
			for (size_t p = 0; p < dim; p++) {
				for (size_t q = 0; q < dim; q++)
					for (size_t r = 0; r < dim; r++)
						Worst::add(w.heat, (third(L, na, u, p, q, r) - (o.pr > 0 ? keepq : keep) * third(L, nb, u, p, q, r)) / a.rho - 0);
				Worst::add(w.other, (first(L, ga, u, p) - (o.pr > 0 ? keepq : keep) * first(L, gb, u, p)) / a.rho);
			}
			if (!(o.pr > 0))
				for (size_t i = 0; i < Q; i++) {
					Worst::add(w.f, (na[i] - keep * nb[i]) / (L.w[i] * a.rho));
					Worst::add(w.g, (ga[i] - keep * gb[i]) / (L.w[i] * a.rho));
				}
		}
	}
	mc::state(mc::cat(w.mass, w.heat, w.other, w.stress));
	const double tol = 1e-11;
	mc::check(w.mass <= tol, "mass", mc::cat("a collision changes the mass by ", w.mass));
	mc::check(w.momentum <= tol, "momentum", mc::cat("a collision changes the momentum by ", w.momentum));
	mc::check(w.energy <= tol, "energy", mc::cat("a collision changes the total energy by ", w.energy));
	mc::check(w.energy1 <= tol, mc::cat("isothermal equilibrium ", t.id, ": energy"), mc::cat("a collision changes the total energy by ", w.energy1, " at temperatures other than one"));
	mc::check(w.rho <= tol, "density", mc::cat("density differs from the populations' by ", w.rho));
	mc::check(w.u <= tol, "velocity", mc::cat("velocity differs from the populations' by ", w.u));
	mc::check(w.T <= tol, "temperature", mc::cat("temperature differs from the populations' by ", w.T));
	mc::check(w.stress <= tol, "stress", mc::cat("viscous stress relaxes wrongly, by ", w.stress));
	mc::check(w.heat <= 10 * tol, "heat", mc::cat("third moments relax wrongly, by ", w.heat));
	mc::check(w.other <= 10 * tol, "heat of g", mc::cat("the energy flux of the second population set relaxes wrongly, by ", w.other));
	mc::check(w.f <= 100 * tol, "f", mc::cat("populations relax wrongly, by ", w.f));
	mc::check(w.g <= 100 * tol, "g", mc::cat("second populations relax wrongly, by ", w.g));
	mc::outcome(mc::cat("collision ", t.id));
}
// ---------------------------------------------------------------- whole simulations
template<size_t dim> double integral(const CFDSolver<dim>& s, const std::function<double(size_t)>& value) {
	const auto& adv = *s.getAdvectionOperator();
	dealii::QGauss<dim> q(adv.getFe()->degree + 2);
	dealii::FEValues<dim> fe(adv.getMapping(), *adv.getFe(), q, dealii::update_values | dealii::update_JxW_values);
	std::vector<dealii::types::global_dof_index> dofs(adv.getFe()->dofs_per_cell);
	double m = 0;
	for (auto cell = adv.getDoFHandler()->begin_active(); cell != adv.getDoFHandler()->end(); ++cell) {
		fe.reinit(cell);
		cell->get_dof_indices(dofs);
		for (size_t i = 0; i < dofs.size(); i++) {
			const double v = value(dofs[i]);
			for (size_t k = 0; k < q.size(); k++)
				m += fe.JxW(k) * fe.shape_value(i, k) * v;
		}
	}
	return m;
}
template<size_t dim> struct Full {
	size_t i;
	double t;
	std::map<size_t, V> n; // density, velocity, temperature, f, g
	V totals; // mass, momentum, energy
	double distance(const Full& o) const {
		double d = n.size() == o.n.size() && i == o.i ? 0 : 1e300;
		Worst::add(d, t - o.t);
		for (auto& x : n) {
			auto y = o.n.find(x.first);
			if (y == o.n.end() || y->second.size() != x.second.size())
				return 1e300;
			for (size_t k = 0; k < x.second.size(); k++)
				Worst::add(d, x.second[k] - y->second[k]);
		}
		return d;
	}
};
template<size_t dim> Full<dim> full(const CompressibleCFDSolver<dim>& s) {
	Full<dim> r;
	r.i = s.getIteration();
	r.t = s.getTime();
	const cl::Lat L(*s.getStencil());
	for (size_t d : s.getAdvectionOperator()->getLocallyOwnedDofs()) {
		V& x = r.n[d];
		x.push_back(s.getDensity()(d));
		for (size_t a = 0; a < dim; a++)
			x.push_back(s.getVelocity().at(a)(d) / L.scaling);
		x.push_back(s.getTemperature()(d));
		for (size_t i = 0; i < L.Q; i++)
			x.push_back(s.getF().at(i)(d));
		for (size_t i = 0; i < L.Q; i++)
			x.push_back(s.getG().at(i)(d));
	}
	r.totals.push_back(integral<dim>(s, [&](size_t d) {
		return s.getDensity()(d);
	}));
	for (size_t a = 0; a < dim; a++)
		r.totals.push_back(integral<dim>(s, [&](size_t d) {
			return s.getDensity()(d) * s.getVelocity().at(a)(d) / L.scaling;
		}));
	const double cv = 1 / (s.getConfiguration()->getHeatCapacityRatioGamma() - 1);
	r.totals.push_back(integral<dim>(s, [&](size_t d) {
		double uu = 0;
		for (size_t a = 0; a < dim; a++)
			uu += std::pow(s.getVelocity().at(a)(d) / L.scaling, 2);
		return s.getDensity()(d) * (uu / L.cs2 + 2 * cv * s.getTemperature()(d));
	}));
	V h;
	for (auto& x : r.n)
		h.insert(h.end(), x.second.begin(), x.second.end());
	mc::state(h);
	return r;
}
template<size_t dim> class Watch: public DataProcessor<dim> {
public:
	const CompressibleCFDSolver<dim>& c;
	std::vector<Full<dim> > seen;
	Watch(CompressibleCFDSolver<dim>& s) :
			DataProcessor<dim>(s), c(s) {
	}
	virtual void apply() {
		seen.push_back(full<dim>(c));
		mc::transition();
	}
};
template<size_t dim> double moment_error(const CompressibleCFDSolver<dim>& s, const Full<dim>& x) {
	const cl::Lat L(*s.getStencil());
	double d = 0;
	for (auto& n : x.n) {
		const V& v = n.second;
		const V f(v.begin() + 2 + dim, v.begin() + 2 + dim + L.Q), g(v.begin() + 2 + dim + L.Q, v.end());
		const Moments m = moments(L, f, g, s.getConfiguration()->getHeatCapacityRatioGamma());
		Worst::add(d, m.rho - v[0]);
		for (size_t a = 0; a < dim; a++)
			Worst::add(d, m.j[a] / m.rho - v[1 + a]);
		Worst::add(d, m.T - v[1 + dim]);
	}
	return d;
}
struct Streaming {
	std::string id;
	bool sl, conserves;
	size_t p;
	Setup set;
};
static std::vector<Streaming> streaming(size_t dim) {
	std::vector<Streaming> r;
	for (size_t p : dim == 2 ? std::vector<size_t> { 1, 2, 4 } : std::vector<size_t> { 1, 2 })
		for (double cfl : { 0.6, 2.3 })
			r.push_back({ mc::cat("SL p", p, " CFL ", cfl), true, p == 1, p, [=](SolverConfiguration& c) {
				c.setAdvectionScheme(SEMI_LAGRANGIAN);
				c.setSedgOrderOfFiniteElement(p);
				c.setCFL(cfl);
			} });
	for (size_t p : dim == 2 ? std::vector<size_t> { 1, 3 } : std::vector<size_t> { 2 })
		for (int flux = 0; flux < 2; flux++)
			for (size_t k : { 1, 3, 11 }) {
				if (k != 1 && (flux || p == 1))
					continue;
				r.push_back({ mc::cat("SEDG p", p, flux ? " central" : " upwind", " integrator ", k), false, true, p, [=](SolverConfiguration& c) {
					c.setAdvectionScheme(SEDG);
					c.setSedgOrderOfFiniteElement(p);
					c.setCFL(0.2);
					c.setSedgFluxType(flux ? CENTRAL : LAX_FRIEDRICHS);
					TimeIntegratorName t = OTHER;
					DealIntegratorName d = NONE;
					std::string s;
					CFDSolverUtilities::get_integrator_by_id(k, t, d, s);
					c.setTimeIntegrator(t);
					c.setDealIntegrator(d);
				} });
			}
	return r;
}
static Spec gas_spec(size_t dim, bool uniform, double scaling, double visc, double T, int grid) {
	Spec sp;
	sp.visc = visc * scaling;
	if (grid == 1) {
		sp.cells = { 3, 2, 1 };
		sp.length = { 1.9, 1.1, 0.8 };
	}
	if (grid == 2) {
		sp.map = [](const V& x) {
			V y = x;
			for (size_t a = 0; a < x.size(); a++)
				y[a] = x[a] + 0.06 * std::sin(2 * M_PI * x[a]);
			return y;
		};
		sp.cartesian = false;
	}
	if (uniform) {
		sp.rho = [](const V&) {return 1.4;};
		sp.u = [scaling](const V&, size_t c) {return scaling * (0.2 - 0.17 * c);};
		sp.T = [T](const V&) {return T;};
	} else {
		general(sp, 0.06);
		auto u = sp.u;
		sp.u = [u, scaling](const V& x, size_t c) {return scaling * u(x, c);};
		auto te = sp.T;
		sp.T = [te, T](const V& x) {return T * te(x);};
	}
	return sp;
}
template<size_t dim> void simulate(const Tuple& t, const Streaming& st, const Options& o, bool uniform, double T, int grid, size_t steps) {
	const Spec sp = gas_spec(dim, uniform, o.scaling, o.visc, T, grid);
	auto cfg = [&]() {
		return config(also(also(st.set, t.set()), also(o.set(), [=](SolverConfiguration& c) {
			c.setNumberOfTimeSteps(steps);
		})));
	};
	auto c1 = cfg(), c2 = cfg();
	CompressibleCFDSolver<dim> s(c1, boost::make_shared<Flow<dim> >(sp)), by_hand(c2, boost::make_shared<Flow<dim> >(sp));
	auto w = boost::make_shared<Watch<dim> >(s);
	s.appendDataProcessor(w);
	// the same by hand: start, collision, then streaming of both sets and collisions
	by_hand.initializeDistributions();
	const Full<dim> start = full<dim>(by_hand);
	s.run();
	if (!mc::check(w->seen.size() == steps, "steps", mc::cat(w->seen.size(), " steps instead of ", steps)))
		return;
	by_hand.collide();
	double same = 0, consistent = 0, uni = 0, mass = 0, momentum = 0, energy = 0, time = 0;
	const double dt = s.getTimeStepSize();
	for (size_t k = 0; k < steps; k++) {
		by_hand.stream();
		by_hand.gStream();
		by_hand.collide();
		Full<dim> h = full<dim>(by_hand);
		h.i = k + 1;
		const Full<dim>& x = w->seen[k];
		Worst::add(same, x.distance(h));
		Worst::add(consistent, moment_error<dim>(s, x));
		Worst::add(time, x.t - (k + 1) * dt);
		if (uniform) {
			// equal to the start in everything that does not count steps
			Full<dim> y = x;
			y.i = start.i;
			y.t = start.t;
			// the populations start from the equilibrium of fourth order
			if (!t.thermal())
				for (auto& v : y.n)
					for (size_t q = dim + 2; q < v.second.size(); q++)
						v.second[q] = start.n.at(v.first)[q];
			Worst::add(uni, y.distance(start));
		}
		Worst::add(mass, x.totals[0] / w->seen[0].totals[0] - 1);
		for (size_t a = 0; a < dim; a++)
			Worst::add(momentum, (x.totals[1 + a] - w->seen[0].totals[1 + a]) / x.totals[0]);
		Worst::add(energy, x.totals[1 + dim] / w->seen[0].totals[1 + dim] - 1);
	}
	mc::trace();
	// equilibria of second order hold at temperature one only
	const bool cold = !t.thermal() && !(uniform && T == 1);
	mc::check(same <= 1e-13, "steps", mc::cat("run() differs from streaming and colliding by ", same));
	mc::check(consistent <= 1e-11, cold ? mc::cat("isothermal equilibrium ", t.id, ": moments") : std::string("moments"), mc::cat("density, velocity or temperature differ from the moments of the populations by ", consistent));
	mc::check(time <= 1e-13 * steps, "time", mc::cat("time differs from steps times step size by ", time));
	if (uniform)
		mc::check(uni <= 1e-11, cold ? mc::cat("isothermal equilibrium ", t.id, ": uniform") : std::string("uniform"), mc::cat("a uniform gas changes by ", uni));
	// products of nodal values are integrated exactly enough only when the total is that of the nodal values
	if (st.conserves && grid != 2) {
		mc::check(mass <= 1e-12, "total mass", mc::cat("total mass changes by ", mass));
		mc::check(momentum <= 1e-12, "total momentum", mc::cat("total momentum changes by ", momentum));
		mc::check(energy <= 1e-12, cold ? mc::cat("isothermal equilibrium ", t.id, ": total energy") : std::string("total energy"), mc::cat("total energy changes by ", energy));
	}
	mc::outcome(mc::cat(uniform ? "uniform " : "general ", t.id, " ", st.id));
}
// ---------------------------------------------------------------- refusals
template<size_t dim> void refusal(const cl::StencilName& st, CollisionSchemeName coll, EquilibriumSchemeName eq, bool accepted) {
	Spec sp = gas_spec(dim, false, 1, 0.05, 1, 0);
	auto c = config([=](SolverConfiguration& c) {
		c.setStencil(st.type);
		c.setCollisionScheme(coll);
		c.setEquilibriumScheme(eq);
		c.setAdvectionScheme(SEMI_LAGRANGIAN);
		c.setSedgOrderOfFiniteElement(1);
		c.setNumberOfTimeSteps(1);
	});
	bool refused = false;
	std::string why;
	mc::transition();
	try {
		CompressibleCFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
		s.run();
	} catch (Aborted&) {
		refused = true;
	} catch (NATriuMException& e) {
		refused = true;
	} catch (std::exception& e) {
		refused = true;
	}
	mc::check(refused == !accepted, !accepted && st.type == Stencil_D2Q25H && coll == BGK_REGULARIZED && eq == BGK_EQUILIBRIUM ? "refusal of D2Q25H regularized" : "refusal", refused ? "a supported combination is refused" : "an unsupported combination runs");
	mc::outcome(refused ? "refused" : "accepted");
}
// ---------------------------------------------------------------- restart
template<size_t dim> void restart(const Tuple& t, const Streaming& st, const Options& o, double T, int grid, size_t before, size_t after) {
	const std::string dir = fresh("restart");
	const Spec sp = gas_spec(dim, false, o.scaling, o.visc, T, grid);
	auto cfg = [&](size_t steps, size_t from, bool out) {
		return config(also(also(st.set, t.set()), also(o.set(), [=](SolverConfiguration& c) {
			c.setNumberOfTimeSteps(steps);
			c.setRestartAtIteration(from);
			c.setSwitchOutputOff(!out);
			c.setOutputDirectory(dir);
			c.setWriteALogFile(false);
			c.setOutputCheckpointInterval(before);
		})));
	};
	std::vector<Full<dim> > straight;
	{
		auto c = cfg(before + after, 0, false);
		CompressibleCFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
		auto w = boost::make_shared<Watch<dim> >(s);
		s.appendDataProcessor(w);
		s.run();
		straight = w->seen;
	}
	{
		auto c = cfg(before, 0, true);
		CompressibleCFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
		s.run();
	}
	auto c = cfg(before + after, before, true);
	CompressibleCFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
	const Full<dim> loaded = full<dim>(s);
	double f = 0, g = 0, m = 0;
	const Full<dim>& last = straight[before - 1];
	const size_t Q = s.getStencil()->getQ();
	for (auto& x : loaded.n) {
		const V& y = last.n.at(x.first);
		for (size_t k = 0; k < y.size(); k++)
			Worst::add(k < dim + 2 ? m : k < dim + 2 + Q ? f : g, x.second[k] - y[k]);
	}
	mc::check(f <= 1e-12, "restart", mc::cat("populations differ after loading a checkpoint by ", f));
	mc::check(g <= 1e-12, "restart g", mc::cat("populations of the energy differ after loading a checkpoint by ", g));
	mc::check(m <= 1e-12, "restart fields", mc::cat("density, velocity or temperature differ after loading a checkpoint by ", m));
	auto w = boost::make_shared<Watch<dim> >(s);
	s.appendDataProcessor(w);
	s.run();
	mc::check(w->seen.size() == after, "restart steps", "number of steps after the restart");
	double d = 0;
	for (size_t k = 0; k < w->seen.size() && k < after; k++)
		Worst::add(d, w->seen[k].distance(straight[before + k]));
	mc::check(d <= 1e-12, "restart run", mc::cat("the restarted simulation differs by ", d));
	mc::trace();
	mc::outcome("restart");
}
/// a uniform gas restarts as a uniform gas, also on a finer mesh and with another heat capacity ratio
template<size_t dim> void refined_restart(const Tuple& t, const Streaming& st, const Options& o, double T, int grid, size_t before) {
	const std::string dir = fresh("restart");
	Spec sp = gas_spec(dim, true, o.scaling, o.visc, T, grid);
	auto cfg = [&](size_t steps, size_t from) {
		return config(also(also(st.set, t.set()), also(o.set(), [=](SolverConfiguration& c) {
			c.setNumberOfTimeSteps(steps);
			c.setRestartAtIteration(from);
			c.setSwitchOutputOff(false);
			c.setOutputDirectory(dir);
			c.setWriteALogFile(false);
			c.setOutputCheckpointInterval(before);
		})));
	};
	sp.level = 1;
	{
		auto c = cfg(before, 0);
		CompressibleCFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
		s.run();
	}
	sp.level = 2;
	auto c = cfg(before + 1, before);
	CompressibleCFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
	const cl::Lat L(*s.getStencil());
	const V u = { 0.2, 0.2 - 0.17, 0.2 - 0.34 };
	const V feq = cl::eq_ref(L, t.eq, 1.4, V(u.begin(), u.begin() + dim), T);
	for (int round = 0; round < 2; round++) {
		const Full<dim> x = full<dim>(s);
		double f = 0, g = 0, m = 0;
		for (auto& n : x.n) {
			const V& v = n.second;
			Worst::add(m, v[0] - 1.4);
			for (size_t a = 0; a < dim; a++)
				Worst::add(m, v[1 + a] - u[a]);
			Worst::add(m, v[1 + dim] - T);
			for (size_t i = 0; i < L.Q; i++) {
				Worst::add(f, v[2 + dim + i] - feq[i]);
				Worst::add(g, v[2 + dim + L.Q + i] - feq[i] * T * (2 / (o.gamma - 1) - double(dim)));
			}
		}
		mc::check(f <= 1e-11 && g <= 1e-11 && m <= 1e-11, "refined restart", mc::cat("a uniform gas differs after a restart on a finer mesh by ", m, ", its populations by ", f, " and ", g));
		if (!round)
			s.run();
	}
	mc::trace();
	mc::outcome("refined restart");
}
template<size_t dim> void explore() {
	const Options plain = { 1.4, 1, 0.02, 0, false };
	for (auto& t : tuples()) {
		if (t.d != dim)
			continue;
		for (double gamma : { 1.4, 5. / 3, 1.1 })
			for (double scaling : { 1.0, 3.7 })
				for (double visc : { 0.0005, 0.05, 3.0 })
					for (double pr : { 0.0, 1.0, 0.71, 2.5 })
						for (int suth = 0; suth < 2; suth++) {
							const Options o = { gamma, scaling, visc, pr, suth == 1 };
							mc::run_case(mc::cat("collision: ", t.id, " ", o.id()), [&]() {
								collision<dim>(t, o);
							});
						}
		for (auto& st : streaming(dim))
			for (int uniform = 0; uniform < 2; uniform++)
				for (double T : { 1.0, 0.8, 1.3 })
					for (int grid = 0; grid < 3; grid++)
						for (const Options& o : { plain, Options { 1.6, 2.9, 0.3, 0.71, true } }) {
							if (!mc::thorough() && (T == 1.3 || (dim == 3 && grid == 1)))
								continue;
							mc::run_case(mc::cat("simulation: ", t.id, " ", st.id, uniform ? " uniform" : " general", " T ", T, " grid ", grid, " ", o.id()), [&]() {
								simulate<dim>(t, st, o, uniform, T, grid, mc::tier<size_t>(3, 12));
							});
						}
		if (t.thermal())
			for (auto& st : streaming(dim)) {
				if (!mc::thorough() && (dim == 3) && st.p > 1)
					continue;
				for (double T : mc::thorough() ? V { 0.8, 1.0 } : V { 0.8 })
					for (const Options& o : { plain, Options { 1.6, 2.9, 0.3, 0.71, true } })
						for (int grid = 0; grid < 3; grid++) {
							mc::run_case(mc::cat("restart: ", t.id, " ", st.id, " T ", T, " grid ", grid, " ", o.id()), [&]() {
								restart<dim>(t, st, o, T, grid, 3, 2);
							});
							mc::run_case(mc::cat("refined restart: ", t.id, " ", st.id, " T ", T, " grid ", grid, " ", o.id()), [&]() {
								refined_restart<dim>(t, st, o, T, grid, 2);
							});
						}
			}
	}
	const std::vector<CollisionSchemeName> colls = { BGK_STANDARD, BGK_STANDARD_TRANSFORMED, BGK_STEADY_STATE, BGK_MULTIPHASE, BGK_INCOMPRESSIBLE, MRT_STANDARD, MRT_ENTROPIC, KBC_STANDARD,
			KBC_CENTRAL, BGK_MULTI_AM4, BGK_MULTI_BDF2, BGK_REGULARIZED, ENTROPIC_STABILIZED };
	const std::vector<EquilibriumSchemeName> eqs = { BGK_EQUILIBRIUM, INCOMPRESSIBLE_EQUILIBRIUM, STEADYSTATE_EQUILIBRIUM, ENTROPIC_EQUILIBRIUM, QUARTIC_EQUILIBRIUM };
	for (auto& st : cl::stencils())
		if (st.d == dim && st.type != Stencil_D2Q777)
			for (auto coll : colls)
				for (auto eq : eqs) {
					bool ok = false;
					for (auto& t : tuples())
						ok = ok || (t.st == st.type && t.coll == coll && t.eq == eq);
					mc::run_case(mc::cat("refusal: ", st.name, " ", (int) coll, " ", (int) eq), [&]() {
						refusal<dim>(st, coll, eq, ok);
					});
				}
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	explore<2>();
	explore<3>();
	mc::finish();
}
