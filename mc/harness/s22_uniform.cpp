// S22: every accepted configuration keeps uniform flows and mass; everything else is refused
#include "collide.h"
#include "flow.h"
using namespace natrium;
using namespace fl;
namespace cu = natrium::CFDSolverUtilities;

struct Aborted: public std::runtime_error {
	Aborted() :
			std::runtime_error("MPI_Abort") {
	}
};
/// the library ends the program through MPI_Abort
extern "C" int MPI_Abort(MPI_Comm, int) {
	throw Aborted();
}

struct Setting {
	std::string id;
	Setup set;
	bool semilagrange = false, conserves = false, exact = true;
	size_t order = 1;
	double scaling = 1, cfl = 0.4;
};
static const char* integratorName(size_t k) {
	static std::string s;
	TimeIntegratorName t;
	DealIntegratorName d;
	cu::get_integrator_by_id(k, t, d, s);
	return s.c_str();
}
static Setup integrator(size_t k) {
	return [k](SolverConfiguration& c) {
		TimeIntegratorName t = OTHER;
		DealIntegratorName d = NONE;
		std::string s;
		cu::get_integrator_by_id(k, t, d, s);
		c.setTimeIntegrator(t);
		c.setDealIntegrator(d);
	};
}
static bool implicit(size_t k) {
	return k == 2 || (k >= 7 && k <= 10);
}
static Setup also(const Setup& a, const Setup& b) {
	return [=](SolverConfiguration& c) {
		if (a)
			a(c);
		if (b)
			b(c);
	};
}
/// streaming schemes and their options
static std::vector<Setting> streaming(bool all, size_t dim) {
	std::vector<Setting> r;
	auto sl = [&](size_t p, double cfl, SupportPointsName sup, QuadratureName q) {
		Setting s;
		s.id = mc::cat("SL p", p, " CFL ", cfl, " points ", (int) sup, " quadrature ", (int) q);
		s.semilagrange = true;
		s.conserves = p == 1;
		s.order = p;
		s.cfl = cfl;
		s.set = [=](SolverConfiguration& c) {
			c.setAdvectionScheme(SEMI_LAGRANGIAN);
			c.setSedgOrderOfFiniteElement(p);
			c.setCFL(cfl);
			c.setSupportPoints(sup);
			c.setQuadrature(q);
		};
		r.push_back(s);
	};
	for (size_t p : dim == 2 ? std::vector<size_t> { 1, 2, 4 } : std::vector<size_t> { 1, 2 })
		for (double cfl : all ? V { 0.4, 1, 3 } : V { p == 1 ? 0.7 : 1.7 })
			for (SupportPointsName sup : { GAUSS_LOBATTO_POINTS, GAUSS_LOBATTO_CHEBYSHEV_POINTS, EQUIDISTANT_POINTS }) {
				if (sup != GAUSS_LOBATTO_POINTS && !all)
					continue;
				for (QuadratureName q : { QGAUSS_LOBATTO, QGAUSS })
					if (q == QGAUSS_LOBATTO || (all && p > 1))
						sl(p, cfl, sup, q);
			}
	for (size_t p : dim == 2 ? std::vector<size_t> { 1, 3 } : std::vector<size_t> { 2 })
		for (int flux = 0; flux < 2; flux++)
			for (size_t k = 1; k <= 15; k++) {
				if (!all && !(k == 1 || (k == 6 && flux) || (k == 3 && p == 1)))
					continue;
				Setting s;
				s.id = mc::cat("SEDG p", p, flux ? " central " : " upwind ", integratorName(k));
				s.conserves = true;
				s.exact = !implicit(k);
				s.order = p;
				s.set = also([=](SolverConfiguration& c) {
					c.setAdvectionScheme(SEDG);
					c.setSedgOrderOfFiniteElement(p);
					c.setCFL(0.3);
					c.setSedgFluxType(flux ? CENTRAL : LAX_FRIEDRICHS);
				}, integrator(k));
				r.push_back(s);
			}
	return r;
}
static Setup collision(const cl::Accepted& a) {
	return [a](SolverConfiguration& c) {
		c.setStencil(a.st.type);
		c.setCollisionScheme(a.s.coll);
		c.setEquilibriumScheme(a.s.eq);
		c.setMRTBasis(a.s.mb);
		c.setMRTRelaxationTimes(a.s.rm);
	};
}
struct Grid {
	std::string id;
	std::function<void(Spec&)> set;
	bool uniform; // all cells alike
};
static std::vector<Grid> grids(bool all) {
	std::vector<Grid> r = { { "box", [](Spec& s) {
	}, true } };
	if (all) {
		r.push_back(Grid { "long", [](Spec& s) {
			s.cells = { 3, 1, 2 };
			s.length = { 3, 0.7, 2.2 };
		}, true });
		r.push_back(Grid { "stretched", [](Spec& s) {
			s.map = [](const V& x) {
				V y = x;
				for (size_t a = 0; a < x.size(); a++)
					y[a] = x[a] + 0.06 * std::sin(2 * M_PI * x[a]);
				return y;
			};
			s.cartesian = false;
		}, false });
		r.push_back(Grid { "wavy", [](Spec& s) {
			s.map = [](const V& x) {
				V y = x;
				y[1] = x[1] + 0.05 * std::sin(2 * M_PI * x[0]);
				return y;
			};
			s.cartesian = false;
		}, false });
	}
	return r;
}
/// integral of a field, by a quadrature that is exact for it
template<size_t dim> double integral(const CFDSolver<dim>& s, const distributed_vector& v) {
	const auto& adv = *s.getAdvectionOperator();
	dealii::QGauss<dim> q(adv.getFe()->degree + 2);
	dealii::FEValues<dim> fe(adv.getMapping(), *adv.getFe(), q, dealii::update_values | dealii::update_JxW_values);
	std::vector<double> x(q.size());
	double m = 0;
	for (auto cell = adv.getDoFHandler()->begin_active(); cell != adv.getDoFHandler()->end(); ++cell) {
		fe.reinit(cell);
		fe.get_function_values(v, x);
		for (size_t k = 0; k < q.size(); k++)
			m += fe.JxW(k) * x[k];
	}
	return m;
}
template<size_t dim> class Mass: public DataProcessor<dim> {
public:
	V m;
	Mass(CFDSolver<dim>& s) :
			DataProcessor<dim>(s) {
	}
	virtual void apply() {
		m.push_back(integral<dim>(this->m_solver, this->m_solver.getDensity()));
	}
};
/// density and velocity of the populations at a node
template<size_t dim> V moments(const Stencil& st, const V& f) {
	V r(1 + dim, 0.0);
	for (size_t i = 0; i < f.size(); i++) {
		r[0] += f[i];
		for (size_t a = 0; a < dim; a++)
			r[1 + a] += f[i] * st.getDirection(i)(a);
	}
	for (size_t a = 0; a < dim; a++)
		r[1 + a] /= r[0];
	return r;
}
struct FlowKind {
	std::string id;
	double rho;
	V u; // in units of the scaling; empty: general flow
};
static std::vector<FlowKind> flows() {
	return { { "at rest", 1.0, { 0, 0, 0 } }, { "moving", 1.17, { 0.05, -0.03, 0.04 } }, { "general", 1, {} } };
}
template<size_t dim> void one(const Setting& st, const Setup& more, const Grid& g, const FlowKind& k, double scaling, size_t steps, double visc = 0.02) {
	Spec sp;
	g.set(sp);
	sp.visc = visc * scaling;
	const bool general_flow = k.u.empty();
	if (general_flow) {
		general(sp, 0.05);
		auto u = sp.u;
		sp.u = [u, scaling](const V& x, size_t c) {return scaling * u(x, c);};
	} else {
		sp.rho = [k](const V&) {return k.rho;};
		sp.u = [k, scaling](const V&, size_t c) {return scaling * k.u[c];};
	}
	auto c = config(also(also(st.set, [=](SolverConfiguration& c) {
		c.setStencilScaling(scaling);
		c.setNumberOfTimeSteps(steps);
	}), more));
	auto f = boost::make_shared<Flow<dim> >(sp);
	CFDSolver<dim> s(c, f);
	auto rec = boost::make_shared<Recorder<dim> >(s);
	auto mass = boost::make_shared<Mass<dim> >(s);
	s.appendDataProcessor(rec);
	s.appendDataProcessor(mass);
	const Snapshot first = snapshot<dim>(s);
	const double m0 = integral<dim>(s, s.getDensity());
	s.run();
	if (!mc::check(rec->order.size() == steps && s.getIteration() == steps, "steps", "number of steps"))
		return;
	const double tol = st.exact ? 1e-9 : 1e-5;
	for (auto& x : rec->seen) {
		x.second.hash();
		double worst = 0, inconsistent = 0;
		for (auto& n : x.second.n) {
			const V m = moments<dim>(*s.getStencil(), n.second.f);
			for (size_t a = 0; a <= dim; a++) {
				const double e = std::fabs(m[a] - n.second.m[a]) / (a ? scaling : 1);
				inconsistent = e <= inconsistent ? inconsistent : std::isnan(e) ? 1e300 : e;
			}
			if (!general_flow)
				for (size_t a = 0; a <= dim; a++) {
					const double e = std::fabs(n.second.m[a] - (a ? k.u[a - 1] * scaling : k.rho)) / (a ? scaling : 1);
					worst = e <= worst ? worst : std::isnan(e) ? 1e300 : e;
				}
		}
		mc::check(inconsistent <= 1e-12, "consistent", mc::cat("density or velocity differ from the moments of the populations by ", inconsistent, " in step ", x.first));
		if (!general_flow)
			mc::check(worst <= tol, st.semilagrange ? "uniform-SL" : "uniform-SEDG", mc::cat("the uniform flow has changed by ", worst, " in step ", x.first));
	}
	if (general_flow) {
		double moved = 0;
		for (auto& n : s.getIteration() ? rec->seen.rbegin()->second.n : first.n)
			moved = std::max(moved, std::fabs(n.second.m[0] - first.n.at(n.first).m[0]));
		mc::check(moved > 1e-9, "moves", "the general flow does not change");
		if (st.conserves && (!st.semilagrange || g.uniform))
			for (size_t i = 0; i < mass->m.size(); i++)
				mc::check(std::fabs(mass->m[i] - m0) <= (st.exact ? 1e-10 : 1e-6) * m0, st.semilagrange ? "mass-SL" : "mass-SEDG", mc::cat("mass changes from ", m0, " to ", mass->m[i], " in step ", i + 1));
	}
	mc::trace();
	mc::outcome(mc::cat(st.semilagrange ? "SL" : "SEDG", " ", k.id));
}
struct Option {
	std::string id;
	Setup set;
};
static std::vector<Option> options() {
	std::vector<Option> r = { { "", nullptr } };
	auto add = [&](const std::string& id, const Setup& s) {r.push_back(Option {id, s});};
	add("init compressible", [](SolverConfiguration& c) {c.setInitializationScheme(COMPRESSIBLE_ITERATIVE);});
	for (double alpha : { 5.0, 36.0 })
		for (int sums = 0; sums < 2; sums++)
			add(mc::cat("filter ", alpha, " ", sums), [=](SolverConfiguration& c) {
				c.setFiltering(true);
				c.setFilteringScheme(EXPONENTIAL_FILTER);
				c.setExponentialFilterAlpha(alpha);
				c.setExponentialFilterS(8);
				c.setExponentialFilterNc(1);
				c.setFilterDegreeByComponentSums(sums);
				c.setFilterInterval(2);
			});
	add("new filter", [](SolverConfiguration& c) {
		c.setFiltering(true);
		c.setFilteringScheme(NEW_FILTER);
		c.setExponentialFilterAlpha(10);
		c.setExponentialFilterS(8);
	});
	add("limiter", [](SolverConfiguration& c) {c.setVmultLimiter(true);});
	return r;
}
template<size_t dim> void explore() {
	const size_t steps = mc::tier<size_t>(3, 10);
	// every collision with a few streaming schemes; all streaming schemes with the standard collision
	std::vector<cl::Accepted> acc;
	for (auto& a : cl::accepted())
		if (a.st.d == dim)
			acc.push_back(a);
	for (auto& a : acc)
		for (double scaling : mc::thorough() ? V { 1, 17.3, 0.2 } : V { 1, 17.3 })
			for (auto& s : streaming(mc::thorough() && a.st.q <= 27, dim))
				for (auto& g : grids(mc::thorough()))
					for (auto& k : flows()) {
						if (!s.semilagrange && g.id == "wavy")
							continue;
						mc::run_case(mc::cat(a.id, " scaling ", scaling, " ", s.id, " ", g.id, " ", k.id), [=]() {
							one<dim>(s, collision(a), g, k, scaling, steps);
						});
					}
	for (auto& a : acc) {
		if (a.id != "D2Q9/bgk/bgkeq" && a.id != "D3Q19/bgk/bgkeq")
			continue;
		for (auto& s : streaming(true, dim))
			for (auto& g : grids(dim == 2))
				for (auto& k : flows())
					mc::run_case(mc::cat("all: ", a.id, " ", s.id, " ", g.id, " ", k.id), [=]() {
						one<dim>(s, collision(a), g, k, 2.5, steps);
					});
		for (auto& s : streaming(false, dim))
			for (auto& o : options())
				for (auto& k : flows()) {
					Setting t = s;
					if (o.id.find("filter") != std::string::npos && s.semilagrange && s.order > 1)
						t.conserves = false;
					if (o.id.find("filter") != std::string::npos && s.semilagrange)
						t.conserves = false; // cell-wise filters on continuous elements: see S18
					if (o.id != "")
						mc::run_case(mc::cat("options: ", a.id, " ", s.id, " ", o.id, " ", k.id), [=]() {
							one<dim>(t, also(collision(a), o.set), grids(false)[0], k, 1.5, steps);
						});
				}
	}
	// initialization procedures keep uniform flows
	for (auto& a : acc)
		for (auto& s : streaming(false, dim))
			for (InitializationSchemeName init : { ITERATIVE, GRADIENTS })
				for (size_t k = 0; k < 2; k++) {
					if (a.s.coll != BGK_STANDARD || (dim == 3 && a.st.q > 27))
						continue;
					mc::run_case(mc::cat("initialization: ", a.id, " ", s.id, init == ITERATIVE ? " iterative " : " gradients ", flows()[k].id), [=]() {
						try {
							one<dim>(s, also(collision(a), [=](SolverConfiguration& c) {
								c.setInitializationScheme(init);
								c.setIterativeInitializationNumberOfIterations(5);
								c.setIterativeInitializationResidual(1e-20);
							}), grids(false)[0], flows()[k], 1, steps);
						} catch (Aborted&) {
							if (init != ITERATIVE)
								throw;
							mc::outcome("initialization refused");
						}
					});
				}
}
// ---------------------------------------------------------------- refusal
template<size_t dim> void refusal() {
	std::set<std::string> accepted;
	for (auto& a : cl::accepted())
		accepted.insert(mc::cat(a.st.name, " ", (int) a.s.coll, " ", (int) a.s.eq));
	for (auto& st : cl::stencils())
		for (int coll = BGK_STANDARD; coll <= BGK_REGULARIZED; coll++)
			for (int eq = BGK_EQUILIBRIUM; eq <= ENTROPIC_EQUILIBRIUM; eq++)
				for (int sl = 0; sl < 2; sl++) {
					// D2Q777 takes long to set up; the wrong dimension is refused before anything else
					if (st.q > 100 && (sl || dim == 3 || coll != eq))
						continue;
					if (st.d != dim && (sl || coll > MRT_STANDARD))
						continue;
					mc::run_case(mc::cat("refusal: ", dim, "D ", st.name, " ", cl::name((CollisionSchemeName) coll), " ", cl::name((EquilibriumSchemeName) eq), sl ? " SL" : " SEDG"), [&]() {
						const bool want = st.d == dim && accepted.count(mc::cat(st.name, " ", coll, " ", eq));
						Spec sp;
						sp.level = 0;
						sp.cells = { 2, 2, 2 };
						general(sp);
						size_t done = 0;
						bool refused = false;
						std::string how;
						try {
							auto c = config([&](SolverConfiguration& c) {
								c.setStencil(st.type);
								c.setCollisionScheme((CollisionSchemeName) coll);
								c.setEquilibriumScheme((EquilibriumSchemeName) eq);
								c.setAdvectionScheme(sl ? SEMI_LAGRANGIAN : SEDG);
								c.setSedgOrderOfFiniteElement(1);
								c.setNumberOfTimeSteps(2);
								if (coll == MRT_STANDARD && st.d == 3)
									c.setMRTBasis(DHUMIERES_D3Q19);
								if (coll == BGK_MULTIPHASE)
									c.setForcingScheme(SHIFTING_VELOCITY);
							});
							auto f = boost::make_shared<Flow<dim> >(sp);
							CFDSolver<dim> s(c, f);
							auto rec = boost::make_shared<Recorder<dim> >(s, false);
							s.appendDataProcessor(rec);
							try {
								s.run();
								done = rec->order.size();
							} catch (...) {
								done = rec->order.size();
								throw;
							}
						} catch (std::exception& e) {
							refused = true;
							how = e.what();
						}
						mc::transition();
						mc::state(mc::cat(refused, done));
						mc::outcome(refused ? "refused" : "run");
						if (want)
							mc::check(!refused && done == 2, "refused-wrongly", "a supported configuration is refused: " + how);
						else
							mc::check(refused && done == 0, "not-refused", mc::cat("a configuration that is not supported runs ", done, " steps"));
					});
				}
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	explore<2>();
	explore<3>();
	refusal<2>();
	refusal<3>();
	mc::finish();
}
