// S23: a simulation starts from exactly the flow the problem describes
#include "collide.h"
#include "flow.h"
#include "natrium/solver/CompressibleCFDSolver.h"
using namespace natrium;
using namespace fl;

struct Aborted: public std::runtime_error {
	Aborted() :
			std::runtime_error("MPI_Abort") {
	}
};
/// the library ends the program through MPI_Abort
extern "C" int MPI_Abort(MPI_Comm, int) {
	throw Aborted();
}
static Setup also(const Setup& a, const Setup& b) {
	return [=](SolverConfiguration& c) {
		if (a)
			a(c);
		if (b)
			b(c);
	};
}
struct Streaming {
	std::string id;
	bool sl;
	size_t p;
	Setup set;
};
static std::vector<Streaming> streaming(size_t dim, bool all) {
	std::vector<Streaming> r;
	for (int sl = 0; sl < 2; sl++)
		for (size_t p : all ? (dim == 2 ? std::vector<size_t> { 1, 2, 3, 5 } : std::vector<size_t> { 1, 2, 3 }) : std::vector<size_t> { dim == 2 ? 3u : 2u })
			for (SupportPointsName sup : { GAUSS_LOBATTO_POINTS, GAUSS_LOBATTO_CHEBYSHEV_POINTS, EQUIDISTANT_POINTS }) {
				if (sup != GAUSS_LOBATTO_POINTS && (!all || !sl))
					continue;
				r.push_back({ mc::cat(sl ? "SL" : "SEDG", " p", p, sup == GAUSS_LOBATTO_POINTS ? "" : sup == EQUIDISTANT_POINTS ? " equidistant" : " Chebyshev"), sl == 1, p, [=](SolverConfiguration& c) {
					c.setAdvectionScheme(sl ? SEMI_LAGRANGIAN : SEDG);
					c.setSedgOrderOfFiniteElement(p);
					c.setCFL(0.4);
					c.setSupportPoints(sup);
				} });
			}
	return r;
}
static Setup collision(const cl::Accepted& a) {
	return [a](SolverConfiguration& c) {
		c.setStencil(a.st.type);
		c.setCollisionScheme(a.s.coll);
		c.setEquilibriumScheme(a.s.eq);
		c.setMRTBasis(a.s.mb);
		c.setMRTRelaxationTimes(a.s.rm);
	};
}
struct Field {
	std::string id;
	std::function<void(Spec&, double)> set; // with the scaling
};
static std::vector<Field> fields() {
	return { { "default", [](Spec&, double) {
	} }, { "moving", [](Spec& s, double sc) {
		s.rho = [](const V&) {return 1.3;};
		s.u = [sc](const V&, size_t c) {return sc * (0.05 - 0.04 * c);};
		s.T = [](const V&) {return 0.9;};
	} }, { "general", [](Spec& s, double sc) {
		general(s, 0.06);
		auto u = s.u;
		s.u = [u, sc](const V& x, size_t c) {return sc * u(x, c);};
	} }, { "stretched general", [](Spec& s, double sc) {
		s.cells = {2, 1, 1};
		s.length = {1.7, 0.6, 0.9};
		general(s, 0.06);
		auto u = s.u;
		s.u = [u, sc](const V& x, size_t c) {return sc * u(x, c);};
	} }, { "distorted general", [](Spec& s, double sc) {
		general(s, 0.06);
		auto u = s.u;
		s.u = [u, sc](const V& x, size_t c) {return sc * u(x, c);};
		s.map = [](const V& x) {
			V y = x;
			for (size_t a = 0; a < x.size(); a++)
				y[a] = x[a] + 0.06 * std::sin(2 * M_PI * x[a]);
			return y;
		};
		s.cartesian = false;
	} } };
}
static const char* initName(InitializationSchemeName i) {
	return i == EQUILIBRIUM ? "equilibrium" : i == ITERATIVE ? "iterative" : i == COMPRESSIBLE_ITERATIVE ? "compressible-iterative" : "gradients";
}
/// the fields and the moments of the populations; velocity in units of the scaling
template<size_t dim> void starts(const CFDSolver<dim>& s, const Spec& sp, double scaling, bool iterative, bool free = false) {
	const Snapshot sn = snapshot<dim>(s);
	sn.hash();
	mc::check(sn.i == 0 && s.getIterationStart() == 0 && sn.t == 0, "zero", mc::cat("the simulation starts at iteration ", sn.i, " and time ", sn.t));
	double wrong = 0, moments = 0;
	size_t n = 0;
	auto worse = [](double& m, double e) {
		e = std::fabs(e);
		m = e <= m ? m : std::isnan(e) ? 1e300 : e;
	};
	for (auto& k : sn.n) {
		const Node& x = k.second;
		n++;
		if (!iterative)
			worse(wrong, x.m[0] - (sp.rho ? sp.rho(x.x) : 1.0));
		else if (!(x.m[0] > 0.2 && x.m[0] < 5))
			wrong = 1e300;
		double rho = 0;
		V j(dim, 0.0);
		for (size_t i = 0; i < x.f.size(); i++) {
			rho += x.f[i];
			for (size_t a = 0; a < dim; a++)
				j[a] += x.f[i] * s.getStencil()->getDirection(i)(a) / scaling;
		}
		if (!free)
			worse(moments, rho - x.m[0]);
		for (size_t a = 0; a < dim; a++) {
			const double u = x.m[1 + a] / scaling;
			worse(wrong, u - (sp.u ? sp.u(x.x, a) / scaling : 0.0));
			if (!iterative && !free)
				worse(moments, j[a] - x.m[0] * u);
		}
	}
	mc::check(n >= s.getNumberOfDoFs(), "nodes", mc::cat(n, " nodes of ", s.getNumberOfDoFs()));
	mc::check(wrong <= 1e-12, "fields", mc::cat("density or velocity differ from the problem's by ", wrong));
	mc::check(moments <= 1e-12, "moments", mc::cat("density or velocity differ from the moments of the populations by ", moments));
}
static Spec spec(const Field& f, double scaling, double visc = 0.03) {
	Spec sp;
	f.set(sp, scaling);
	sp.visc = visc * scaling;
	return sp;
}
template<size_t dim> void one(const Setup& set, const Field& f, double scaling, InitializationSchemeName init) {
	const Spec sp = spec(f, scaling);
	auto c = config(also(set, [=](SolverConfiguration& c) {
		c.setStencilScaling(scaling);
		c.setInitializationScheme(init);
		c.setIterativeInitializationNumberOfIterations(5);
		c.setIterativeInitializationResidual(1e-20);
	}));
	boost::shared_ptr<CFDSolver<dim> > solver;
	try {
		solver = boost::make_shared<CFDSolver<dim> >(c, boost::make_shared<Flow<dim> >(sp));
	} catch (Aborted&) {
		// some collision models have no iterative initialization
		if (init != ITERATIVE)
			throw;
		mc::outcome("iterative initialization refused");
		return;
	}
	CFDSolver<dim>& s = *solver;
	mc::transition();
	starts<dim>(s, sp, scaling, init == ITERATIVE);
	mc::outcome(mc::cat(initName(init), " ", f.id));
}
/// what the initialization has done is in the populations and fields and nowhere else
template<size_t dim> void no_trace(const Setup& set, const Field& f, InitializationSchemeName init, size_t steps) {
	auto cfg = [&](InitializationSchemeName i) {
		return config(also(set, [=](SolverConfiguration& c) {
			c.setStencilScaling(2);
			c.setNumberOfTimeSteps(steps);
			c.setInitializationScheme(i);
			c.setIterativeInitializationNumberOfIterations(3);
			c.setIterativeInitializationResidual(1e-20);
		}));
	};
	const Spec sp = spec(f, 2);
	auto c1 = cfg(init), c2 = cfg(EQUILIBRIUM);
	boost::shared_ptr<CFDSolver<dim> > first;
	try {
		first = boost::make_shared<CFDSolver<dim> >(c1, boost::make_shared<Flow<dim> >(sp));
	} catch (Aborted&) {
		// some collision models have no iterative initialization
		if (init != ITERATIVE)
			throw;
		mc::outcome("iterative initialization refused");
		return;
	}
	CFDSolver<dim>& a = *first;
	CFDSolver<dim> b(c2, boost::make_shared<Flow<dim> >(sp));
	for (size_t i = 0; i < a.getStencil()->getQ(); i++)
		b.getF().at(i) = a.getF().at(i);
	b.getF().updateGhosted();
	auto ra = boost::make_shared<Recorder<dim> >(a), rb = boost::make_shared<Recorder<dim> >(b);
	a.appendDataProcessor(ra);
	b.appendDataProcessor(rb);
	const double before = snapshot<dim>(a).distance(snapshot<dim>(b), true, false);
	if (!mc::check(before == 0, "harness", "populations not copied"))
		return;
	a.run();
	b.run();
	mc::check(ra->order == rb->order && ra->order.size() == steps, "trace", "different steps after the initialization");
	for (auto& x : ra->seen) {
		auto y = rb->seen.find(x.first);
		if (y == rb->seen.end())
			continue;
		const double d = x.second.distance(y->second);
		mc::check(d <= 1e-13, "trace", mc::cat("after the initialization '", initName(init), "' the simulation differs from one that starts with the same populations by ", d, " in step ", x.first));
		mc::check(x.second.t == y->second.t, "trace", "different times");
	}
	mc::trace();
	mc::outcome(mc::cat("trace ", initName(init)));
}
/// populations from velocity gradients carry the viscous stress (for polynomials that the elements represent)
template<size_t dim> void stress(const Setup& set, const Streaming& st, double scaling, double visc, double length) {
	Spec sp;
	sp.length = V { length, 0.8 * length, 1.3 * length };
	sp.visc = visc * scaling;
	for (size_t k = 0; k < 2 * dim; k++) {
		sp.side[k].kind = st.sl ? 'e' : 'n';
		sp.side[k].u = V(dim, 0.0);
	}
	const bool quadratic = st.p >= 2;
	auto du = [=](const V& x, size_t c, size_t a) {
		return scaling / length * (0.02 * (1.0 + c) - 0.05 * (c == a) + 0.011 * a + (quadratic ? 0.03 * (1 + c) * (x[a] / length) : 0.0));
	};
	sp.u = [=](const V& x, size_t c) {
		double r = 0.01 * scaling;
		for (size_t a = 0; a < dim; a++)
			r += x[a] * scaling / length * (0.02 * (1.0 + c) - 0.05 * (c == a) + 0.011 * a + (quadratic ? 0.015 * (1 + c) * (x[a] / length) : 0.0));
		return r;
	};
	sp.rho = [=](const V& x) {
		return 1 + 0.1 * x[0] / length - 0.05 * x[1] / length;
	};
	auto cfg = [&](InitializationSchemeName i) {
		return config(also(set, [=](SolverConfiguration& c) {
			c.setStencilScaling(scaling);
			c.setInitializationScheme(i);
		}));
	};
	auto c1 = cfg(GRADIENTS), c2 = cfg(EQUILIBRIUM);
	CFDSolver<dim> a(c1, boost::make_shared<Flow<dim> >(sp)), b(c2, boost::make_shared<Flow<dim> >(sp));
	const double dt = a.getTimeStepSize(), cs2 = a.getStencil()->getSpeedOfSoundSquare();
	const double tau = sp.visc / (cs2 * dt) + 0.5;
	const Snapshot g = snapshot<dim>(a), e = snapshot<dim>(b);
	double wrong = 0, largest = 0;
	for (auto& x : g.n) {
		const Node& q = e.n.at(x.first);
		for (size_t k = 0; k < dim; k++)
			for (size_t l = 0; l < dim; l++) {
				double p = 0;
				for (size_t i = 0; i < q.f.size(); i++)
					p += (x.second.f[i] - q.f[i]) * a.getStencil()->getDirection(i)(k) * a.getStencil()->getDirection(i)(l);
				const double want = -q.m[0] * cs2 * tau * dt * (du(q.x, k, l) + du(q.x, l, k));
				wrong = std::max(wrong, std::fabs(p - want));
				largest = std::max(largest, std::fabs(want));
			}
	}
	mc::state(mc::cat(wrong, largest));
	mc::check(wrong <= 1e-10 * largest, "stress", mc::cat("the stress of the populations differs by ", wrong / largest, " of the viscous stress"));
	mc::outcome("stress");
}
/// after changes of the velocity a solver is in the state of one that started with the changed velocity
template<size_t dim> void changed(const Setup& set, const Field& f, double scaling, InitializationSchemeName init, size_t depth) {
	const Spec sp = spec(f, scaling);
	auto setup = [=](SolverConfiguration& c) {
		c.setStencilScaling(scaling);
		c.setInitializationScheme(init);
		c.setNumberOfTimeSteps(2);
	};
	const std::vector<Vector> add = { [=](const V&, size_t c) {return scaling * (0.02 - 0.01 * c);}, [=](const V& x, size_t c) {
		double r = 0;
		for (size_t a = 0; a < x.size(); a++)
			r += (0.3 + 0.2 * a - 0.1 * c) * std::sin(2 * M_PI * x[a] / sp.length[a] + a + c);
		return 0.03 * scaling * r;
	} };
	const V factor = { 0.5, -1.25, 0, 1 };
	const size_t ops = add.size() + factor.size();
	CFDSolver<dim> s(config(also(set, setup)), boost::make_shared<Flow<dim> >(sp));
	std::vector<size_t> path;
	std::function<void()> go = [&]() {
		if (path.size()) {
			// the velocity that the sequence of changes leads to
			Spec q = sp;
			std::string name;
			for (size_t o : path) {
				auto u = q.u;
				if (o < add.size())
					q.u = [u, o, &add](const V& x, size_t c) {return (u ? u(x, c) : 0.0) + add[o](x, c);};
				else
					q.u = [u, o, &add, &factor](const V& x, size_t c) {return (u ? u(x, c) : 0.0) * factor[o - add.size()];};
				name += mc::cat(" ", o < add.size() ? "add" : "scale", o);
			}
			// back to the start: the populations depend on density and velocity only
			s.scaleVelocity(0);
			auto u0 = sp.u;
			if (u0)
				s.addToVelocity(boost::make_shared<Fun<dim> >([=](const V& x, size_t c) {return u0(x, c);}, dim));
			for (size_t o : path) {
				if (o < add.size())
					s.addToVelocity(boost::make_shared<Fun<dim> >(add[o], dim));
				else
					s.scaleVelocity(factor[o - add.size()]);
				mc::transition();
			}
			starts<dim>(s, q, scaling, false, init == ITERATIVE);
			CFDSolver<dim> fresh(config(also(set, setup)), boost::make_shared<Flow<dim> >(q));
			const Snapshot a = snapshot<dim>(s), b = snapshot<dim>(fresh);
			mc::check(a.distance(b) <= 1e-12, "changed", mc::cat("after", name, " the solver differs from one that starts with this velocity by ", a.distance(b)));
			if (path.size() == depth && path[0] == 1) {
				// and the simulations are the same
				CFDSolver<dim> t(config(also(set, setup)), boost::make_shared<Flow<dim> >(sp));
				for (size_t o : path)
					if (o < add.size())
						t.addToVelocity(boost::make_shared<Fun<dim> >(add[o], dim));
					else
						t.scaleVelocity(factor[o - add.size()]);
				t.run();
				fresh.run();
				const double d = snapshot<dim>(t).distance(snapshot<dim>(fresh));
				mc::check(d <= 1e-12, "changed-step", mc::cat("two steps after", name, " the solver differs from one that starts with this velocity by ", d));
			}
			mc::trace();
		}
		if (path.size() < depth)
			for (size_t o = 0; o < ops; o++) {
				path.push_back(o);
				go();
				path.pop_back();
			}
	};
	go();
	mc::outcome(mc::cat("changed ", initName(init)));
}
// ---------------------------------------------------------------- compressible
template<size_t dim> void compressible(const Setup& set, const Field& f, double scaling, double gamma, InitializationSchemeName init) {
	const Spec sp = spec(f, scaling);
	auto c = config(also(set, [=](SolverConfiguration& c) {
		c.setStencilScaling(scaling);
		c.setHeatCapacityRatioGamma(gamma);
		c.setInitializationScheme(init);
		c.setIterativeInitializationNumberOfIterations(2);
	}));
	CompressibleCFDSolver<dim> s(c, boost::make_shared<Flow<dim> >(sp));
	// the populations of compressible solvers are set when the simulation starts
	s.initializeDistributions();
	mc::transition();
	starts<dim>(s, sp, scaling, false, init != EQUILIBRIUM);
	const double cs2 = s.getStencil()->getSpeedOfSoundSquare(), cv = 1 / (gamma - 1);
	double wrong = 0, energy = 0;
	const auto& dh = *s.getAdvectionOperator()->getDoFHandler();
	(void) dh;
	for (auto& p : s.getSupportPoints()) {
		V x(dim);
		for (size_t a = 0; a < dim; a++)
			x[a] = p.second[a];
		const double T = sp.T ? sp.T(x) : 1.0;
		wrong = std::max(wrong, std::fabs(s.getTemperature()(p.first) - T));
		if (init != EQUILIBRIUM)
			continue;
		double rho = 0, e = 0;
		for (size_t i = 0; i < s.getStencil()->getQ(); i++) {
			double v2 = 0;
			for (size_t a = 0; a < dim; a++)
				v2 += std::pow(s.getStencil()->getDirection(i)(a) - s.getVelocity().at(a)(p.first), 2);
			rho += s.getF().at(i)(p.first);
			e += v2 / cs2 * s.getF().at(i)(p.first) + s.getG().at(i)(p.first);
		}
		energy = std::max(energy, std::fabs(e / (2 * rho * cv) - T));
	}
	mc::check(wrong <= 1e-12, "temperature", mc::cat("temperature differs from the problem's by ", wrong));
	mc::check(energy <= 1e-12, "energy", mc::cat("temperature differs from the energy of the populations by ", energy));
	mc::outcome(mc::cat("compressible ", initName(init)));
}
template<size_t dim> void explore() {
	for (auto& a : cl::accepted()) {
		if (a.st.d != dim)
			continue;
		for (double scaling : mc::thorough() ? V { 1, 17.3, 0.3 } : V { 1, 17.3 })
			for (auto& st : streaming(dim, a.id == "D2Q9/bgk/bgkeq" || a.id == "D3Q19/bgk/bgkeq" || mc::thorough()))
				for (auto& f : fields())
					for (InitializationSchemeName init : { EQUILIBRIUM, ITERATIVE, COMPRESSIBLE_ITERATIVE, GRADIENTS }) {
						if (dim == 3 && !mc::thorough() && f.id != "general" && init != EQUILIBRIUM)
							continue;
						mc::run_case(mc::cat("start: ", a.id, " ", st.id, " scaling ", scaling, " ", f.id, " ", initName(init)), [&]() {
							one<dim>(also(st.set, collision(a)), f, scaling, init);
						});
					}
		for (auto& st : streaming(dim, false))
			for (InitializationSchemeName init : { ITERATIVE, COMPRESSIBLE_ITERATIVE, GRADIENTS })
				mc::run_case(mc::cat("trace: ", a.id, " ", st.id, " ", initName(init)), [&]() {
					no_trace<dim>(also(st.set, collision(a)), fields()[2], init, mc::tier<size_t>(2, 6));
				});
		for (auto& st : streaming(dim, a.id == "D2Q9/bgk/bgkeq" || mc::thorough()))
			for (auto& f : fields())
				for (InitializationSchemeName init : { EQUILIBRIUM, GRADIENTS, COMPRESSIBLE_ITERATIVE }) {
					if (!mc::thorough() && f.id != "default" && f.id != "general" && (dim == 3 || st.p > 2 || f.id != "stretched general"))
						continue;
					mc::run_case(mc::cat("changed: ", a.id, " ", st.id, " ", f.id, " ", initName(init)), [&]() {
						changed<dim>(also(st.set, collision(a)), f, f.id == "general" ? 3.5 : 1.0, init, dim == 2 && (mc::thorough() || a.id == "D2Q9/bgk/bgkeq") ? 2 : 1);
					});
				}
		for (auto& st : streaming(dim, true))
			for (double scaling : { 1.0, 12.0 })
				for (double visc : { 0.001, 0.2 })
					for (double length : { 1.0, 7.0 })
						mc::run_case(mc::cat("stress: ", a.id, " ", st.id, " scaling ", scaling, " viscosity ", visc, " length ", length), [&]() {
							stress<dim>(also(st.set, collision(a)), st, scaling, visc, length);
						});
	}
	std::vector<std::pair<StencilType, EquilibriumSchemeName> > comp;
	if (dim == 2)
		comp = { {Stencil_D2Q25H, BGK_EQUILIBRIUM}, {Stencil_D2Q25H, QUARTIC_EQUILIBRIUM}, {Stencil_D2Q19H, BGK_EQUILIBRIUM}, {Stencil_D2Q19H, QUARTIC_EQUILIBRIUM}, {
				Stencil_D2Q19V, QUARTIC_EQUILIBRIUM}};
		else
		comp = { {Stencil_D3Q45, QUARTIC_EQUILIBRIUM}, {Stencil_D3Q77, QUARTIC_EQUILIBRIUM}};
	for (auto& k : comp)
		for (auto& st : streaming(dim, mc::thorough()))
			for (double scaling : { 1.0, 3.7 })
				for (double gamma : { 1.4, 5. / 3, 1.2 })
					for (auto& f : fields())
						for (InitializationSchemeName init : { EQUILIBRIUM, COMPRESSIBLE_ITERATIVE }) {
							if (dim == 3 && !mc::thorough() && (gamma != 1.4 || f.id == "default"))
								continue;
							mc::run_case(mc::cat("compressible: ", (int) k.first, " ", (int) k.second, " ", st.id, " scaling ", scaling, " gamma ", gamma, " ", f.id, " ", initName(init)), [&]() {
								compressible<dim>(also(st.set, [=](SolverConfiguration& c) {
									c.setStencil(k.first);
									c.setEquilibriumScheme(k.second);
								}), f, scaling, gamma, init);
							});
						}
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	explore<2>();
	explore<3>();
	mc::finish();
}
