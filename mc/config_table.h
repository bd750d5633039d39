// All options of the SolverConfiguration: how to read and set them, legal and illegal values
#pragma once
#include "mc.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/utilities/MPIGuard.h"
#include <deal.II/base/utilities.h>
using namespace natrium;
typedef SolverConfiguration C;
typedef std::vector<double> V;

struct Option {
	std::string name;
	std::vector<std::string> path; // section ... entry
	std::function<std::string(C&)> get;
	std::string def;               // documented default, as the getter shows it
	std::vector<std::pair<std::string, std::function<void(C&)> > > good; // value as the getter shows it, setter
	std::vector<std::string> text; // the same values as they stand in a parameter file
	std::vector<std::pair<std::string, std::function<void(C&)> > > bad;  // to be refused by the setter
	std::vector<std::string> bad_text; // to be refused in a file
	double tol = 0;                // relative tolerance for numbers that are stored as text
};
static std::string num(double x) {
	return mc::cat(x);
}
static std::string list(const V& v) {
	std::string s;
	for (double x : v)
		s += num(x) + ",";
	return s;
}
static bool equal(const Option& o, const std::string& a, const std::string& b) {
	if (a == b)
		return true;
	if (o.tol == 0)
		return false;
	// numbers
	std::stringstream x(a), y(b);
	std::string s, t;
	while (true) {
		const bool p = (bool) std::getline(x, s, ','), q = (bool) std::getline(y, t, ',');
		if (p != q)
			return false;
		if (!p)
			return true;
		char* e1;
		char* e2;
		const double c = std::strtod(s.c_str(), &e1), d = std::strtod(t.c_str(), &e2);
		if (*e1 || *e2 || !(std::fabs(c - d) <= o.tol * std::max(std::fabs(c), std::fabs(d))))
			return false;
	}
}
static std::vector<Option> O;

template<class E> static void selection(const std::string& name, const std::vector<std::string>& path, E (C::*g)(), void (C::*s)(E), size_t def,
		const std::vector<std::pair<E, std::string> >& values) {
	Option o;
	o.name = name;
	o.path = path;
	o.get = [g](C& c) {return mc::cat((int) (c.*g)());};
	o.def = mc::cat((int) values[def].first);
	int most = 0;
	for (auto& v : values) {
		const E e = v.first;
		o.good.emplace_back(mc::cat((int) e), [s, e](C& c) {(c.*s)(e);});
		o.text.push_back(v.second);
		most = std::max(most, (int) e);
	}
	for (int k : { most + 1, 1000, -1 })
		o.bad.emplace_back(mc::cat("enum ", k), [s, k](C& c) {volatile int x = k; (c.*s)((E) x);});
	o.bad_text = { "Nonsense", values[0].second + "x" };
	O.push_back(o);
}
static void integer(const std::string& name, const std::vector<std::string>& path, size_t (C::*g)(), void (C::*s)(long int), long def, const std::vector<long>& values,
		const std::vector<long>& bad) {
	Option o;
	o.name = name;
	o.path = path;
	o.get = [g](C& c) {return mc::cat((c.*g)());};
	o.def = mc::cat(def);
	for (long v : values) {
		o.good.emplace_back(mc::cat(v), [s, v](C& c) {(c.*s)(v);});
		o.text.push_back(mc::cat(v));
	}
	for (long v : bad) {
		o.bad.emplace_back(mc::cat(v), [s, v](C& c) {(c.*s)(v);});
		o.bad_text.push_back(mc::cat(v));
	}
	o.bad_text.push_back("three");
	O.push_back(o);
}
static void real(const std::string& name, const std::vector<std::string>& path, double (C::*g)(), void (C::*s)(double), double def, const V& values, const V& bad) {
	Option o;
	o.name = name;
	o.path = path;
	o.tol = 1e-15;
	o.get = [g](C& c) {return num((c.*g)());};
	o.def = num(def);
	for (double v : values) {
		o.good.emplace_back(num(v), [s, v](C& c) {(c.*s)(v);});
		o.text.push_back(num(v));
	}
	for (double v : bad) {
		o.bad.emplace_back(num(v), [s, v](C& c) {(c.*s)(v);});
		o.bad_text.push_back(num(v));
	}
	o.bad_text.push_back("one half");
	O.push_back(o);
}
static void flag(const std::string& name, const std::vector<std::string>& path, bool (C::*g)(), void (C::*s)(bool), bool def) {
	Option o;
	o.name = name;
	o.path = path;
	o.get = [g](C& c) {return std::string((c.*g)() ? "true" : "false");};
	o.def = def ? "true" : "false";
	for (bool v : { true, false }) {
		o.good.emplace_back(v ? "true" : "false", [s, v](C& c) {(c.*s)(v);});
		o.text.push_back(v ? "true" : "false");
	}
	o.bad_text = { "maybe" };
	O.push_back(o);
}

static void options() {
	const double pi = 3.14159265358979312, third = 1. / 3;
	real("CFL", { "General", "CFL" }, &C::getCFL, &C::setCFL, 0.4, { 1, 0.25, third, 20 }, { 0, -1 });
	real("heat capacity ratio", { "General", "Gamma" }, &C::getHeatCapacityRatioGamma, &C::setHeatCapacityRatioGamma, 1.4, { 5. / 3, 2 }, { 0, -1 });
	real("reference temperature", { "General", "Reference temperature" }, &C::getReferenceTemperature, &C::setReferenceTemperature, 1.0, { 0.85, third }, { 0, -1 });
	real("stencil scaling", { "General", "Stencil scaling" }, &C::getStencilScaling, &C::setStencilScaling, 1.0, { 0.5, 57.735026918962582, 1e-3 }, { 0, -2 });
	flag("analytic solution", { "General", "Has analytic solution?" }, &C::hasAnalyticSolution, &C::setHasAnalyticSolution, false);
	selection<StencilType>("stencil", { "General", "Stencil" }, &C::getStencil, &C::setStencil, 0, { { Stencil_D2Q9, "D2Q9" }, { Stencil_D3Q13, "D3Q13" }, {
			Stencil_D3Q15, "D3Q15" }, { Stencil_D3Q19, "D3Q19" }, { Stencil_D3Q21, "D3Q21" }, { Stencil_D3Q27, "D3Q27" }, { Stencil_RD3Q27, "RD3Q27" }, {
			Stencil_D2Q19V, "D2Q19V" }, { Stencil_D2Q19H, "D2Q19H" }, { Stencil_D2Q25H, "D2Q25H" }, { Stencil_D3Q45, "D3Q45" }, { Stencil_D3Q77, "D3Q77" }, {
			Stencil_D3V27, "D3V27" }, { Stencil_D2Q777, "D2Q777" } });
	selection<AdvectionSchemeName>("advection scheme", { "Advection", "Advection scheme" }, &C::getAdvectionScheme, &C::setAdvectionScheme, 0, { { SEDG, "SEDG" }, {
			SEMI_LAGRANGIAN, "Semi-Lagrangian" } });
	selection<SupportPointsName>("support points", { "Advection", "Support points" }, &C::getSupportPoints, &C::setSupportPoints, 0, { { GAUSS_LOBATTO_POINTS,
			"Gauss-Lobatto" }, { GAUSS_CHEBYSHEV_POINTS, "Gauss-Chebyshev" }, { GAUSS_LOBATTO_CHEBYSHEV_POINTS, "Gauss-Lobatto-Chebyshev" }, { EQUIDISTANT_POINTS,
			"Equidistant" } });
	selection<QuadratureName>("quadrature", { "Advection", "Quadrature" }, &C::getQuadrature, &C::setQuadrature, 0, { { QGAUSS_LOBATTO, "Gauss-Lobatto" }, { QGAUSS,
			"Gauss" } });
	selection<TimeIntegratorName>("time integrator", { "Advection", "Time integrator" }, &C::getTimeIntegrator, &C::setTimeIntegrator, 0, { { RUNGE_KUTTA_5STAGE,
			"Runge-Kutta 5-stage" }, { THETA_METHOD, "Theta method" }, { EXPONENTIAL, "Exponential" }, { OTHER, "Other" } });
	integer("order", { "Advection", "SEDG", "Order of finite element" }, &C::getSedgOrderOfFiniteElement, &C::setSedgOrderOfFiniteElement, 1, { 2, 3, 14 }, { 0, -1 });
	selection<FluxTypeName>("flux", { "Advection", "SEDG", "Flux type" }, &C::getSedgFluxType, &C::setSedgFluxType, 0, { { LAX_FRIEDRICHS, "Lax-Friedrichs" }, {
			CENTRAL, "Central" } });
	real("theta", { "Advection", "Theta method", "Theta" }, &C::getThetaMethodTheta, &C::setThetaMethodTheta, 0.5, { 0, 1, third }, { -0.1, 1.1 });
	selection<DealIntegratorName>("deal integrator", { "Advection", "Deal.II integrator", "Runge Kutta scheme" }, &C::getDealIntegrator, &C::setDealIntegrator, 12, { {
			FORWARD_EULER, "Forward Euler" }, { RK_THIRD_ORDER, "RK 3rd order" }, { RK_CLASSIC_FOURTH_ORDER, "RK Classic 4th order" },
			{ BACKWARD_EULER, "Backward Euler" }, { IMPLICIT_MIDPOINT, "Implicit midpoint" }, { CRANK_NICOLSON, "Crank-Nicoloson" }, { SDIRK_TWO_STAGES,
					"SDIRK 2 stages" }, { HEUN_EULER, "Heun-Euler" }, { BOGACKI_SHAMPINE, "Bogacki-Shampine" }, { DOPRI, "Dopri" }, { FEHLBERG, "Fehlberg" }, {
					CASH_KARP, "Cash-Karp" }, { NONE, "None" } });
	selection<DealSolverName>("deal solver", { "Advection", "Deal.II linear solver", "Linear solver" }, &C::getDealLinearSolver, &C::setDealLinearSolver, 0, { {
			BICGSTAB, "Bicgstab" }, { CG, "Cg" }, { FGMRES, "Fgmres" }, { GMRES, "Gmres" }, { MINRES, "Minres" }, { QMRS, "Qmrs" }, { RELAXATION, "Relaxation" }, {
			RICHARDSON, "Richardson" } });
	{
		// six values set together
		const char* names[] = { "Coarsen parameter", "Refinement parameter", "Minimum CFL", "Maximum CFL", "Refinement tolerance", "Coarsen tolerance" };
		Option o;
		o.name = "embedded parameters";
		o.path = {"Advection", "Embedded Parameters"};
		o.tol = 1e-15;
		o.get = [](C& c) {return list( {c.getEmbeddedDealIntegratorCoarsenParameter(), c.getEmbeddedDealIntegratorRefinementParameter(),
					c.getEmbeddedDealIntegratorMinimumCFL(), c.getEmbeddedDealIntegratorMaximumCFL(), c.getEmbeddedDealIntegratorRefinementTolerance(),
					c.getEmbeddedDealIntegratorCoarsenTolerance()});};
		o.def = list( { 1.2, 0.8, 0.05, 10, 1e-8, 1e-12 });
		for (V v : { V { 1.5, 0.5, 3, 0.01, 1e-6, 1e-10 }, V { 1000, third, 0.1, 7, 0.5, pi * 1e-9 } })
			o.good.emplace_back(list(v), [v](C& c) {c.setEmbeddedDealIntegratorParameters(v[0], v[1], v[2], v[3], v[4], v[5]);});
		o.text = {"", ""};
		for (V v : { V { 0.5, 0.4, 2, 0.02, 1e-5, 1e-9 }, V { 1.7, 1.4, 2, 0.02, 1e-5, 1e-9 } })
			o.bad.emplace_back(list(v), [v](C& c) {c.setEmbeddedDealIntegratorParameters(v[0], v[1], v[2], v[3], v[4], v[5]);});
		O.push_back(o);
		(void) names;
	}
	selection<CollisionSchemeName>("collision scheme", { "Collision", "Collision scheme" }, &C::getCollisionScheme, &C::setCollisionScheme, 0, { { BGK_STANDARD,
			"BGK standard" }, { BGK_STANDARD_TRANSFORMED, "BGK standard transformed" }, { BGK_STEADY_STATE, "BGK steady state" }, { BGK_MULTIPHASE, "BGK multiphase" }, {
			BGK_INCOMPRESSIBLE, "BGK incompressible" }, { MRT_STANDARD, "MRT standard" }, { MRT_ENTROPIC, "MRT entropic" }, { ENTROPIC_STABILIZED,
			"Entropic stabilized" }, { KBC_STANDARD, "KBC standard" }, { KBC_CENTRAL, "KBC central" }, { BGK_MULTI_AM4, "BGK multi am4" }, { BGK_MULTI_BDF2,
			"BGK multi bdf2" }, { BGK_REGULARIZED, "BGK regularized" } });
	selection<MomentBasis>("MRT basis", { "Collision", "MRT basis" }, &C::getMRTBasis, &C::setMRTBasis, 0, { { DELLAR_D2Q9, "Dellar D2Q9" }, { LALLEMAND_D2Q9,
			"Lallemand D2Q9" }, { DHUMIERES_D3Q19, "DHumieres D3Q19" } });
	selection<RelaxMode>("MRT relaxation", { "Collision", "MRT relaxation times" }, &C::getMRTRelaxationTimes, &C::setMRTRelaxationTimes, 0, { { RELAX_FULL, "Full" }, {
			DELLAR_RELAX_ONLY_N, "Dellar D2Q9 Only N" }, { RELAX_DHUMIERES_PAPER, "DHumieres Paper" } });
	selection<EquilibriumSchemeName>("equilibrium", { "Collision", "Equilibrium scheme" }, &C::getEquilibriumScheme, &C::setEquilibriumScheme, 0, { { BGK_EQUILIBRIUM,
			"BGK equilibrium" }, { QUARTIC_EQUILIBRIUM, "Quartic equilibrium" }, { INCOMPRESSIBLE_EQUILIBRIUM, "Incompressible equilibrium" }, {
			STEADYSTATE_EQUILIBRIUM, "Steady-state equilibrium" }, { ENTROPIC_EQUILIBRIUM, "Entropic equilibrium" } });
	real("steady state gamma", { "Collision", "BGK parameters", "Steady state gamma" }, &C::getBGKSteadyStateGamma, &C::setBGKSteadyStateGamma, 1, { 0.1, third }, { -0.1, 1.5 });
	selection<PseudopotentialType>("pseudopotential", { "Collision", "BGK parameters", "Pseudopotential type" }, &C::getPseudopotentialType, &C::setPseudopotentialType, 0,
			{ { SHAN_CHEN, "ShanChen" }, { SUKOP, "Sukop" }, { CARNAHAN_STARLING, "CarnahanStarling" } });
	real("pseudopotential G", { "Collision", "BGK parameters", "Pseudopotential G" }, &C::getBGKPseudopotentialG, &C::setBGKPseudopotentialG, -5, { -4.4, third }, { 1e11 });
	real("pseudopotential T", { "Collision", "BGK parameters", "Pseudopotential T" }, &C::getBGKPseudopotentialT, &C::setBGKPseudopotentialT, 0.0848997582, { 0.05, third }, { -1e11 });
	selection<ForceType>("forcing", { "Collision", "BGK parameters", "Forcing scheme" }, &C::getForcingScheme, &C::setForcingScheme, 0, { { NO_FORCING, "No Forcing" }, {
			SHIFTING_VELOCITY, "Shifting Velocity" }, { EXACT_DIFFERENCE, "Exact Difference" }, { GUO, "Guo" } });
	selection<RegularizationSchemeName>("regularization", { "Filtering", "Regularization" }, &C::getRegularizationScheme, &C::setRegularizationScheme, 0, { {
			NO_REGULARIZATION, "No Regularization" }, { PSEUDO_ENTROPY_MAXIMIZATION, "Pseudo-entropy maximization" }, { ZERO_HIGH_ORDER_MOMENTS,
			"Zero high-order moments" }, { ENTROPY_MAXIMIZATION, "Entropy maximization" }, { PSEUDO_ENTROPY_MAXIMIZATION_WITH_E, "Pseudo-entropy maximization with e" } });
	flag("vmult limiter", { "Filtering", "Apply vmult limiter?" }, &C::isVmultLimiter, &C::setVmultLimiter, false);
	flag("filtering", { "Filtering", "Apply filtering?" }, &C::isFiltering, &C::setFiltering, false);
	selection<FilteringSchemeName>("filter", { "Filtering", "Filtering scheme" }, &C::getFilteringScheme, &C::setFilteringScheme, 0, { { EXPONENTIAL_FILTER,
			"Exponential" }, { NEW_FILTER, "New" } });
	integer("filter interval", { "Filtering", "Filter parameters", "Filter interval" }, &C::getFilterInterval, &C::setFilterInterval, 1, { 2, 1234567 }, { 0, -3 });
	real("filter alpha", { "Filtering", "Filter parameters", "Exponential alpha" }, &C::getExponentialFilterAlpha, &C::setExponentialFilterAlpha, 10, { 0, 36, third }, { -1 });
	real("filter s", { "Filtering", "Filter parameters", "Exponential s" }, &C::getExponentialFilterS, &C::setExponentialFilterS, 20, { 0, 32, third }, { -1 });
	{
		Option o;
		o.name = "filter Nc";
		o.path = {"Filtering", "Filter parameters", "Exponential Nc"};
		o.get = [](C& c) {return mc::cat(c.getExponentialFilterNc());};
		o.def = "1";
		for (int v : { 0, 2, 50 }) {
			o.good.emplace_back(mc::cat(v), [v](C& c) {c.setExponentialFilterNc(v);});
			o.text.push_back(mc::cat(v));
		}
		o.bad.emplace_back("51", [](C& c) {c.setExponentialFilterNc(51);});
		o.bad.emplace_back("-1", [](C& c) {c.setExponentialFilterNc(-1);});
		o.bad_text = {"51", "many"};
		O.push_back(o);
	}
	flag("degree by sums", { "Filtering", "Filter parameters", "Degree by component sums" }, &C::isFilterDegreeByComponentSums, &C::setFilterDegreeByComponentSums, false);
	integer("restart", { "Initialization", "Restart at iteration" }, &C::getRestartAtIteration, &C::setRestartAtIteration, 0, { 1, 500 }, { -1 });
	selection<InitializationSchemeName>("initialization", { "Initialization", "Initialization scheme" }, &C::getInitializationScheme, &C::setInitializationScheme, 0, { {
			EQUILIBRIUM, "Equilibrium" }, { ITERATIVE, "Iterative" }, { COMPRESSIBLE_ITERATIVE, "CompressibleIterative" }, { GRADIENTS, "Gradients" } });
	real("init residual", { "Initialization", "Iterative initialization stop condition", "Residual" }, &C::getIterativeInitializationResidual,
			&C::setIterativeInitializationResidual, 1e-7, { 1e-12, third }, { 0, -1 });
	integer("init iterations", { "Initialization", "Iterative initialization stop condition", "Number of iterations" },
			&C::getIterativeInitializationNumberOfIterations, &C::setIterativeInitializationNumberOfIterations, 2000, { 1, 77 }, { 0, -1 });
	integer("time steps", { "Stop condition", "Number of time steps" }, &C::getNumberOfTimeSteps, &C::setNumberOfTimeSteps, 100000000, { 1, 1234567890 }, { 0, -1 });
	real("end time", { "Stop condition", "Simulation end time" }, &C::getSimulationEndTime, &C::setSimulationEndTime, 1e8, { 0, pi, 1e-9 }, { -1 });
	real("convergence threshold", { "Stop condition", "Convergence threshold" }, &C::getConvergenceThreshold, &C::setConvergenceThreshold, 1e-30, { 1e-6, third }, { });
	flag("output off", { "Output", "Switch output off?" }, &C::isSwitchOutputOff, &C::setSwitchOutputOff, false);
	flag("user interaction", { "Output", "User interaction?" }, &C::isUserInteraction, &C::setUserInteraction, true);
	{
		Option o;
		o.name = "output directory";
		o.path = {"Output", "Output directory"};
		o.get = [](C& c) {return c.getOutputDirectory();};
		o.def = "/tmp/NATriuM";
		for (std::string v : { "/tmp/somewhere else", "relative/dir", "/tmp/a,b;c<d>&e" }) {
			o.good.emplace_back(v, [v](C& c) {c.setOutputDirectory(v);});
			o.text.push_back(v);
		}
		O.push_back(o);
	}
	integer("checkpoint interval", { "Output", "Output checkpoint interval" }, &C::getOutputCheckpointInterval, &C::setOutputCheckpointInterval, 1000000000, { 1, 250 }, { 0, -1 });
	integer("table interval", { "Output", "Output table interval" }, &C::getOutputTableInterval, &C::setOutputTableInterval, 1000, { 1, 333 }, { 0, -1 });
	integer("solution interval", { "Output", "Output solution interval" }, &C::getOutputSolutionInterval, &C::setOutputSolutionInterval, 1000, { 1, 444 }, { 0, -1 });
	integer("verbosity", { "Output", "Command line verbosity" }, &C::getCommandLineVerbosity, &C::setCommandLineVerbosity, 5, { 0, 8 }, { -1, 9 });
	flag("log file", { "Output", "Write a log file?" }, &C::isWriteALogFile, &C::setWriteALogFile, true);
	flag("global turbulence", { "Output", "Turbulence Statistics", "Output global turbulence statistics?" }, &C::isOutputGlobalTurbulenceStatistics,
			&C::setOutputGlobalTurbulenceStatistics, false);
	flag("compressible turbulence", { "Output", "Turbulence Statistics", "Output compressible turbulence statistics?" }, &C::isOutputCompressibleTurbulenceStatistics,
			&C::setOutputCompressibleTurbulenceStatistics, false);
	flag("turbulence", { "Output", "Turbulence Statistics", "Output turbulence statistics?" }, &C::isOutputTurbulenceStatistics, &C::setOutputTurbulenceStatistics, false);
	integer("wall normal direction", { "Output", "Turbulence Statistics", "Wall normal direction" }, &C::getWallNormalDirection, &C::setWallNormalDirection, 1, { 0, 2 }, {
			-1, 4 });
	{
		Option o;
		o.name = "wall normal coordinates";
		o.path = {"Output", "Turbulence Statistics", "Wall normal coordinates"};
		o.tol = 1e-15;
		o.get = [](C& c) {return list(c.getWallNormalCoordinates());};
		o.def = list( { 0.1, 0.2, 0.5 });
		for (V v : { V { 0.5 }, V { 0.123456789012, 1234567.25 }, V { -1, 0, 1, 2 }, V { } }) {
			o.good.emplace_back(list(v), [v](C& c) {c.setWallNormalCoordinates(v);});
			std::string t;
			for (double x : v)
				t += (t == "" ? "" : ", ") + num(x);
			o.text.push_back(t);
		}
		o.bad.emplace_back("1e11", [](C& c) {c.setWallNormalCoordinates(V {0.5, 1e11});});
		o.bad_text = {"up, down"};
		O.push_back(o);
	}
	{
		// the Prandtl number and whether it was set are one variable; so is Sutherland's law
		Option o;
		o.name = "Prandtl number";
		o.path = {"General", "Prandtl"};
		o.tol = 1e-15;
		o.get = [](C& c) {return list( {c.getPrandtlNumber(), (double) c.isPrandtlNumberSet()});};
		o.def = list( { 1, 0 });
		for (double v : { 0.7, third, 1.0 })
			o.good.emplace_back(list( { v, 1 }), [v](C& c) {c.setPrandtlNumber(v);});
		o.text = {"", "", ""};
		for (double v : { 0., -1. })
			o.bad.emplace_back(num(v), [v](C& c) {c.setPrandtlNumber(v);});
		O.push_back(o);
		Option s;
		s.name = "Sutherland's law";
		s.path = {"General", "Sutherland law set"};
		s.get = [](C& c) {return std::string(c.isSutherlandLawSet() ? "true" : "false");};
		s.def = "false";
		s.good.emplace_back("true", [](C& c) {c.setSutherlandLaw();});
		s.text = {"true"};
		O.push_back(s);
	}
}

typedef std::vector<std::string> Model;
static Model defaults() {
	Model m;
	for (auto& o : O)
		m.push_back(o.def);
	return m;
}
/// every getter shows what the model holds
static bool compare(C& c, const Model& m, const std::string& key, const std::string& where) {
	bool ok = true;
	for (size_t k = 0; k < O.size(); k++) {
		std::string v;
		try {
			v = O[k].get(c);
		} catch (std::exception& e) {
			v = "exception: " + std::string(e.what()).substr(0, 200);
		}
		ok &= mc::check(equal(O[k], v, m[k]), key + ":reads:" + O[k].name, mc::cat(where, ": ", O[k].name, " is ", v, " instead of ", m[k]));
	}
	mc::state(mc::cat(where));
	return ok;
}
