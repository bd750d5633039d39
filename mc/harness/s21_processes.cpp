// S21: results do not depend on the number of processes
#include "flow.h"
#include "vtu.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/PhysicalProperties.h"
#include "natrium/benchmarks/TaylorGreenVortex2D.h"
#include "natrium/benchmarks/CouetteFlow2D.h"
#include "natrium/dataprocessors/CompressibleTurbulenceStats.h"
#include <sys/wait.h>
#include <signal.h>
#include <dlfcn.h>
using namespace fl;
#undef MPI_Barrier
#undef MPI_Bcast

// ------------------------------------------------------------------ schedules: one process arrives late
static long slow_collective = 0, slow_file = 0; // microseconds
static void late(long us) {
	if (us)
		usleep(us);
}
extern "C" int MPI_Barrier(MPI_Comm c) {
	late(slow_collective);
	return PMPI_Barrier(c);
}
extern "C" int MPI_Bcast(void* a, int n, MPI_Datatype t, int r, MPI_Comm c) {
	late(slow_collective);
	return PMPI_Bcast(a, n, t, r, c);
}
extern "C" FILE* fopen(const char* name, const char* mode) {
	static FILE* (*real)(const char*, const char*) = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
	if (mode[0] != 'r')
		late(slow_file);
	return real(name, mode);
}
extern "C" FILE* fopen64(const char* name, const char* mode) {
	static FILE* (*real)(const char*, const char*) = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
	if (mode[0] != 'r')
		late(slow_file);
	return real(name, mode);
}

struct Conf {
	std::string name;
	int dim;
	char kind; // 'i' incompressible, 'c' compressible, 't' Taylor-Green benchmark, 'k' Couette benchmark
	Spec spec;
	Setup setup;
	bool quick;
	size_t steps = 3;
	bool late = false; // every process once later than the others
	bool restart = false;
};
static std::vector<Conf> confs() {
	std::vector<Conf> r;
	auto add = [&](const std::string& n, int dim, bool quick, const Setup& s, const std::function<void(Spec&)>& sp = nullptr, char kind = 'i') -> Conf& {
		Conf c;
		c.name = n;
		c.dim = dim;
		c.quick = quick;
		c.kind = kind;
		c.setup = s;
		c.spec.level = dim == 2 ? 2 : 1;
		c.spec.visc = 0.02;
		if (sp)
		sp(c.spec);
		V L = c.spec.length;
		general(c.spec);
		r.push_back(c);
		return r.back();
	};
	auto sl = [](SolverConfiguration& c, int p = 2) {
		c.setAdvectionScheme(SEMI_LAGRANGIAN);
		c.setSedgOrderOfFiniteElement(p);
		c.setCFL(1.3);
	};
	auto dg = [](SolverConfiguration& c, int p = 2) {
		c.setAdvectionScheme(SEDG);
		c.setSedgOrderOfFiniteElement(p);
		c.setCFL(0.4);
	};
	// grids: cells = 1, 2, 3, 4, 16, 6; more processes than cells included
	for (size_t lvl = 0; lvl <= 3; lvl++) {
		add(mc::cat("2d/sl/level", lvl), 2, lvl < 3, [=](SolverConfiguration& c) {sl(c);}, [=](Spec& s) {s.level = lvl;}).restart = lvl == 2;
		add(mc::cat("2d/dg/level", lvl), 2, lvl < 3, [=](SolverConfiguration& c) {dg(c);}, [=](Spec& s) {s.level = lvl;}).restart = lvl == 2;
	}
	for (unsigned nx = 2; nx <= 3; nx++) {
		add(mc::cat("2d/sl/strip", nx), 2, nx == 3, [=](SolverConfiguration& c) {sl(c);}, [=](Spec& s) {s.level = 0; s.cells = {nx, 1, 1};});
		add(mc::cat("2d/dg/strip", nx), 2, nx == 3, [=](SolverConfiguration& c) {dg(c);}, [=](Spec& s) {s.level = 0; s.cells = {nx, 1, 1};});
	}
	add("2d/sl/tall", 2, true, [=](SolverConfiguration& c) {sl(c, 3);}, [=](Spec& s) {s.level = 1; s.cells = {1, 3, 1};});
	add("2d/dg/tall", 2, true, [=](SolverConfiguration& c) {dg(c, 3);}, [=](Spec& s) {s.level = 1; s.cells = {1, 3, 1};});
	for (int p : { 1, 3, 4 }) {
		add(mc::cat("2d/sl/p", p), 2, p == 1, [=](SolverConfiguration& c) {sl(c, p);});
		add(mc::cat("2d/dg/p", p), 2, p == 1, [=](SolverConfiguration& c) {dg(c, p);});
	}
	for (double cfl : { 0.3, 2.5, 5.0 })
		add(mc::cat("2d/sl/cfl", cfl), 2, cfl != 0.3, [=](SolverConfiguration& c) {sl(c); c.setCFL(cfl);});
	add("2d/dg/theta", 2, true, [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(THETA_METHOD); c.setThetaMethodTheta(0.5);}).late = true;
	add("2d/dg/exponential", 2, true, [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(EXPONENTIAL);});
	add("2d/dg/rk4", 2, true, [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(OTHER); c.setDealIntegrator(RK_CLASSIC_FOURTH_ORDER);});
	add("2d/dg/implicit", 2, true, [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(OTHER); c.setDealIntegrator(CRANK_NICOLSON);});
	add("2d/dg/embedded", 2, true, [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(OTHER); c.setDealIntegrator(DOPRI);});
	add("2d/dg/central", 2, false, [=](SolverConfiguration& c) {dg(c); c.setCFL(0.1); c.setSedgFluxType(CENTRAL);});
	add("2d/sl/mrt", 2, true, [=](SolverConfiguration& c) {sl(c); c.setCollisionScheme(MRT_STANDARD); c.setMRTRelaxationTimes(DELLAR_RELAX_ONLY_N);});
	add("2d/sl/regularized", 2, true, [=](SolverConfiguration& c) {sl(c); c.setCollisionScheme(BGK_REGULARIZED);});
	add("2d/sl/q25", 2, true, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D2Q25H); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);});
	add("2d/sl/q19v", 2, false, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D2Q19V); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);});
	for (int f = 0; f < 2; f++)
		add(mc::cat("2d/dg/filter", f), 2, true, [=](SolverConfiguration& c) {dg(c); c.setFiltering(true); c.setFilterInterval(2); c.setFilteringScheme(f ? NEW_FILTER : EXPONENTIAL_FILTER); c.setExponentialFilterAlpha(3);c.setExponentialFilterS(2);});
	add("2d/sl/limiter", 2, true, [=](SolverConfiguration& c) {sl(c); c.setVmultLimiter(true);});
	add("2d/sl/pem", 2, true, [=](SolverConfiguration& c) {sl(c); c.setRegularizationScheme(PSEUDO_ENTROPY_MAXIMIZATION);});
	add("2d/dg/peme", 2, true, [=](SolverConfiguration& c) {dg(c); c.setRegularizationScheme(PSEUDO_ENTROPY_MAXIMIZATION_WITH_E);});
	add("2d/sl/iterative", 2, true, [=](SolverConfiguration& c) {sl(c); c.setInitializationScheme(ITERATIVE); c.setIterativeInitializationNumberOfIterations(5);});
	add("2d/dg/iterative", 2, true, [=](SolverConfiguration& c) {dg(c); c.setInitializationScheme(ITERATIVE); c.setIterativeInitializationNumberOfIterations(5);});
	add("2d/sl/gradients", 2, true, [=](SolverConfiguration& c) {sl(c); c.setInitializationScheme(GRADIENTS);});
	add("2d/dg/gradients", 2, true, [=](SolverConfiguration& c) {dg(c); c.setInitializationScheme(GRADIENTS);});
	// walls
	for (char k : { 'n', 'b', 'e', 'd' })
		for (double cfl : { 1.3, 3.0 })
			add(mc::cat("2d/sl/walls/", k, cfl), 2, cfl < 2 || k == 'n', [=](SolverConfiguration& c) {sl(c); c.setCFL(cfl);}, [=](Spec& s) {
				s.side[2].kind = s.side[3].kind = k;
				s.side[3].u = {0.02, 0};
			});
	{
		Conf& k = add("2d/sl/box", 2, true, [=](SolverConfiguration& c) {sl(c);}, [=](Spec& s) {
		for (auto& x : s.side)
			x.kind = 'n';
		s.side[3].u = {0.02, 0};
	});
		k.late = true;
		k.restart = true;
	}
	add("2d/sl/mixed", 2, true, [=](SolverConfiguration& c) {sl(c); c.setCFL(2);}, [=](Spec& s) {
		s.side[0].kind = s.side[1].kind = 'b';
		s.side[2].kind = s.side[3].kind = 'n';
	});
	add("2d/dg/walls", 2, true, [=](SolverConfiguration& c) {dg(c);}, [=](Spec& s) {
		s.side[2].kind = s.side[3].kind = 'n';
		s.side[3].u = {0.02, 0};
	});
	for (auto t : { SHIFTING_VELOCITY, EXACT_DIFFERENCE })
		add(mc::cat("2d/sl/force", (int) t), 2, t == SHIFTING_VELOCITY, [=](SolverConfiguration& c) {sl(c); c.setForcingScheme(t);}, [](Spec& s) {
			s.force = {1e-3, -2e-3};
			s.side[2].kind = s.side[3].kind = 'n';
		});
	add("2d/sl/distorted", 2, true, [=](SolverConfiguration& c) {sl(c);}, [](Spec& s) {
		s.cells = {2, 1, 1};
		s.length = {2, 1.5, 1};
		s.level = 1;
		s.cartesian = false;
		s.map = [](const V& x) {return V {x[0], x[1] + 0.1 * x[1] * (1.5 - x[1])};};
	});
	add("2d/dg/distorted", 2, true, [=](SolverConfiguration& c) {dg(c);}, [](Spec& s) {
		s.cartesian = false;
		s.map = [](const V& x) {return V {x[0] + 0.1 * x[0] * (1 - x[0]), x[1] + 0.2 * x[1] * (1 - x[1])};};
	});
	// statistics
	add("2d/sl/turbulence", 2, true, [=](SolverConfiguration& c) {sl(c); c.setOutputTurbulenceStatistics(true); c.setWallNormalDirection(1); c.setWallNormalCoordinates( {0.25, 0.5}); c.setOutputGlobalTurbulenceStatistics(true);}).late = true;
	add("2d/dg/turbulence", 2, true, [=](SolverConfiguration& c) {dg(c); c.setOutputTurbulenceStatistics(true); c.setWallNormalDirection(0); c.setWallNormalCoordinates( {0, 0.5}); c.setOutputGlobalTurbulenceStatistics(true);}).late = true;
	add("tgv/sl", 2, true, [=](SolverConfiguration& c) {sl(c);}, nullptr, 't').late = true;
	add("tgv/dg", 2, true, [=](SolverConfiguration& c) {dg(c);}, nullptr, 't').late = true;
	add("couette/sl", 2, true, [=](SolverConfiguration& c) {sl(c);}, nullptr, 'k');
	add("couette/dg", 2, true, [=](SolverConfiguration& c) {dg(c);}, nullptr, 'k');
	// three dimensions
	for (size_t lvl = 0; lvl <= 2; lvl++) {
		add(mc::cat("3d/sl/q19/level", lvl), 3, lvl == 1, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q19);}, [=](Spec& s) {s.level = lvl;});
		add(mc::cat("3d/dg/q15/level", lvl), 3, lvl == 1, [=](SolverConfiguration& c) {dg(c, 1); c.setStencil(Stencil_D3Q15);}, [=](Spec& s) {s.level = lvl;});
	}
	add("3d/sl/q27/walls", 3, true, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q27);}, [=](Spec& s) {
		s.side[4].kind = s.side[5].kind = 'n';
		s.side[5].u = {0.02, 0.01, 0};
	});
	add("3d/sl/box", 3, false, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q19);}, [=](Spec& s) {
		for (auto& x : s.side)
			x.kind = 'b';
	});
	add("3d/sl/turbulence", 3, true, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q19); c.setOutputTurbulenceStatistics(true); c.setWallNormalDirection(2); c.setWallNormalCoordinates( {0.5}); c.setOutputGlobalTurbulenceStatistics(true);});
	// compressible
	{
		Conf& k = add("2d/sl/compressible", 2, true, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D2Q25H); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM); c.setHeatCapacityRatioGamma(1.4);}, nullptr, 'c');
		k.late = true;
		k.restart = true;
	}
	add("2d/dg/compressible", 2, true, [=](SolverConfiguration& c) {dg(c); c.setStencil(Stencil_D2Q25H); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM); c.setHeatCapacityRatioGamma(1.4);}, nullptr, 'c');
	add("3d/sl/compressible", 3, true, [=](SolverConfiguration& c) {sl(c, 1); c.setStencil(Stencil_D3Q45); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM); c.setHeatCapacityRatioGamma(1.4);}, nullptr, 'c');
	return r;
}

// ------------------------------------------------------------------ worker
struct Out {
	std::ofstream f;
	void value(const std::string& k, double v) {
		f << "V " << k << " " << v << "\n";
	}
};
template<size_t dim> void dump(Out& o, const CFDSolver<dim>& s, const CompressibleCFDSolver<dim>* c, const std::string& when) {
	auto& adv = *s.getAdvectionOperator();
	auto A = s.getAdvectionOperator();
	o.value(when + ".iteration", s.getIteration());
	o.value(when + ".time", s.getTime());
	o.value(when + ".mass", PhysicalProperties<dim>::mass(s.getDensity(), A));
	o.value(when + ".energy", PhysicalProperties<dim>::kineticEnergy(s.getVelocity(), s.getDensity(), A));
	double esq = 0;
	o.value(when + ".enstrophy", PhysicalProperties<dim>::enstrophy(s.getVelocity(), A, &esq));
	o.value(when + ".enstrophy2", esq);
	double pmin = 0;
	o.value(when + ".pmax", PhysicalProperties<dim>::maximalPressure(s.getDensity(), s.getStencil()->getSpeedOfSound(), pmin));
	o.value(when + ".pmin", pmin);
	o.value(when + ".meanx", PhysicalProperties<dim>::meanVelocityX(s.getVelocity().at(0), A));
	o.value(when + ".entropy", PhysicalProperties<dim>::entropy(s.getF(), A));
	o.value(when + ".maxu", s.getMaxVelocityNorm());
	o.value(when + ".maxdrho", s.getMaxDensityDeviationFrom(1.0));
	o.value(when + ".dofs", s.getNumberOfDoFs());
	const bool cont = adv.getFe()->dofs_per_vertex > 0;
	const auto& dh = *adv.getDoFHandler();
	const auto& points = s.getSupportPoints();
	const size_t Q = s.getStencil()->getQ();
	std::vector<dealii::types::global_dof_index> dofs(adv.getFe()->dofs_per_cell);
	size_t cells = 0;
	for (auto cell = dh.begin_active(); cell != dh.end(); ++cell) {
		if (!cell->is_locally_owned())
			continue;
		cells++;
		cell->get_dof_indices(dofs);
		for (size_t k = 0; k < dofs.size(); k++) {
			const size_t d = dofs[k];
			if (!adv.getLocallyOwnedDofs().is_element(d))
				continue;
			o.f << "N " << when;
			for (size_t a = 0; a < dim; a++)
				o.f << " " << std::lround(points.at(d)[a] * 1e6);
			for (size_t a = 0; a < dim; a++)
				o.f << " " << (cont ? 0 : std::lround(cell->center()[a] * 1e6));
			o.f << " |";
			o.f << " " << s.getDensity()(d);
			for (size_t a = 0; a < dim; a++)
				o.f << " " << s.getVelocity().at(a)(d);
			for (size_t q = 0; q < Q; q++)
				o.f << " " << s.getF().at(q)(d);
			if (c) {
				o.f << " " << c->getTemperature()(d);
				for (size_t q = 0; q < Q; q++)
					o.f << " " << c->getG().at(q)(d);
			}
			o.f << "\n";
		}
	}
	o.f << "C " << when << " " << cells << "\n";
}
template<size_t dim> class Dumper: public DataProcessor<dim> {
public:
	Out& o;
	const CompressibleCFDSolver<dim>* c;
	Dumper(CFDSolver<dim>& s, const CompressibleCFDSolver<dim>* cc, Out& out) :
			DataProcessor<dim>(s), o(out), c(cc) {
	}
	virtual void apply() {
		dump<dim>(o, this->m_solver, c, mc::cat("i", this->m_solver.getIteration()));
	}
};
template<size_t dim> void simulate(const Conf& c, Out& o, const std::string& dir, size_t steps, size_t checkpoint, size_t restart) {
	auto cfg = config(c.setup);
	cfg->setSwitchOutputOff(false);
	cfg->setOutputDirectory(dir);
	cfg->setNumberOfTimeSteps(steps);
	cfg->setOutputTableInterval(1);
	cfg->setOutputCheckpointInterval(checkpoint);
	cfg->setRestartAtIteration(restart);
	auto go = [&](CFDSolver<dim>& s, const CompressibleCFDSolver<dim>* comp) {
		dump<dim>(o, s, comp, "start");
		s.appendDataProcessor(boost::make_shared<Dumper<dim> >(s, comp, o));
	};
	if (c.kind == 'c') {
		CompressibleCFDSolver<dim> s(cfg, boost::make_shared<Flow<dim> >(c.spec));
		go(s, &s);
		s.run();
	} else if (c.kind == 'i') {
		CFDSolver<dim> s(cfg, boost::make_shared<Flow<dim> >(c.spec));
		go(s, nullptr);
		s.run();
	}
}
static void benchmark(const Conf& c, Out& o, const std::string& dir, size_t steps) {
	auto cfg = config(c.setup);
	cfg->setSwitchOutputOff(false);
	cfg->setOutputDirectory(dir);
	cfg->setNumberOfTimeSteps(steps);
	cfg->setOutputTableInterval(1);
	boost::shared_ptr<Benchmark<2> > b;
	if (c.kind == 't')
		b = boost::make_shared<TaylorGreenVortex2D>(0.1, 2, 5.0, true);
	if (c.kind == 't')
		cfg->setStencilScaling(5.0 * std::sqrt(3));
	else
		b = boost::make_shared<CouetteFlow2D>(0.1, 0.1, 2, 1.0, 1.0);
	BenchmarkCFDSolver<2> s(cfg, b);
	dump<2>(o, s, nullptr, "start");
	s.appendDataProcessor(boost::make_shared<Dumper<2> >(s, nullptr, o));
	s.run();
	auto e = s.getErrorStats();
	e->update();
	o.value("error.maxu", e->getMaxVelocityError());
	o.value("error.maxrho", e->getMaxDensityError());
	o.value("error.l2u", e->getL2VelocityError());
	o.value("error.l2rho", e->getL2DensityError());
	o.value("error.maxana", e->getMaxUAnalytic());
}
/// worker <configuration> <file> <directory> <steps> <checkpoint interval> <restart> <slow process or -1>
static int worker(char** a) {
	MPIGuard::getInstance();
	const auto cs = confs();
	const Conf* c = nullptr;
	for (auto& x : cs)
		if (x.name == a[0])
			c = &x;
	int rank;
	MPI_Comm_rank(MPI_COMM_WORLD, &rank);
	Out o;
	o.f.open(mc::cat(a[1], ".", rank));
	o.f.precision(17);
	if (atoi(a[6]) == rank) {
		slow_collective = 300;
		slow_file = 150000;
	}
	const size_t steps = atoi(a[3]), cp = atoi(a[4]), re = atoi(a[5]);
	try {
		if (c->kind == 't' || c->kind == 'k')
			benchmark(*c, o, a[2], steps);
		else if (c->dim == 2)
			simulate<2>(*c, o, a[2], steps, cp, re);
		else
			simulate<3>(*c, o, a[2], steps, cp, re);
		o.f << "END\n";
		o.f.close();
	} catch (std::exception& e) {
		std::string w = e.what();
		for (char& ch : w)
			if (ch == '\n')
				ch = ' ';
		o.f << "X " << w << "\n";
		o.f.close();
		MPI_Abort(MPI_COMM_WORLD, 7);
	}
	MPI_Barrier(MPI_COMM_WORLD);
	_exit(MPI_Finalize());
}

// ------------------------------------------------------------------ parent
struct Result {
	bool ok = false;
	std::string error;
	std::map<std::string, std::vector<double>> values;  // per rank
	std::map<std::string, V> nodes;
	std::map<std::string, std::vector<long>> cells;
	std::map<std::string, V> tables;                     // numbers of every table
	long repeated = 0;
	std::map<std::string, V> solution;                   // values in the solution files by iteration, patch and point
	std::string files;                                   // what is wrong with them
};
static Result execute(const Conf& c, int np, const std::string& dir, const std::string& tag, size_t steps, size_t checkpoint, size_t restart, int slow = -1) {
	Result r;
	char exe[4096] = "";
	if (readlink("/proc/self/exe", exe, sizeof(exe) - 1) < 0)
		exe[0] = 0;
	const std::string file = dir + "/" + tag;
	const std::string out = checkpoint || restart ? dir + "/run" : dir + "/" + tag + ".d";
	boost::filesystem::create_directories(out);
	std::vector<std::string> args;
	if (np > 1)
		args = {"mpirun", "-np", std::to_string(np), "--oversubscribe", "--bind-to", "none"};
	for (auto& s : std::vector<std::string> { exe, "--worker", c.name, file, out, std::to_string(steps), std::to_string(checkpoint ? checkpoint : 1000000), std::to_string(restart), std::to_string(slow) })
		args.push_back(s);
	std::cout.flush();
	std::cerr.flush();
	pid_t child = fork();
	if (child == 0) {
		setpgid(0, 0);
		if (np > 1)
			unsetenv("OMPI_MCA_ess_singleton_isolated");
		setenv("OMPI_MCA_mpi_yield_when_idle", "1", 1);
		int fd = open((file + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(fd, 1);
		dup2(fd, 2);
		if (chdir(dir.c_str()))
			_exit(9);
		std::vector<char*> v;
		for (auto& s : args)
			v.push_back(const_cast<char*>(s.c_str()));
		v.push_back(nullptr);
		execvp(v[0], v.data());
		_exit(8);
	}
	int st = -1;
	bool late = false;
	for (int k = 0;; k++) {
		pid_t w = waitpid(child, &st, WNOHANG);
		if (w == child)
			break;
		if (k > 6000) { // one minute
			kill(-child, SIGTERM);
			usleep(500000);
			kill(-child, SIGKILL);
			waitpid(child, &st, 0);
			late = true;
			break;
		}
		usleep(10000);
	}
	mc::transition();
	for (int rank = 0; rank < np; rank++) {
		std::ifstream f(mc::cat(file, ".", rank));
		std::string line;
		bool end = false;
		while (std::getline(f, line)) {
			std::istringstream s(line);
			std::string t;
			s >> t;
			if (t == "V") {
				std::string k;
				double v;
				s >> k >> t;
				v = strtod(t.c_str(), nullptr);
				r.values[k].push_back(v);
			} else if (t == "N") {
				size_t bar = line.find('|');
				std::string key = line.substr(2, bar - 3);
				V v;
				std::istringstream q(line.substr(bar + 1));
				while (q >> t)
					v.push_back(strtod(t.c_str(), nullptr));
				auto it = r.nodes.find(key);
				if (it == r.nodes.end())
					r.nodes[key] = v;
				else if (it->second != v)
					r.repeated++;
			} else if (t == "C") {
				std::string k;
				long n;
				s >> k >> n;
				r.cells[k].push_back(n);
			} else if (t == "X")
				r.error += mc::cat("process ", rank, ": ", line.substr(2), "; ");
			else if (t == "END")
				end = true;
		}
		if (!end && r.error.empty())
			r.error = mc::cat(late ? "hangs" : "does not finish", " (status ", st, ")");
	}
	if (r.error.empty() && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
		r.error = mc::cat("status ", st);
	r.ok = r.error.empty();
	for (auto& e : boost::filesystem::directory_iterator(out)) {
		const std::string n = e.path().filename().string();
		if (e.path().extension() == ".vtu") {
			const int rank = atoi(n.c_str() + 2);
			const std::string it = n.substr(n.find('.') + 1, n.rfind('.') - n.find('.') - 1);
			const vtu::Piece p = vtu::read(e.path().string());
			if (!p.error.empty() || rank >= np)
				r.files = n + ": " + p.error;
			else if (p.points) {
				const V& X = p.data.at("");
				// the points of a patch are consecutive, the small cells say how many they are
				const size_t nv = c.dim == 2 ? 4 : 8;
				size_t per = 1;
				while (true) { // lattice of n+1 points and n cells per axis
					size_t a = 1, b = 1;
					for (int d = 0; d < c.dim; d++) {
						a *= per;
						b *= per + 1;
					}
					if (p.points * a == p.cells * b || per > 50) {
						per = b;
						break;
					}
					per++;
				}
				(void) nv;
				for (size_t g = 0; g + per <= p.points; g += per) {
					double m[3] = { 0, 0, 0 };
					for (size_t k = g; k < g + per; k++)
						for (int d = 0; d < 3; d++)
							m[d] += X[3 * k + d] / per;
					for (size_t k = g; k < g + per; k++) {
						std::string key = it;
						for (double* y : { m, m + 1, m + 2 })
							key += mc::cat(" ", std::lround(*y * 1e4));
						for (int d = 0; d < 3; d++)
							key += mc::cat(" ", std::lround(X[3 * k + d] * 1e4));
						V v;
						for (auto& col : p.data)
							if (col.first != "" && col.first != "subdomain")
								v.push_back(col.second.at(k));
						if (!p.data.count("subdomain") || p.data.at("subdomain").at(k) != rank)
							r.files = n + ": subdomain";
						if (!r.solution.insert( { key, v }).second)
							r.files = n + ": a patch of another piece";
					}
				}
			}
			continue;
		}
		if (e.path().extension() == ".pvtu") {
			const vtu::Master m = vtu::master(e.path().string());
			const std::string it = n.substr(n.find('.') + 1, n.rfind('.') - n.find('.') - 1);
			std::vector<std::string> want;
			for (int rank = 0; rank < np; rank++) {
				want.push_back(mc::cat("t_", rank, ".", it, ".vtu"));
				if (!boost::filesystem::exists(out + "/" + want.back()))
					r.files = n + ": piece is missing";
			}
			if (!m.complete || m.pieces != want)
				r.files = n + ": names other pieces";
			continue;
		}
		if (e.path().extension() != ".txt")
			continue;
		std::ifstream f(e.path().string());
		std::string line, t;
		V& v = r.tables[n];
		while (std::getline(f, line)) {
			if (line.empty())
				continue;
			if (line[0] == '#') { // some head lines name the directory
				if (line.find('/') == std::string::npos)
				v.push_back(double(std::hash<std::string>()(line) % 1000000));
				continue;
			}
			std::istringstream s(line);
			while (s >> t) {
				char* end;
				double x = strtod(t.c_str(), &end);
				v.push_back(*end ? -12345 : x);
			}
			v.push_back(-54321); // end of the line
		}
	}
	return r;
}
static bool agree(double a, double b, double tol) {
	return std::fabs(a - b) <= tol * (1 + std::fabs(a)) || (std::isnan(a) && std::isnan(b)) || a == b;
}
static void compare(const Conf& c, const Result& one, const Result& many, int np, const std::string& what, bool tables = true) {
	mc::trace();
	const std::string key = c.name.substr(0, 5) + what;
	const double tol = 1e-11;
	if (!mc::check(many.ok, key + "/runs", mc::cat(c.name, what, " on ", np, " processes: ", many.error)))
		return;
	mc::check(many.repeated == 0, key + "/owners", mc::cat(c.name, " on ", np, " processes: ", many.repeated, " nodes have different values on different processes"));
	bool same = one.nodes.size() == many.nodes.size();
	double worst = 0;
	if (same)
		for (auto a = one.nodes.begin(), b = many.nodes.begin(); same && a != one.nodes.end(); ++a, ++b) {
			same = a->first == b->first && a->second.size() == b->second.size();
			for (size_t k = 0; same && k < a->second.size(); k++) {
				double e = std::fabs(a->second[k] - b->second[k]);
				if (!(e <= worst))
					worst = std::isnan(e) ? 1e300 : e;
			}
		}
	mc::check(same, key + "/nodes", mc::cat(c.name, what, " on ", np, " processes: ", many.nodes.size(), " nodes instead of ", one.nodes.size()));
	mc::check(worst <= tol, key + "/fields", mc::cat(c.name, what, " on ", np, " processes: fields differ by ", worst));
	for (auto& v : one.values) {
		auto it = many.values.find(v.first);
		if (!mc::check(it != many.values.end() && it->second.size() == size_t(np), key + "/values", c.name + " " + v.first))
			continue;
		for (double x : it->second)
			mc::check(agree(v.second[0], x, tol), key + "/" + v.first.substr(v.first.find('.') + 1), mc::cat(c.name, what, " on ", np, " processes: ", v.first, " is ", x, " instead of ", v.second[0]));
	}
	if (tables) {
		mc::check(many.files.empty() && one.files.empty(), key + "/pieces", mc::cat(c.name, what, " on ", np, " processes: ", many.files, one.files));
		bool alike = one.solution.size() == many.solution.size();
		double off = 0;
		for (auto a = one.solution.begin(), b = many.solution.begin(); alike && a != one.solution.end(); ++a, ++b) {
			alike = a->first == b->first && a->second.size() == b->second.size();
			for (size_t k = 0; alike && k < a->second.size(); k++)
				off = std::max(off, std::fabs(a->second[k] - b->second[k]));
		}
		mc::check(alike && one.solution.size() > 0, key + "/solution-points", mc::cat(c.name, what, " on ", np, " processes: ", many.solution.size(), " points in the solution files instead of ", one.solution.size()));
		mc::check(off < 1e-5, key + "/solution", mc::cat(c.name, what, " on ", np, " processes: the solution files differ by ", off));
	}
	for (auto& v : one.cells) {
		long sum = 0;
		for (long n : many.cells.count(v.first) ? many.cells.at(v.first) : std::vector<long>())
			sum += n;
		mc::check(sum == v.second[0], key + "/cells", mc::cat(c.name, " on ", np, " processes: ", sum, " cells"));
	}
	if (tables) {
		mc::check(one.tables.size() == many.tables.size(), key + "/files", mc::cat(c.name, " on ", np, " processes: ", many.tables.size(), " tables instead of ", one.tables.size()));
		for (auto& t : one.tables) {
			auto it = many.tables.find(t.first);
			if (!mc::check(it != many.tables.end(), key + "/files", c.name + ": no " + t.first))
				continue;
			if (!mc::check(it->second.size() == t.second.size(), key + "/table/" + t.first, mc::cat(c.name, " on ", np, " processes: ", t.first, " has ", it->second.size(), " entries instead of ", t.second.size())))
				continue;
			// the printed precision is limited
			for (size_t k = 0; k < t.second.size(); k++)
				mc::check(agree(t.second[k], it->second[k], 2e-5), key + "/table/" + t.first, mc::cat(c.name, " on ", np, " processes: entry ", k, " of ", t.first, " is ", it->second[k], " instead of ", t.second[k]));
		}
	}
	V h;
	for (auto& n : many.nodes)
		h.insert(h.end(), n.second.begin(), n.second.end());
	h.push_back(np);
	mc::state(h);
	mc::outcome(mc::cat(np, " processes"));
}

int main(int argc, char** argv) {
	for (int i = 1; i < argc; i++)
		if (std::string(argv[i]) == "--worker")
			return worker(argv + i + 1);
	mc::init(argc, argv);
	const std::vector<int> counts = mc::thorough() ? std::vector<int> { 2, 3, 4, 5, 7 } : std::vector<int> { 2, 3, 4 };
	auto all = std::make_shared<std::vector<Conf> >(confs());
	for (size_t i = 0; i < all->size(); i++) {
		if (!mc::thorough() && !(*all)[i].quick)
			continue;
		mc::run_case("run/" + (*all)[i].name, [=]() {
			const Conf& c = (*all)[i];
			const std::string dir = fresh("run");
			Result one = execute(c, 1, dir, "p1", c.steps, 0, 0);
			if (mc::check(one.ok, "serial", c.name + ": " + one.error))
				for (int np : counts)
					compare(c, one, execute(c, np, dir, mc::cat("p", np), c.steps, 0, 0), np, "");
			boost::filesystem::remove_all(dir);
		});
		if ((*all)[i].late)
			for (int np : mc::thorough() ? std::vector<int> { 2, 3, 5 } : std::vector<int> { 2, 3 })
				mc::run_case(mc::cat("late/", (*all)[i].name, "/", np), [=]() {
					const Conf& c = (*all)[i];
					const std::string dir = fresh("run");
					Result one = execute(c, 1, dir, "p1", c.steps, 0, 0);
					if (mc::check(one.ok, "serial", c.name + ": " + one.error))
						for (int slow = 0; slow < np; slow++)
							compare(c, one, execute(c, np, dir, mc::cat("p", np, "slow", slow), c.steps, 0, 0, slow), np, "/late");
					boost::filesystem::remove_all(dir);
				});
		if ((*all)[i].restart)
			for (int from : mc::thorough() ? std::vector<int> { 1, 2, 3, 4, 5 } : std::vector<int> { 1, 2, 4 })
				mc::run_case(mc::cat("restart/", (*all)[i].name, "/from", from), [=]() {
					const Conf& c = (*all)[i];
					const std::string dir = fresh("run");
					Result ref = execute(c, 1, dir, "ref", 4, 0, 0);
					Result w = execute(c, from, dir, "write", 2, 2, 0);
					mc::check(w.ok, "restart/write", c.name + ": " + w.error);
					for (int to : counts) {
						Result r = execute(c, to, dir, mc::cat("to", to), 4, 0, 2);
						// the steps after the restart only
						Result x = ref;
						for (auto* y : {&x, &r}) {
							for (auto it = y->nodes.begin(); it != y->nodes.end();)
								it = it->first.substr(0, 3) == "i3 " || it->first.substr(0, 3) == "i4 " ? std::next(it) : y->nodes.erase(it);
							for (auto it = y->values.begin(); it != y->values.end();)
								it = it->first.substr(0, 3) == "i3." || it->first.substr(0, 3) == "i4." ? std::next(it) : y->values.erase(it);
							y->cells.clear();
						}
						mc::check(!x.nodes.empty(), "restart/nodes", c.name);
						compare(c, x, r, to, mc::cat("/restart"), false);
					}
					boost::filesystem::remove_all(dir);
				});
	}
	mc::finish();
}
