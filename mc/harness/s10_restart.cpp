// S10: every way to cut a run of N steps into restarted pieces gives the states of the uninterrupted run
#include "flow.h"
using namespace fl;

struct Conf {
	std::string name;
	int dim;
	Spec spec;
	Setup setup;
	bool quick;
	bool can_scale = false;
};
static std::vector<Conf> confs() {
	std::vector<Conf> r;
	auto add = [&](const std::string& n, int dim, bool quick, const Setup& s, const std::function<void(Spec&)>& sp = nullptr) {
		Conf c;
		c.name = n;
		c.dim = dim;
		c.quick = quick;
		c.setup = s;
		c.spec.level = dim == 2 ? 2 : 1;
		c.spec.visc = 0.02;
		general(c.spec);
		if (sp)
			sp(c.spec);
		r.push_back(c);
	};
	auto sl = [](SolverConfiguration& c, int p = 2) {
		c.setAdvectionScheme(SEMI_LAGRANGIAN);
		c.setSedgOrderOfFiniteElement(p);
		c.setCFL(1.3);
	};
	auto dg = [](SolverConfiguration& c, int p = 2) {
		c.setAdvectionScheme(SEDG);
		c.setSedgOrderOfFiniteElement(p);
		c.setCFL(0.4);
	};
	add("2d/sl", 2, true, [=](SolverConfiguration& c) {sl(c); c.setSupportPoints(GAUSS_LOBATTO_CHEBYSHEV_POINTS);});
	add("2d/sl/p3/equidistant", 2, false, [=](SolverConfiguration& c) {sl(c,3); c.setSupportPoints(EQUIDISTANT_POINTS);});
	add("2d/sl/scaled", 2, true, [=](SolverConfiguration& c) {sl(c); c.setStencilScaling(1. / 3);});
	add("2d/dg/rk5", 2, true, [=](SolverConfiguration& c) {dg(c);});
	add("2d/dg/p3/scaled", 2, false, [=](SolverConfiguration& c) {dg(c,3); c.setStencilScaling(7. / 3);});
	add("2d/dg/theta", 2, true, [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(THETA_METHOD); c.setThetaMethodTheta(0.5);});
	add("2d/dg/exponential", 2, true, [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(EXPONENTIAL);});
	add("2d/dg/rk4", 2, false, [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(OTHER); c.setDealIntegrator(RK_CLASSIC_FOURTH_ORDER);});
	add("2d/dg/central", 2, false, [=](SolverConfiguration& c) {dg(c); c.setCFL(0.1); c.setSedgFluxType(CENTRAL);});
	add("2d/sl/mrt", 2, true, [=](SolverConfiguration& c) {sl(c); c.setCollisionScheme(MRT_STANDARD); c.setMRTRelaxationTimes(DELLAR_RELAX_ONLY_N);});
	add("2d/sl/regularized", 2, false, [=](SolverConfiguration& c) {sl(c); c.setCollisionScheme(BGK_REGULARIZED);});
	add("2d/sl/quartic", 2, false, [=](SolverConfiguration& c) {sl(c); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);});
	add("2d/sl/q25", 2, true, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D2Q25H); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);});
	add("2d/sl/q19h", 2, false, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D2Q19H); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);});
	add("2d/sl/q19v", 2, true, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D2Q19V); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);});
	add("2d/dg/filter2", 2, true, [=](SolverConfiguration& c) {dg(c); c.setFiltering(true); c.setFilterInterval(2); c.setExponentialFilterAlpha(3);c.setExponentialFilterS(2);});
	add("2d/dg/filter3/new", 2, false, [=](SolverConfiguration& c) {dg(c); c.setFiltering(true); c.setFilterInterval(3); c.setFilteringScheme(NEW_FILTER); c.setExponentialFilterAlpha(3);c.setExponentialFilterS(2);});
	add("2d/sl/pem", 2, false, [=](SolverConfiguration& c) {sl(c); c.setRegularizationScheme(PSEUDO_ENTROPY_MAXIMIZATION);});
	add("2d/sl/iterative", 2, false, [=](SolverConfiguration& c) {sl(c); c.setInitializationScheme(ITERATIVE); c.setIterativeInitializationNumberOfIterations(5);});
	for (auto t : { SHIFTING_VELOCITY, EXACT_DIFFERENCE })
		add(mc::cat("2d/sl/walls/force", (int) t), 2, t == SHIFTING_VELOCITY, [=](SolverConfiguration& c) {sl(c); c.setForcingScheme(t);}, [](Spec& s) {
			s.force = {1e-3, -2e-3};
			s.side[2].kind = s.side[3].kind = 'n';
			s.side[3].u = {0.02, 0};
		});
	add("2d/dg/walls/force", 2, false, [=](SolverConfiguration& c) {dg(c); c.setForcingScheme(SHIFTING_VELOCITY);}, [](Spec& s) {
		s.force = {1e-3, 2e-3};
		s.side[2].kind = s.side[3].kind = 'n';
		s.side[3].u = {0.02, 0};
	});
	add("2d/sl/stretched", 2, true, [=](SolverConfiguration& c) {sl(c);}, [](Spec& s) {
		s.cells = {2, 1, 1};
		s.length = {2, 1.5, 1};
		s.level = 1;
		s.cartesian = false;
		s.map = [](const V& x) {return V {x[0], x[1] + 0.1 * x[1] * (1.5 - x[1])};};
		general(s);
	});
	add("2d/dg/distorted", 2, false, [=](SolverConfiguration& c) {dg(c);}, [](Spec& s) {
		s.cartesian = false;
		s.map = [](const V& x) {return V {x[0] + 0.1 * x[0] * (1 - x[0]), x[1] + 0.2 * x[1] * (1 - x[1])};};
	});
	add("3d/sl/q19", 3, true, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q19);});
	add("3d/sl/q15", 3, false, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q15);});
	add("3d/sl/q27", 3, false, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q27);});
	add("3d/sl/v27", 3, false, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3V27);});
	add("3d/sl/q13", 3, false, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q13);});
	add("3d/sl/q21", 3, false, [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q21);});
	add("3d/sl/q77", 3, false, [=](SolverConfiguration& c) {sl(c,1); c.setStencil(Stencil_D3Q77); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);});
	add("3d/dg/q19", 3, true, [=](SolverConfiguration& c) {dg(c, 1); c.setStencil(Stencil_D3Q19);});
	add("3d/dg/q19/mrt", 3, false, [=](SolverConfiguration& c) {dg(c, 1); c.setStencil(Stencil_D3Q19); c.setCollisionScheme(MRT_STANDARD); c.setMRTBasis(DHUMIERES_D3Q19);});
	add("3d/dg/q15", 3, false, [=](SolverConfiguration& c) {dg(c, 1); c.setStencil(Stencil_D3Q15);});
	return r;
}
static const double TOL = 1e-13;

template<size_t dim> struct Run {
	boost::shared_ptr<SolverConfiguration> cfg;
	boost::shared_ptr<Flow<dim> > problem;
	std::unique_ptr<CFDSolver<dim> > s;
	boost::shared_ptr<Recorder<dim> > rec;
	Run(const Conf& c, const std::string& dir, size_t steps, size_t interval, size_t restart, int level = 0, double scaling = 0) {
		Spec sp = c.spec;
		sp.level += level;
		problem = boost::make_shared<Flow<dim> >(sp);
		cfg = config(c.setup);
		cfg->setSwitchOutputOff(false);
		cfg->setOutputDirectory(dir);
		cfg->setNumberOfTimeSteps(steps);
		cfg->setOutputCheckpointInterval(interval);
		cfg->setRestartAtIteration(restart);
		if (scaling)
			cfg->setStencilScaling(cfg->getStencilScaling() * scaling);
		s.reset(new CFDSolver<dim>(cfg, problem));
		rec = boost::make_shared<Recorder<dim> >(*s);
		s->appendDataProcessor(rec);
	}
	void run() {
		s->run();
	}
};
static bool same(const Snapshot& a, const Snapshot& ref, const std::string& key, const std::string& where, bool fields = true) {
	bool ok = mc::check(a.i == ref.i, key + ":iteration", mc::cat(where, ": iteration ", a.i, " instead of ", ref.i));
	ok &= mc::check(std::fabs(a.t - ref.t) <= 1e-14 * std::fabs(ref.t), key + ":time", mc::cat(where, ", iteration ", ref.i, ": time ", a.t, " instead of ", ref.t));
	const double d = a.distance(ref, true, false);
	ok &= mc::check(d <= TOL, key + ":populations", mc::cat(where, ", iteration ", ref.i, ": populations differ by ", d));
	if (fields) {
		const double e = a.distance(ref, false, true);
		ok &= mc::check(e <= TOL, key + ":fields", mc::cat(where, ", iteration ", ref.i, ": density or velocity differ by ", e));
	}
	a.hash();
	return ok;
}
template<size_t dim> static std::map<size_t, Snapshot> reference(const Conf& c, size_t N) {
	const std::string dir = fresh("ref");
	Run<dim> r(c, dir, N, 1000000000, 0);
	r.run();
	boost::filesystem::remove_all(dir);
	return r.rec->seen;
}
template<size_t dim> static void chains(const Conf& c, size_t N) {
	auto ref = reference<dim>(c, N);
	mc::check(ref.size() == N, "steps", mc::cat(c.name, ": ", ref.size(), " steps instead of ", N));
	const bool forced = c.spec.force.size(); // fields of a forced flow contain half a force step, which is not part of the checkpoint
	// (1) one run that writes a checkpoint after every step; restart from each of them
	{
		const std::string dir = fresh("every");
		Run<dim> r(c, dir, N, 1, 0);
		r.run();
		for (size_t i = 1; i <= N; i++)
			same(r.rec->seen[i], ref[i], "writing", c.name + " with checkpoints");
		for (size_t k = N - 1; k >= 2; k--) {
			const std::string where = mc::cat(c.name, " restarted at ", k, " of ", N);
			// not to be continued: nothing is written on the way
			Run<dim> q(c, dir, N, 1000000000, k);
			same(snapshot<dim>(*q.s), ref[k], "loaded", where, !forced);
			q.run();
			for (size_t i = k + 1; i <= N; i++)
				same(q.rec->seen[i], ref[i], "restart", where);
			mc::check(q.rec->order.size() == N - k, "restart:steps", mc::cat(where, ": ", q.rec->order.size(), " steps"));
			mc::trace();
			mc::outcome(mc::cat(k == N - 1 ? "last" : "earlier", " checkpoint"));
		}
		boost::filesystem::remove_all(dir);
	}
	// (2) all ways to cut the run: each piece resumes from the end of the piece before
	for (size_t cut = 1; cut < (1u << (N - 1)); cut++) {
		const std::string dir = fresh("cut");
		std::vector<size_t> ends;
		for (size_t k = 1; k < N; k++)
			if (cut & (1u << (k - 1)))
				ends.push_back(k);
		if (!mc::thorough() && ends.size() > 2)
			continue;
		ends.push_back(N);
		size_t start = 0;
		std::string where = c.name + " cut at";
		for (size_t e : ends)
			where += mc::cat(" ", e);
		for (size_t j = 0; j < ends.size(); j++) {
			// by number or as the latest one
			const size_t at = start == 0 ? 0 : ((j + cut) % 2 ? 1 : start);
			Run<dim> q(c, dir, ends[j], 1000000, at);
			if (start)
				same(snapshot<dim>(*q.s), ref[start], "chain:loaded", where, !forced);
			q.run();
			for (size_t i = start + 1; i <= ends[j]; i++)
				same(q.rec->seen[i], ref[i], "chain", where);
			start = ends[j];
		}
		mc::trace();
		mc::outcome(mc::cat(ends.size(), " pieces"));
		boost::filesystem::remove_all(dir);
	}
}
/// restart on a finer grid: the same function on the finer grid
template<size_t dim> static void refined(const Conf& c) {
	const std::string dir = fresh("fine");
	Run<dim> r(c, dir, 2, 1, 0);
	r.run();
	Snapshot a = r.rec->seen[2];
	for (int up = 1; up <= (dim == 2 ? 2 : 1); up++) {
		Run<dim> q(c, dir, 3, 1000000000, 2, up);
		Snapshot b = snapshot<dim>(*q.s);
		mc::check(b.i == 2 && std::fabs(b.t - a.t) <= 1e-14 * a.t, "refined:time", c.name);
		// evaluate the coarse function
		const auto& adv = *r.s->getAdvectionOperator();
		const auto& dh = *adv.getDoFHandler();
		const size_t Q = r.s->getStencil()->getQ();
		std::vector<dealii::types::global_dof_index> dofs(adv.getFe()->dofs_per_cell);
		double worst = 0;
		size_t count = 0;
		for (auto& n : b.n) {
			for (auto cell = dh.begin_active(); cell != dh.end(); ++cell) {
				// the fine cell lies in this one
				bool in = true;
				dealii::Point<dim> unit;
				for (size_t d = 0; d < dim; d++) {
					const double lo = cell->vertex(0)[d], hi = cell->vertex((1 << dim) - 1)[d], mid = n.first[d] * 1e-6;
					in &= mid > lo && mid < hi;
					unit[d] = (n.second.x[d] - lo) / (hi - lo);
				}
				if (!in)
					continue;
				cell->get_dof_indices(dofs);
				count++;
				for (size_t k = 0; k < Q; k++) {
					double v = 0;
					for (size_t j = 0; j < dofs.size(); j++)
						v += adv.getFe()->shape_value(j, unit) * a.n.begin()->second.f.size() * 0 + adv.getFe()->shape_value(j, unit) * r.s->getF().at(k)(dofs[j]);
					worst = std::max(worst, std::fabs(v - n.second.f[k]));
				}
				break;
			}
		}
		mc::check(count == b.n.size(), "refined:nodes", mc::cat(c.name, ": ", count, " of ", b.n.size(), " nodes"));
		mc::check(worst <= 1e-12, "refined:populations", mc::cat(c.name, " on a grid refined ", up, " times: populations differ by ", worst));
		b.hash();
		mc::trace();
		mc::outcome("refined");
	}
	boost::filesystem::remove_all(dir);
}
/// restart with another scaling: the same density and velocity, or a refusal
template<size_t dim> static void scaled(const Conf& c) {
	const std::string dir = fresh("scale");
	Run<dim> r(c, dir, 2, 1, 0);
	r.run();
	Snapshot a = r.rec->seen[2];
	for (double s : { 0.5, 3., 1.0 / 3 }) {
		try {
			Run<dim> q(c, dir, 3, 1000000000, 2, 0, s);
			Snapshot b = snapshot<dim>(*q.s);
			b.t = a.t;
			// the velocities of a forced flow contain half a force step, which is not part of the checkpoint
			const double d = c.spec.force.size() ? 0 : b.distance(a, false, true);
			mc::check(d <= 1e-11, "scaled:fields", mc::cat(c.name, " restarted with scaling times ", s, ": density or velocity differ by ", d));
			// momentum flux
			const auto st = q.s->getStencil(), old = r.s->getStencil();
			double worst = 0;
			auto x = a.n.begin();
			for (auto& n : b.n) {
				for (size_t i = 0; i < dim; i++) {
					double m = 0, l = 0;
					for (size_t k = 0; k < st->getQ(); k++) {
						m += n.second.f[k] * st->getDirection(k)(i);
						l += x->second.f[k] * old->getDirection(k)(i);
					}
					worst = std::max(worst, std::fabs(m - l));
					for (size_t j = 0; j <= i; j++) {
						double p = 0, o = 0;
						for (size_t k = 0; k < st->getQ(); k++) {
							p += n.second.f[k] * st->getDirection(k)(i) * st->getDirection(k)(j);
							o += x->second.f[k] * old->getDirection(k)(i) * old->getDirection(k)(j);
						}
						worst = std::max(worst, std::fabs(p - o));
					}
				}
				++x;
			}
			mc::check(worst <= 1e-11, "scaled:stress", mc::cat(c.name, " restarted with scaling times ", s, ": momentum or momentum flux differs by ", worst));
			mc::outcome("other scaling");
		} catch (CheckpointException& e) {
			const auto t = r.s->getConfiguration()->getStencil();
			mc::check(t != Stencil_D2Q9 && t != Stencil_D3Q15 && t != Stencil_D3Q19 && t != Stencil_D3Q27, "scaled:refused", mc::cat(c.name, ": ", e.what()));
			mc::outcome("other scaling refused");
		}
		mc::trace();
	}
	boost::filesystem::remove_all(dir);
}
/// the latest checkpoint among others
template<size_t dim> static void latest(const Conf& c) {
	const size_t N = 12;
	auto ref = reference<dim>(c, N);
	const std::string dir = fresh("latest");
	{
		Run<dim> r(c, dir, N - 1, 1, 0);
		r.run();
	}
	const boost::filesystem::path d = boost::filesystem::path(dir) / "checkpoint";
	auto remove = [&](size_t i) {
		for (const char* e : {".stat", ".data", ".data.info", ".data_fixed.data"})
			boost::filesystem::remove(d / mc::cat("checkpoint_", i, e));
	};
	// files of other kinds must not matter
	for (const char* n : { "checkpointG_30.stat", "checkpoint_31.stat.tmp", "checkpoint_32.data", "notes.txt", "checkpoint_.stat", "checkpoint_99x.stat" })
		std::ofstream((d / n).string()) << "1\n";
	for (size_t k = N - 1; k >= 1; k--) {
		Run<dim> q(c, dir, N, 1000000000, 1);
		same(snapshot<dim>(*q.s), ref[k], "latest", mc::cat(c.name, ": latest of 1..", k), !c.spec.force.size());
		remove(k);
		mc::trace();
		mc::outcome("latest");
	}
	boost::filesystem::remove_all(dir);
	// a new run in a directory with old checkpoints
	const std::string dir2 = fresh("reuse");
	{
		Run<dim> r(c, dir2, 5, 1, 0);
		r.run();
	}
	{
		Run<dim> r(c, dir2, 2, 1, 0);
		r.run();
	}
	for (size_t k = 2; k <= 5; k++) {
		Run<dim> q(c, dir2, 6, 1000000000, k);
		same(snapshot<dim>(*q.s), ref[k], "reuse", mc::cat(c.name, ": checkpoint ", k, " after a second run in the same directory"), !c.spec.force.size());
		mc::trace();
		mc::outcome("second run");
	}
	boost::filesystem::remove_all(dir2);
}
template<size_t dim> static void both(const Conf& c) {
	mc::run_case("chains/" + c.name, [&c] {chains<dim>(c, mc::tier<size_t>(4, 6));});
	if (c.spec.cartesian && !c.spec.force.size())
		mc::run_case("refined/" + c.name, [&c] {refined<dim>(c);});
	mc::run_case("scaled/" + c.name, [&c] {scaled<dim>(c);});
	mc::run_case("latest/" + c.name, [&c] {if (mc::thorough() || dim == 2) latest<dim>(c);});
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	for (auto& c : confs()) {
		if (c.dim == 2)
			both<2>(c);
		else
			both<3>(c);
	}
	mc::finish();
}
