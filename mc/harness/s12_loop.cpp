// S12: the time loop against a model of it: number of steps, times, files, table rows, data processors, filter
#include "flow.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/benchmarks/TaylorGreenVortex2D.h"
#include "natrium/benchmarks/TaylorGreenVortex3D.h"
#include "natrium/smoothing/ExponentialFilter.h"
#include "natrium/smoothing/NewFilter.h"
using namespace fl;
namespace fs = boost::filesystem;
static const size_t BIG = 1000000000;

struct Par {
	size_t N = 4, sol = BIG, table = BIG, chk = BIG;
	double end = 1e300; // in time steps
	bool off = false, global = false, planes = false;
	std::string text() const {
		return mc::cat("N", N, " end", end > 1e200 ? -1. : end, " sol", sol, " table", table, " chk", chk, off ? " off" : "", global ? " global" : "", planes ? " planes" : "");
	}
};
struct Expect {
	size_t last = 0;
	std::set<size_t> vtu, chk;
	std::vector<size_t> rows, global, steps;
	bool grid = true;
};
/// the model
static Expect model(const Par& p, size_t start, const std::function<double(size_t)>& time, double end, size_t converged = BIG) {
	Expect e;
	size_t i = start;
	auto out = [&](bool final) {
		if (p.off)
			return;
		if ((p.sol <= 100000000 && i % p.sol == 0) || final)
			e.vtu.insert(i);
		if (i % p.table == 0)
			e.rows.push_back(i);
		if ((i % p.chk == 0 || final) && p.chk <= 100000000 && i != start)
			e.chk.insert(i);
	};
	while (i < p.N && !(time(i) >= end) && i != converged) {
		out(false);
		i++;
		e.steps.push_back(i);
		if (i % p.table == 0)
			e.global.push_back(i);
	}
	out(true);
	e.last = i;
	return e;
}
struct Seen {
	std::set<size_t> vtu, pvtu, stat, data, statG, dataG;
	std::vector<std::pair<size_t, double> > rows, errors, planes, global;
	size_t headers = 0, errors_headers = 0;
	bool grid = false;
	std::vector<std::string> other;
};
static void table(const std::string& f, std::vector<std::pair<size_t, double> >& rows, size_t* headers = nullptr) {
	std::ifstream in(f);
	std::string l;
	while (std::getline(in, l)) {
		if (l.size() && l[0] == '#') {
			if (headers)
				++*headers;
			continue;
		}
		std::stringstream s(l);
		size_t i = 999999;
		double t = -1;
		s >> i >> t;
		rows.emplace_back(i, t);
	}
}
static bool number(const std::string& name, const std::string& before, const std::string& after, size_t& n) {
	if (name.size() <= before.size() + after.size() || name.compare(0, before.size(), before) || name.compare(name.size() - after.size(), after.size(), after))
		return false;
	const std::string d = name.substr(before.size(), name.size() - before.size() - after.size());
	if (d.find_first_not_of("0123456789") != std::string::npos)
		return false;
	n = std::stoul(d);
	return true;
}
static Seen look(const std::string& dir) {
	Seen s;
	if (!fs::exists(dir))
		return s;
	for (fs::recursive_directory_iterator it(dir), e; it != e; ++it) {
		if (fs::is_directory(it->path()))
			continue;
		const std::string f = it->path().filename().string();
		size_t n;
		if (number(f, "t_0.", ".vtu", n))
			s.vtu.insert(n);
		else if (number(f, "t_0.", ".pvtu", n))
			s.pvtu.insert(n);
		else if (number(f, "checkpoint_", ".stat", n))
			s.stat.insert(n);
		else if (number(f, "checkpointG_", ".stat", n))
			s.statG.insert(n);
		else if (number(f, "checkpoint_", ".data", n))
			s.data.insert(n);
		else if (number(f, "checkpointG_", ".data", n))
			s.dataG.insert(n);
		else if (f == "grid.vtk")
			s.grid = true;
		else if (f == "results_table.txt")
			table(it->path().string(), s.rows, &s.headers);
		else if (f == "errors_table.txt")
			table(it->path().string(), s.errors, &s.errors_headers);
		else if (f == "turbulence_table.txt")
			table(it->path().string(), s.planes);
		else if (f == "global_turbulence_table.txt")
			table(it->path().string(), s.global);
		s.other.push_back(f);
	}
	return s;
}
template<class T> static std::string list(const T& t) {
	std::string s;
	for (auto x : t)
		s += mc::cat(" ", x);
	return "{" + s + " }";
}
static std::string list(const std::vector<std::pair<size_t, double> >& t) {
	std::string s;
	for (auto x : t)
		s += mc::cat(" ", x.first);
	return "{" + s + " }";
}
/// checks the rows of a table
static void rows(const std::vector<std::pair<size_t, double> >& r, const std::vector<size_t>& e, const std::function<double(size_t)>& time, const std::string& key, const std::string& where) {
	std::vector<size_t> i;
	for (auto& x : r)
		i.push_back(x.first);
	if (mc::check(i == e, key, mc::cat(where, ": rows ", list(i), " instead of ", list(e))))
		for (auto& x : r)
			mc::check(std::fabs(x.second - time(x.first)) <= 1e-5 * std::fabs(time(x.first)), key + ":time", mc::cat(where, ": row ", x.first, " has time ", x.second, " instead of ", time(x.first)));
}

struct Kind {
	std::string name;
	Setup setup;
	enum {plain, benchmark, compressible} type = plain;
	int dim = 2;
};
template<size_t dim> struct Any {
	boost::shared_ptr<CFDSolver<dim> > s;
	boost::shared_ptr<CompressibleCFDSolver<dim> > c;
	boost::shared_ptr<Recorder<dim> > first, second;
	std::vector<std::string> log;
	void run() {
		if (c)
			c->run();
		else
			s->run();
	}
};
template<size_t dim> static boost::shared_ptr<Benchmark<dim> > vortex();
template<> boost::shared_ptr<Benchmark<2> > vortex<2>() {
	return boost::make_shared<TaylorGreenVortex2D>(0.05, 2);
}
template<> boost::shared_ptr<Benchmark<3> > vortex<3>() {
	return boost::shared_ptr<Benchmark<3> >();
}
template<size_t dim> static Any<dim> make(const Kind& k, const Par& p, const std::string& dir, double dt, size_t restart = 0, const Setup& more = nullptr, bool keep = false) {
	auto cfg = config(k.setup);
	cfg->setSwitchOutputOff(p.off);
	cfg->setOutputDirectory(dir);
	cfg->setNumberOfTimeSteps(p.N);
	if (p.end < 1e200)
		cfg->setSimulationEndTime(p.end * dt);
	cfg->setOutputSolutionInterval(p.sol);
	cfg->setOutputTableInterval(p.table);
	cfg->setOutputCheckpointInterval(p.chk);
	cfg->setRestartAtIteration(restart);
	if (p.global)
		cfg->setOutputGlobalTurbulenceStatistics(true);
	if (p.planes) {
		cfg->setOutputTurbulenceStatistics(true);
		cfg->setWallNormalDirection(1);
		cfg->setWallNormalCoordinates( {0.5});
	}
	if (more)
		more(*cfg);
	Spec sp;
	sp.level = dim == 2 ? 2 : 1;
	sp.visc = 0.02;
	general(sp);
	Any<dim> a;
	if (k.type == Kind::plain)
		a.s = boost::make_shared<CFDSolver<dim> >(cfg, boost::make_shared<Flow<dim> >(sp));
	else if (k.type == Kind::benchmark)
		a.s = boost::make_shared<BenchmarkCFDSolver<dim> >(cfg, vortex<dim>());
	else {
		a.c = boost::make_shared<CompressibleCFDSolver<dim> >(cfg, boost::make_shared<Flow<dim> >(sp));
		a.s = a.c;
	}
	a.first = boost::make_shared<Recorder<dim> >(*a.s, keep);
	a.second = boost::make_shared<Recorder<dim> >(*a.s, false);
	a.s->appendDataProcessor(a.first);
	a.s->appendDataProcessor(a.second);
	return a;
}
template<size_t dim> struct Clock: public DataProcessor<dim> {
	std::map<size_t, double> t;
	Clock(CFDSolver<dim>& s) :
			DataProcessor<dim>(s) {
	}
	virtual void apply() {
		t[this->m_solver.getIteration()] = this->m_solver.getTime();
	}
};
template<size_t dim> static void judge(const Kind& k, const Par& p, Any<dim>& a, const Clock<dim>& clock, const std::string& dir, size_t start, double t0, const std::string& before = "") {
	const std::string where = mc::cat(k.name, before, " ", p.text());
	const double dt = a.s->getTimeStepSize();
	// the times are sums of time steps
	std::vector<double> t = {t0};
	for (size_t i = start + 1; i <= p.N; i++)
		t.push_back(t.back() + dt);
	auto time = [&](size_t i) {return i >= start && i - start < t.size() ? t[i - start] : -1;};
	// as the configuration has stored it (16 digits)
	const Expect e = model(p, start, time, p.end < 1e200 ? a.s->getConfiguration()->getSimulationEndTime() : 1e300);
	if (p.end < 1e200)
		mc::check_close(a.s->getConfiguration()->getSimulationEndTime(), p.end * dt, 1e-14 * p.end * dt, "end-time", where);
	mc::check(a.first->order == e.steps, "steps:" + k.name, mc::cat(where, ": data processor called at ", list(a.first->order), " instead of ", list(e.steps)));
	mc::check(a.second->order == e.steps, "steps2:" + k.name, mc::cat(where, ": second data processor called at ", list(a.second->order)));
	mc::check(a.s->getIteration() == e.last, "last:" + k.name, mc::cat(where, ": stops at ", a.s->getIteration(), " instead of ", e.last));
	mc::check_close(a.s->getTime(), time(e.last), 1e-12 * (1 + e.last) * dt, "time:" + k.name, where + ": time at the end");
	for (auto& x : clock.t)
		mc::check_close(x.second, time(x.first), 1e-12 * (1 + e.last) * dt, "times:" + k.name, mc::cat(where, ": time of iteration ", x.first));
	const Seen s = look(dir);
	if (p.off) {
		mc::check(s.other.empty(), "off:" + k.name, mc::cat(where, ": writes ", list(s.other)));
		mc::outcome("output off");
		return;
	}
	mc::check(s.vtu == e.vtu, "vtu:" + k.name, mc::cat(where, ": solutions ", list(s.vtu), " instead of ", list(e.vtu)));
	mc::check(s.pvtu == e.vtu, "pvtu:" + k.name, mc::cat(where, ": .pvtu ", list(s.pvtu), " instead of ", list(e.vtu)));
	mc::check(s.stat == e.chk && s.data == e.chk, "checkpoints:" + k.name, mc::cat(where, ": checkpoints ", list(s.stat), " instead of ", list(e.chk)));
	if (k.type == Kind::compressible)
		mc::check(s.statG == e.chk && s.dataG == e.chk, "checkpointsG:" + k.name, mc::cat(where, ": checkpoints of g ", list(s.statG), " instead of ", list(e.chk)));
	rows(s.rows, e.rows, time, "table:" + k.name, where);
	mc::check(s.headers == (start ? 0u : 1u), "header:" + k.name, mc::cat(where, ": ", s.headers, " header lines"));
	if (k.type == Kind::benchmark) {
		rows(s.errors, e.rows, time, "errors:" + k.name, where + " errors table");
		mc::check(s.errors_headers == (start ? 0u : 1u), "errors-header:" + k.name, mc::cat(where, ": ", s.errors_headers, " header lines"));
	}
	if (k.type != Kind::compressible)
		mc::check(s.grid, "grid:" + k.name, where + ": no grid.vtk");
	if (p.planes)
		rows(s.planes, e.rows, time, "planes:" + k.name, where + " turbulence table");
	if (p.global)
		rows(s.global, e.global, time, "global:" + k.name, where + " global turbulence table");
	mc::state(where);
	mc::trace();
	mc::outcome(mc::cat(e.vtu.size(), "/", e.rows.size(), "/", e.chk.size(), e.last < p.N ? " end time" : ""));
}
template<size_t dim> static double timestep(const Kind& k) {
	Par p;
	p.off = true;
	return make<dim>(k, p, mc::G().scratch, 1).s->getTimeStepSize();
}
template<size_t dim> static void once(const Kind& k, const Par& p) {
	static std::map<std::string, double> dts;
	if (!dts.count(k.name))
		dts[k.name] = timestep<dim>(k);
	const std::string dir = fresh("out");
	auto a = make<dim>(k, p, dir, dts[k.name]);
	auto c = boost::make_shared<Clock<dim> >(*a.s);
	a.s->appendDataProcessor(c);
	a.run();
	judge<dim>(k, p, a, *c, dir, 0, 0);
	fs::remove_all(dir);
}
/// a run that continues from a checkpoint: files of the second run only
template<size_t dim> static void continued(const Kind& k, size_t start, const Par& p) {
	const std::string dir = fresh("out");
	const double dt = timestep<dim>(k);
	double t0;
	{
		Par q;
		q.N = start;
		q.chk = start;
		auto a = make<dim>(k, q, dir, dt);
		a.run();
		t0 = a.s->getTime();
	}
	for (fs::directory_iterator i(dir), e; i != e; ++i)
		if (!fs::is_directory(i->path()))
			fs::remove(i->path());
	auto a = make<dim>(k, p, dir, dt, start);
	auto c = boost::make_shared<Clock<dim> >(*a.s);
	a.s->appendDataProcessor(c);
	// the first one must not be written again
	const fs::path old = fs::path(dir) / "checkpoint";
	std::vector<fs::path> was;
	for (fs::directory_iterator i(old), e; i != e; ++i)
		was.push_back(i->path());
	fs::create_directories(dir + "_old");
	for (auto& w : was)
		fs::rename(w, fs::path(dir + "_old") / w.filename());
	a.run();
	judge<dim>(k, p, a, *c, dir, start, t0, mc::cat(" continued at ", start));
	fs::remove_all(dir);
	fs::remove_all(dir + "_old");
}
/// run() is: relax; then stream, filter at multiples of the interval, relax
template<size_t dim> static void composition(const Kind& k, int filter, size_t interval, size_t N) {
	const std::string dir = fresh("out");
	Par p;
	p.off = true;
	p.N = N;
	auto with = [=](SolverConfiguration& c) {
		if (!filter)
			return;
		c.setFiltering(true);
		c.setFilterInterval(interval);
		c.setFilteringScheme(filter == 1 ? EXPONENTIAL_FILTER : NEW_FILTER);
		c.setExponentialFilterAlpha(4);
		c.setExponentialFilterS(2);
		c.setExponentialFilterNc(1);
	};
	auto a = make<dim>(k, p, dir, 1, 0, with, true);
	a.run();
	auto b = make<dim>(k, p, dir, 1);
	auto& adv = *b.s->getAdvectionOperator();
	boost::shared_ptr<Filter<dim> > f;
	if (filter == 1)
		f = boost::make_shared<ExponentialFilter<dim> >(4, 2, 1, b.s->getConfiguration()->isFilterDegreeByComponentSums(), *adv.getQuadrature(), *adv.getFe());
	if (filter == 2)
		f = boost::make_shared<NewFilter<dim> >(4, 2, *adv.getQuadrature(), *adv.getFe());
	b.s->collide();
	double effect = 0;
	for (size_t i = 1; i <= N; i++) {
		b.s->setIteration(i);
		b.s->stream();
		if (f && i % interval == 0) {
			for (size_t q = 0; q < b.s->getStencil()->getQ(); q++) {
				auto old = b.s->getF().at(q);
				f->applyFilter(*adv.getDoFHandler(), b.s->getF().at(q));
				old.add(-1, b.s->getF().at(q));
				effect = std::max(effect, old.linfty_norm());
			}
			b.s->updateGhosted();
		}
		b.s->collide();
		const Snapshot x = snapshot<dim>(*b.s);
		const double d = a.first->seen[i].distance(x);
		mc::check(d <= 1e-13, mc::cat("composition:", k.name, ":", filter), mc::cat(k.name, " filter ", filter, " every ", interval, " steps: state of iteration ", i, " differs by ", d));
		x.hash();
	}
	if (f && interval <= N)
		mc::check(effect > 1e-12, "filter-visible", mc::cat(k.name, ": the filter has no effect that could be seen"));
	mc::trace();
	mc::outcome(mc::cat("composition ", filter));
}
/// convergence: at multiples of 100, if the velocity changed by less than the threshold since the last multiple
template<size_t dim> static void convergence(const Kind& k) {
	Par p;
	p.off = true;
	p.N = 330;
	std::vector<double> res; // change between multiples of 100
	auto small = [&](SolverConfiguration& c) {k.setup(c); c.setSedgOrderOfFiniteElement(1);};
	struct Keep: public DataProcessor<dim> {
		std::map<size_t, Snapshot> s;
		Keep(CFDSolver<dim>& x) :
				DataProcessor<dim>(x) {
		}
		virtual void apply() {
			if (this->m_solver.getIteration() % 100 == 0)
				s[this->m_solver.getIteration()] = snapshot<dim>(this->m_solver);
		}
	};
	Kind kk = k;
	kk.setup = small;
	{
		auto a = make<dim>(kk, p, mc::G().scratch, 1);
		auto keep = boost::make_shared<Keep>(*a.s);
		a.s->appendDataProcessor(keep);
		// state of iteration 0: after the first relaxation density and velocity are the initial ones
		keep->s[0] = snapshot<dim>(*a.s);
		a.run();
		for (size_t j = 1; j <= 3; j++) {
			double worst = 0;
			auto x = keep->s[100 * (j - 1)].n.begin();
			for (auto& y : keep->s[100 * j].n) {
				double d = 0;
				for (size_t c = 0; c < dim; c++)
					d += std::pow(y.second.m[1 + c] - x->second.m[1 + c], 2);
				worst = std::max(worst, std::sqrt(d));
				++x;
			}
			res.push_back(worst);
		}
	}
	std::set<double> thresholds = {1e-30};
	for (double r : res)
		for (double f : {0.99, 1.01})
			thresholds.insert(r * f);
	for (double th : thresholds) {
		size_t stop = p.N;
		for (size_t j = 0; j < res.size(); j++)
			if (res[j] < th) {
				stop = 100 * (j + 1);
				break;
			}
		auto a = make<dim>(kk, p, mc::G().scratch, 1, 0, [th](SolverConfiguration& c) {c.setConvergenceThreshold(th);});
		a.run();
		mc::check(a.s->getIteration() == stop, "convergence:" + k.name, mc::cat(k.name, ": with threshold ", th, " (changes ", list(res), ") stops at ", a.s->getIteration(), " instead of ", stop));
		mc::trace();
		mc::outcome(mc::cat("stop at ", stop));
	}
}
template<size_t dim> static void all(const Kind& k) {
	const bool th = mc::thorough();
	const bool main = k.name == "sl" || th;
	std::vector<size_t> Ns = main ? std::vector<size_t> {1, 2, 3, 4, 5, 6} : std::vector<size_t> {1, 3, 6}, sols = main ? std::vector<size_t> {1, 2, 4, BIG} : std::vector<size_t> {1, 4, BIG};
	for (size_t N : Ns)
		for (size_t sol : sols)
			for (size_t tab : std::vector<size_t> {1, 3, 7})
				for (size_t chk : std::vector<size_t> {1, 2, 3, BIG}) {
					Par p;
					p.N = N;
					p.sol = sol;
					p.table = tab;
					p.chk = chk;
					mc::run_case(mc::cat("run/", k.name, "/", p.text()), [=] {once<dim>(k, p);});
				}
	for (double end : {0., 0.5, 1., 1.5, 2.5, 3., 3.5, 7.})
		for (size_t N : {2, 5}) {
			Par p;
			p.N = N;
			p.end = end;
			p.chk = 2;
			p.table = 1;
			p.sol = 3;
			mc::run_case(mc::cat("run/", k.name, "/", p.text()), [=] {once<dim>(k, p);});
		}
	for (size_t N : {1, 3})
		for (size_t chk : std::vector<size_t> {1, 3, BIG}) {
			Par p;
			p.N = N;
			p.off = true;
			p.chk = chk;
			p.sol = 1;
			p.table = 1;
			mc::run_case(mc::cat("run/", k.name, "/", p.text()), [=] {once<dim>(k, p);});
		}
	if (k.type == Kind::plain)
		for (int m = 1; m < 4; m++)
			for (size_t tab : {1, 2}) {
				Par p;
				p.N = 4;
				p.table = tab;
				p.global = m & 1;
				p.planes = m & 2;
				mc::run_case(mc::cat("run/", k.name, "/", p.text()), [=] {once<dim>(k, p);});
			}
	if (k.type != Kind::compressible)
		for (size_t start : {2, 3})
			for (size_t N : {2, 4, 6})
				for (size_t iv : {1, 2, 3}) {
					Par p;
					p.N = N;
					p.sol = iv;
					p.table = iv == 1 ? 2 : iv;
					p.chk = iv == 3 ? 2 : iv;
					mc::run_case(mc::cat("continued/", k.name, "/", start, "/", p.text()), [=] {continued<dim>(k, start, p);});
					for (double end : {2.5, 4.5}) {
						Par q = p;
						q.end = end;
						mc::run_case(mc::cat("continued/", k.name, "/", start, "/", q.text()), [=] {continued<dim>(k, start, q);});
					}
				}
	if (k.type != Kind::compressible)
		for (int f = 0; f < 3; f++)
			for (size_t iv = 1; iv <= (f ? 4 : 1); iv++)
				mc::run_case(mc::cat("composition/", k.name, "/", f, "/", iv), [=] {composition<dim>(k, f, iv, 7);});
	if (k.type == Kind::plain && dim == 2)
		mc::run_case(mc::cat("convergence/", k.name), [=] {convergence<dim>(k);});
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	auto sl = [](SolverConfiguration& c) {c.setAdvectionScheme(SEMI_LAGRANGIAN); c.setSedgOrderOfFiniteElement(2); c.setCFL(0.7);};
	auto dg = [](SolverConfiguration& c) {c.setAdvectionScheme(SEDG); c.setSedgOrderOfFiniteElement(2); c.setCFL(0.4);};
	all<2>( {"sl", sl, Kind::plain});
	all<2>( {"dg", dg, Kind::plain});
	all<2>( {"dg/theta", [=](SolverConfiguration& c) {dg(c); c.setTimeIntegrator(THETA_METHOD);}, Kind::plain});
	all<2>( {"benchmark", sl, Kind::benchmark});
	all<2>( {"compressible", [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D2Q25H); c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);}, Kind::compressible});
	all<3>( {"sl3", [=](SolverConfiguration& c) {sl(c); c.setStencil(Stencil_D3Q19); c.setSedgOrderOfFiniteElement(1);}, Kind::plain, 3});
	mc::finish();
}
