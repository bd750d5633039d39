// S28: the solution files hold the fields of their iteration
#include "flow.h"
#include "vtu.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/benchmarks/TaylorGreenVortex2D.h"
#include "natrium/benchmarks/TaylorGreenVortex3D.h"
#include "natrium/benchmarks/CouetteFlow2D.h"
#include <deal.II/fe/mapping_q1.h>
using namespace fl;
namespace fs = boost::filesystem;

/// nodal values of all columns of one output
typedef std::map<std::array<long, 4>, V> Columns;
struct Frame {
	std::vector<std::string> names;
	Columns c;
};
template<size_t dim> class Watch: public DataProcessor<dim> {
public:
	std::map<size_t, Frame> frames;
	const CompressibleCFDSolver<dim>* comp;
	boost::shared_ptr<Benchmark<dim> > bench;
	bool reynolds;
	std::map<std::array<long, 4>, V> sum;
	size_t outputs = 0;
	Watch(CFDSolver<dim>& s, const CompressibleCFDSolver<dim>* k, boost::shared_ptr<Benchmark<dim> > b, bool r) :
			DataProcessor<dim>(s), comp(k), bench(b), reynolds(r) {
	}
	void see() {
		const auto& s = this->m_solver;
		Frame f;
		f.names = {"rho"};
		if (comp)
			f.names.push_back("T");
		for (size_t a = 0; a < dim; a++)
			f.names.push_back(std::string("u") + "xyz"[a]);
		if (bench) {
			f.names.push_back("rho_analytic");
			for (size_t a = 0; a < dim; a++)
				f.names.push_back(std::string("u") + "xyz"[a] + "_analytic");
		}
		if (reynolds)
			for (size_t a = 0; a < dim; a++)
				f.names.push_back(std::string("u") + "xyz"[a] + "_average");
		outputs++;
		auto& adv = *s.getAdvectionOperator();
		const auto& dh = *adv.getDoFHandler();
		std::map<dealii::types::global_dof_index, dealii::Point<dim> > points;
		adv.mapDoFsToSupportPoints(points);
		std::vector<dealii::types::global_dof_index> dofs(adv.getFe()->dofs_per_cell);
		for (auto cell = dh.begin_active(); cell != dh.end(); ++cell) {
			cell->get_dof_indices(dofs);
			std::array<long, 4> key;
			key.fill(0);
			for (size_t a = 0; a < dim; a++)
				key[a] = std::lround(cell->center()[a] * 1e4);
			for (size_t k = 0; k < dofs.size(); k++) {
				key[3] = k;
				const size_t d = dofs[k];
				V v = { s.getDensity()(d) };
				if (comp)
					v.push_back(comp->getTemperature()(d));
				for (size_t a = 0; a < dim; a++)
					v.push_back(s.getVelocity().at(a)(d));
				if (bench) {
					const auto x = points.at(d);
					v.push_back(bench->getAnalyticRhoFunction(s.getTime())->value(x));
					for (size_t a = 0; a < dim; a++)
						v.push_back(bench->getAnalyticUFunction(s.getTime())->value(x, a));
				}
				if (reynolds) {
					V& m = sum[key];
					m.resize(dim, 0.0);
					for (size_t a = 0; a < dim; a++) {
						m[a] += s.getVelocity().at(a)(d);
						v.push_back(m[a] / outputs);
					}
				}
				f.c[key] = v;
			}
		}
		frames[s.getIteration()] = f;
	}
	virtual void apply() {
		see();
	}
};
template<size_t dim> void content(const std::string& key, const std::string& file, const std::string& where, const CFDSolver<dim>& s, const Frame& f, bool comp) {
	const vtu::Piece p = vtu::read(file);
	if (!mc::check(p.error.empty(), key + ":readable", mc::cat(where, ": ", p.error)))
		return;
	const auto& adv = *s.getAdvectionOperator();
	const auto& dh = *adv.getDoFHandler();
	const auto& fe = *adv.getFe();
	const size_t order = s.getConfiguration()->getSedgOrderOfFiniteElement(), n = order == 1 ? 1 : order + 1;
	size_t group = 1, sub = 1;
	for (size_t a = 0; a < dim; a++) {
		group *= n + 1;
		sub *= n;
	}
	const size_t cells = dh.get_triangulation().n_active_cells();
	mc::check(p.points == cells * group && p.data.at("").size() == 3 * p.points, key + ":points", mc::cat(where, ": ", p.points, " points of ", cells, " cells"));
	mc::check(p.cells == cells * sub, key + ":cells", mc::cat(where, ": ", p.cells, " cells"));
	std::set<std::string> want(f.names.begin(), f.names.end()), have(p.names.begin(), p.names.end());
	want.insert("subdomain");
	if (comp)
		want.insert("shockSensor");
	mc::check(want == have && have.size() == p.names.size(), key + ":columns", mc::cat(where, ": other columns"));
	if (want != have || p.points != cells * group)
		return;
	for (auto& d : p.data)
		mc::check(d.second.size() == p.points * (d.first == "" ? 3 : 1), key + ":length", where + ": length of " + d.first);
	// connectivity: each small cell joins neighbouring points of one patch
	auto& con = p.mesh.at("connectivity");
	const size_t nv = 1 << dim;
	bool good = con.size() == p.cells * nv;
	std::set<std::set<size_t> > small;
	for (size_t k = 0; good && k < p.cells; k++) {
		std::set<size_t> v;
		for (size_t j = 0; j < nv; j++) {
			good = good && con[k * nv + j] >= 0 && con[k * nv + j] < p.points;
			v.insert(size_t(con[k * nv + j]));
		}
		size_t g0 = *v.begin() / group;
		for (size_t x : v)
			good = good && x / group == g0;
		good = good && v.size() == nv;
		small.insert(v);
	}
	mc::check(good && small.size() == p.cells, key + ":connectivity", where + ": connectivity");
	const auto& X = p.data.at("");
	std::set<std::array<long, 3> > seen;
	auto mapping = dealii::StaticMappingQ1<dim>::mapping;
	for (size_t g = 0; g < cells; g++) {
		dealii::Point<dim> mid;
		for (size_t k = 0; k < group; k++)
			for (size_t a = 0; a < dim; a++)
				mid[a] += X[3 * (g * group + k) + a] / group;
		typename dealii::DoFHandler<dim>::active_cell_iterator cell, best;
		double dist = 1e300;
		for (cell = dh.begin_active(); cell != dh.end(); ++cell)
			if (cell->center().distance(mid) < dist) {
				dist = cell->center().distance(mid);
				best = cell;
			}
		if (!mc::check(dist < 1e-5 * best->diameter(), key + ":patch", mc::cat(where, ": patch around ", mid, " belongs to no cell")))
			return;
		std::array<long, 4> ck;
		ck.fill(0);
		for (size_t a = 0; a < dim; a++)
			ck[a] = std::lround(best->center()[a] * 1e4);
		seen.insert( { ck[0], ck[1], ck[2] });
		std::set<std::array<long, 3> > lattice;
		for (size_t k = 0; k < group; k++) {
			const size_t i = g * group + k;
			dealii::Point<dim> x, u;
			for (size_t a = 0; a < dim; a++)
				x[a] = X[3 * i + a];
			u = mapping.transform_real_to_unit_cell(best, x);
			std::array<long, 3> l = { 0, 0, 0 };
			for (size_t a = 0; a < dim; a++) {
				l[a] = std::lround(u[a] * n);
				mc::check(std::fabs(u[a] * n - l[a]) < 1e-4, key + ":lattice", mc::cat(where, ": point ", x));
				u[a] = l[a] / double(n);
			}
			lattice.insert(l);
			V v(f.names.size(), 0.0);
			for (size_t j = 0; j < fe.dofs_per_cell; j++) {
				ck[3] = j;
				const V& c = f.c.at(ck);
				const double phi = fe.shape_value(j, u);
				for (size_t m = 0; m < v.size(); m++)
					v[m] += phi * c[m];
			}
			for (size_t m = 0; m < v.size(); m++)
				mc::check(std::fabs(p.data.at(f.names[m])[i] - v[m]) <= 3e-7 * (std::fabs(v[m]) + 1e-3 ), key + ":" + f.names[m],
						mc::cat(where, ": ", f.names[m], " at ", x, " is ", p.data.at(f.names[m])[i], " in the file, ", v[m], " in the solver"));
			mc::check(p.data.at("subdomain")[i] == 0, key + ":subdomain", where + ": subdomain");
			mc::transition();
		}
		mc::check(lattice.size() == group, key + ":lattice", where + ": repeated points");
	}
	mc::check(seen.size() == cells, key + ":all-cells", mc::cat(where, ": ", seen.size(), " of ", cells, " cells"));
	V h;
	for (auto& d : p.data)
		h.insert(h.end(), d.second.begin(), d.second.end());
	mc::state(h);
}
template<size_t dim> void files(const std::string& key, const std::string& dir, const CFDSolver<dim>& s, const Watch<dim>& w, const std::set<size_t>& expected, bool comp, bool grid) {
	std::set<size_t> seen;
	for (auto& e : fs::directory_iterator(dir)) {
		const std::string n = e.path().filename().string();
		if (e.path().extension() != ".vtu")
			continue;
		const size_t i = strtoul(n.c_str() + 4, nullptr, 10);
		if (!mc::check(n == mc::cat("t_0.", i, ".vtu"), key + ":name", "file " + n))
			continue;
		seen.insert(i);
		if (!mc::check(w.frames.count(i) == 1, key + ":iteration", "file of an iteration that was not reached: " + n))
			continue;
		content<dim>(key, e.path().string(), n, s, w.frames.at(i), comp);
		const vtu::Master m = vtu::master(mc::cat(dir, "/t_0.", i, ".pvtu"));
		const vtu::Piece p = vtu::read(e.path().string());
		mc::check(m.complete, key + ":master", mc::cat("no complete .pvtu for iteration ", i));
		mc::check(m.pieces == std::vector<std::string> { n }, key + ":pieces", mc::cat(".pvtu of iteration ", i, " names other pieces"));
		mc::check(m.names == p.names, key + ":master-columns", mc::cat(".pvtu of iteration ", i, " names other columns"));
	}
	mc::check(seen == expected, key + ":set", mc::cat(seen.size(), " files instead of ", expected.size()));
	if (!grid)
		return;
	const vtu::Grid g = vtu::grid(dir + "/grid.vtk");
	mc::check(g.ok, key + ":grid", "grid.vtk cannot be read");
	const auto& mesh = s.getAdvectionOperator()->getDoFHandler()->get_triangulation();
	std::multiset<std::set<std::array<long, 3> > > a, b;
	auto point = [](double x, double y, double z) {
		return std::array<long, 3> {std::lround(x * 1e4), std::lround(y * 1e4), std::lround(z * 1e4)};
	};
	for (auto& c : g.cells) {
		if (c.size() != (1u << dim))
			continue; // faces of the boundary
		std::set<std::array<long, 3> > v;
		for (size_t k : c)
			if (k < g.points.size())
				v.insert(point(g.points[k][0], g.points[k][1], g.points[k][2]));
		a.insert(v);
	}
	for (auto c = mesh.begin_active(); c != mesh.end(); ++c) {
		std::set<std::array<long, 3> > v;
		for (size_t k = 0; k < (1u << dim); k++)
			v.insert(point(c->vertex(k)[0], c->vertex(k)[1], dim == 3 ? c->vertex(k)[dim - 1] : 0));
		b.insert(v);
	}
	mc::check(a == b, key + ":grid-cells", mc::cat("grid.vtk has ", a.size(), " cells that differ from the ", b.size(), " of the mesh"));
}
struct Par {
	size_t N, sol;
	double end = -1;
};
static std::set<size_t> expected(const Par& p, size_t start = 0) {
	std::set<size_t> r = { p.N };
	for (size_t i = start; i <= p.N; i++)
		if (i % p.sol == 0 && p.sol <= 100000000)
			r.insert(i);
	return r;
}
/// kind: i incompressible, r with Reynolds statistics, c compressible, t Taylor-Green, k Couette
template<size_t dim> void one(char kind, const Spec& spec, const Setup& setup, const Par& p, const std::string& key) {
	const std::string dir = fresh("files");
	auto cfg = config([&](SolverConfiguration& c) {
		setup(c);
		c.setSwitchOutputOff(false);
		c.setOutputDirectory(dir);
		c.setNumberOfTimeSteps(p.N);
		c.setOutputSolutionInterval(p.sol);
		if (kind == 'r') {
			c.setOutputTurbulenceStatistics(true);
			c.setWallNormalDirection(0);
			c.setWallNormalCoordinates( {0.0});
		}
	});
	auto go = [&](CFDSolver<dim>& s, const CompressibleCFDSolver<dim>* comp, boost::shared_ptr<Benchmark<dim> > b) {
		auto w = boost::make_shared<Watch<dim> >(s, comp, b, kind == 'r');
		s.appendDataProcessor(w);
		return w;
	};
	auto done = [&](CFDSolver<dim>& s, boost::shared_ptr<Watch<dim> > w) {
		files<dim>(key, dir, s, *w, expected(p), kind == 'c', kind != 'c');
		mc::trace();
	};
	if (kind == 'c') {
		CompressibleCFDSolver<dim> s(cfg, boost::make_shared<Flow<dim> >(spec));
		auto w = go(s, &s, nullptr);
		w->see();
		s.run();
		done(s, w);
	} else if (kind == 'i' || kind == 'r') {
		CFDSolver<dim> s(cfg, boost::make_shared<Flow<dim> >(spec));
		auto w = go(s, nullptr, nullptr);
		w->see();
		s.run();
		done(s, w);
	}
	fs::remove_all(dir);
}
template<size_t dim> boost::shared_ptr<Benchmark<dim> > benchmark(char kind, size_t level, SolverConfiguration& c);
template<> boost::shared_ptr<Benchmark<2> > benchmark<2>(char kind, size_t level, SolverConfiguration& c) {
	if (kind == 'k')
		return boost::make_shared<CouetteFlow2D>(0.1, 0.1, level, 1.0, 1.0);
	c.setStencilScaling(5.0 * std::sqrt(3));
	return boost::make_shared<TaylorGreenVortex2D>(0.1, level, 5.0, true);
}
template<size_t dim> void bench(char kind, size_t level, const Setup& setup, const Par& p, const std::string& key) {
	const std::string dir = fresh("files");
	auto cfg = config([&](SolverConfiguration& c) {
		setup(c);
		c.setSwitchOutputOff(false);
		c.setOutputDirectory(dir);
		c.setNumberOfTimeSteps(p.N);
		c.setOutputSolutionInterval(p.sol);
	});
	auto b = benchmark<dim>(kind, level, *cfg), again = benchmark<dim>(kind, level, *cfg);
	BenchmarkCFDSolver<dim> s(cfg, b);
	auto w = boost::make_shared<Watch<dim> >(s, nullptr, again, false);
	s.appendDataProcessor(w);
	w->see();
	s.run();
	files<dim>(key, dir, s, *w, expected(p), false, true);
	mc::trace();
	fs::remove_all(dir);
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	auto scheme = [](bool dg, int order) {
		return [=](SolverConfiguration& c) {
			c.setAdvectionScheme(dg ? SEDG : SEMI_LAGRANGIAN);
			c.setSedgOrderOfFiniteElement(order);
			c.setCFL(dg ? 0.4 : 1.3);
		};
	};
	struct G {
		std::string n;
		std::function<void(Spec&)> f;
	};
	const std::vector<G> grids2 = { { "cell", [](Spec& s) {s.level = 0;} }, { "strip", [](Spec& s) {s.level = 0; s.cells = {3, 1, 1}; s.length = {3, 0.5, 1};} }, { "square", [](Spec& s) {
		s.level = 1;
	} }, { "walls", [](Spec& s) {
		s.level = 1;
		s.cells = {1, 2, 1};
		s.side[2].kind = s.side[3].kind = 'n';
		s.side[3].u = {0.02, 0};
	} }, { "distorted", [](Spec& s) {
		s.level = 2;
		s.cartesian = false;
		s.map = [](const V& x) {return V {x[0] + 0.1 * x[0] * (1 - x[0]), x[1] + 0.1 * x[0] + 0.2 * x[1] * (1 - x[1])};};
		s.side[0].kind = s.side[1].kind = s.side[2].kind = s.side[3].kind = 'n';
	} } };
	const std::vector<G> grids3 = { { "cell", [](Spec& s) {s.level = 0;} }, { "strip", [](Spec& s) {s.level = 0; s.cells = {1, 2, 1}; s.length = {1, 2, 0.7};} }, { "cube", [](Spec& s) {s.level = 1;} } };
	const std::vector<Par> pars = mc::thorough() ? std::vector<Par> { { 1, 1 }, { 2, 1 }, { 3, 2 }, { 4, 3 }, { 5, 1 }, { 5, 1000000000 } } : std::vector<Par> { { 1, 1 }, { 3, 1 }, { 3, 2 }, { 2, 1000000000 } };
	for (char kind : std::string("irc"))
		for (int dg = 0; dg < 2; dg++)
			for (int order = 1; order <= mc::tier(4, 6); order++)
				for (auto& g : grids2)
					for (auto& p : pars) {
						if (dg && kind != 'i' && g.n == "distorted" && !mc::thorough())
							continue;
						mc::run_case(mc::cat("2d/", kind, dg ? "/dg" : "/sl", "/p", order, "/", g.n, "/", p.N, "-", p.sol), [=]() {
							Spec s;
							g.f(s);
							if (kind == 'c' && s.side[2].kind != 'p')
								return;
							if (dg && s.map && s.side[0].kind == 'n')
								for (auto& x : s.side)
									x.kind = 'p';
							if (dg && s.map)
								s.map = [](const V& x) {return V {x[0] + 0.1 * x[0] * (1 - x[0]), x[1] + 0.2 * x[1] * (1 - x[1])};};
							general(s);
							s.visc = 0.02;
							one<2>(kind, s, [&](SolverConfiguration& c) {
								scheme(dg, order)(c);
								if (kind == 'c') {
									c.setStencil(Stencil_D2Q25H);
									c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);
									c.setHeatCapacityRatioGamma(1.4);
								}
							}, p, mc::cat(kind, dg ? ":dg" : ":sl"));
							mc::outcome(mc::cat(kind, dg, order, g.n));
						});
					}
	for (char kind : std::string("ir"))
		for (int dg = 0; dg < 2; dg++)
			for (int order = 1; order <= mc::tier(2, 3); order++)
				for (auto& g : grids3)
					for (auto& p : pars)
						mc::run_case(mc::cat("3d/", kind, dg ? "/dg" : "/sl", "/p", order, "/", g.n, "/", p.N, "-", p.sol), [=]() {
							Spec s;
							g.f(s);
							general(s);
							s.visc = 0.02;
							one<3>(kind, s, [&](SolverConfiguration& c) {
								scheme(dg, order)(c);
								c.setStencil(Stencil_D3Q19);
							}, p, mc::cat("3d:", kind, dg ? ":dg" : ":sl"));
							mc::outcome(mc::cat("3d", kind, dg, order, g.n));
						});
	for (char kind : std::string("tk"))
		for (int dg = 0; dg < 2; dg++)
			for (int order = 1; order <= mc::tier(3, 5); order++)
				for (size_t level = 1; level <= mc::tier<size_t>(1, 2); level++)
					for (auto& p : pars)
						mc::run_case(mc::cat("benchmark/", kind, dg ? "/dg" : "/sl", "/p", order, "/level", level, "/", p.N, "-", p.sol), [=]() {
							bench<2>(kind, level, scheme(dg, order), p, mc::cat(kind, dg ? ":dg" : ":sl"));
							mc::outcome(mc::cat(kind, dg, order, level));
						});
	mc::finish();
}
