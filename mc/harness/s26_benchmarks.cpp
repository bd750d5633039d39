// S26: benchmark flows: meshes, boundaries, initial values and analytic solutions
#include "mc.h"
#include "natrium/benchmarks/TaylorGreenVortex2D.h"
#include "natrium/benchmarks/TaylorGreenVortex3D.h"
#include "natrium/benchmarks/CouetteFlow2D.h"
#include "natrium/benchmarks/CouetteFlow3D.h"
#include "natrium/benchmarks/PoiseuilleFlow2D.h"
#include "natrium/benchmarks/PoiseuilleFlow3D.h"
#include "natrium/benchmarks/LubricationSine.h"
#include "natrium/benchmarks/SinusoidalShear2D.h"
#include "deal.II/grid/grid_tools.h"
#include "deal.II/grid/grid_out.h"
#include "natrium/benchmarks/ShearLayer2D.h"
#include "natrium/benchmarks/Riemann2D.h"
#include "natrium/benchmarks/Droplet2D.h"
#include "natrium/benchmarks/BackwardFacingStep2D.h"
#include "natrium/benchmarks/PeriodicTestDomain2D.h"
#include "natrium/benchmarks/PeriodicTestDomain3D.h"
#include "natrium/benchmarks/AdvectionBenchmark.h"
#include "natrium/problemdescription/BoundaryCollection.h"
#include "natrium/boundaries/PeriodicBoundary.h"
#include "natrium/boundaries/VelocityNeqBounceBack.h"
#include "natrium/utilities/MPIGuard.h"
#include <deal.II/grid/grid_generator.h>
#include <unistd.h>
#include <sys/wait.h>
using namespace natrium;
typedef std::vector<double> V;
static const double PI = 3.14159265358979323846;

template<size_t dim> V at(const dealii::Point<dim>& p) {
	V x(dim);
	for (size_t a = 0; a < dim; a++)
		x[a] = p[a];
	return x;
}
template<size_t dim> dealii::Point<dim> pt(const V& x) {
	dealii::Point<dim> p;
	for (size_t a = 0; a < dim; a++)
		p[a] = x[a];
	return p;
}
typedef std::function<double(const V&, double)> Field;                 // (x, t)
typedef std::function<V(const V&, double)> VField;

/// what is said about a flow
template<size_t dim> struct Spec {
	V extent;                                  // bounding box [0, extent]
	std::vector<double> volume;                // empty: not checked
	size_t coarse = 1, refinement = 0;         // number of coarse cells, refinement level
	double viscosity = 1, length = 1, velocity = 0;
	V force;                                   // empty: no force
	std::function<bool(unsigned id, const V& x)> on; // is the vertex x on boundary id?
	std::vector<std::pair<unsigned, unsigned>> periodic;
	std::map<unsigned, V> wall;                // velocities of walls
	bool periodicFields = true;
	std::function<V(const V&)> u;              // initial fields
	std::function<double(const V&)> rho, T;
	bool cartesian = true;
};
static bool near(double a, double b, double t = 1e-9) {
	return std::fabs(a - b) <= t * (1 + std::fabs(b));
}

template<size_t dim> void flow(const std::string& id, std::function<boost::shared_ptr<ProblemDescription<dim>>()> make, const Spec<dim>& s, bool separate) {
	auto p = make();
	auto mesh = p->getMesh();
	std::string key = id.substr(0, id.find('/'));
	mc::transition();
	mc::check_close(p->getViscosity(), s.viscosity, 1e-14, key + "/viscosity", id);
	mc::check_close(p->getCharacteristicLength(), s.length, 1e-14, key + "/length", id);
	mc::check_close(p->getCharacteristicVelocity(), s.velocity, 1e-14, key + "/velocity", id);
	mc::check(mesh->n_active_cells() == s.coarse, key + "/coarse", mc::cat(id, ": ", mesh->n_active_cells(), " cells"));
	// boundaries
	auto ids = mesh->get_boundary_ids();
	std::set<size_t> inMesh(ids.begin(), ids.end()), inColl;
	for (auto& b : p->getBoundaries()->getBoundaries())
		inColl.insert(b.first);
	mc::check(inMesh == inColl && inMesh.size() == ids.size(), key + "/ids", id + ": boundaries of mesh and collection differ");
	mc::check(p->checkBoundaryConditions(), key + "/checkBoundaryConditions", id);
	mc::check(inColl.size() == s.wall.size() + 2 * s.periodic.size(), key + "/kinds", id);
	for (auto& pr : s.periodic)
		for (unsigned b : { pr.first, pr.second }) {
			if (!mc::check(p->getBoundaries()->hasID(b) && p->getBoundaries()->isPeriodic(b), key + "/periodic", mc::cat(id, " boundary ", b)))
				continue;
			auto& pb = p->getBoundaries()->getPeriodicBoundary(b);
			mc::check(pb->getBoundaryIndicator1() == pr.first && pb->getBoundaryIndicator2() == pr.second, key + "/pair", id);
		}
	for (auto& w : s.wall) {
		if (!mc::check(p->getBoundaries()->hasID(w.first) && !p->getBoundaries()->isPeriodic(w.first), key + "/wall", mc::cat(id, " boundary ", w.first)))
			continue;
		auto b = p->getBoundaries()->getBoundary(w.first);
		mc::check(b->getBoundaryIndicator() == w.first, key + "/indicator", id);
		auto f = b->getBoundaryValues().getVelocity();
		if (mc::check(bool(f), key + "/wallvelocity", id + ": none"))
			for (double r : { 0.0, 0.4, 1.0 })
				for (size_t a = 0; a < dim; a++) {
					V x(dim, r);
					mc::check_close(f->value(pt<dim>(x), a), w.second[a], 1e-14, key + "/wallvelocity", id);
				}
	}
	// force
	mc::check(p->hasExternalForce() == !s.force.empty(), key + "/force", id);
	if (!s.force.empty() && p->hasExternalForce())
		for (size_t a = 0; a < dim; a++)
			mc::check_close(p->getExternalForce()->getForce()[a], s.force[a], 1e-12, key + "/force", id);
	// mesh
	if (separate) { // the mesh can be refined from outside
		p->refine(*mesh);
		p->transform(*mesh);
	} else
		p->refineAndTransform();
	size_t cells = s.coarse;
	for (size_t k = 0; k < s.refinement * dim; k++)
		cells *= 2;
	mc::check(mesh->n_active_cells() == cells, key + "/cells", mc::cat(id, ": ", mesh->n_active_cells(), " instead of ", cells));
	mc::check(p->isCartesian() == s.cartesian, key + "/cartesian", id);
	V lo(dim, 1e300), hi(dim, -1e300);
	double volume = 0;
	std::map<unsigned, std::vector<V>> onB;
	std::set<V> points;
	for (auto c = mesh->begin_active(); c != mesh->end(); ++c) {
		mc::trace();
		mc::check(c->measure() > 0, key + "/volume", id + ": cell without volume");
		volume += c->measure();
		bool box = true;
		for (unsigned v = 0; v < dealii::GeometryInfo<dim>::vertices_per_cell; v++) {
			V x = at<dim>(c->vertex(v));
			points.insert(x);
			for (size_t a = 0; a < dim; a++) {
				lo[a] = std::min(lo[a], x[a]);
				hi[a] = std::max(hi[a], x[a]);
				double e = c->vertex(v >> a & 1 ? 1u << a : 0)[a];
				box = box && near(x[a], e) && c->vertex(1u << a)[a] > c->vertex(0)[a];
			}
		}
		if (p->isCartesian())
			mc::check(box, key + "/box", id + ": a cell of a Cartesian mesh is not a box");
		// orientation of every corner
		if (dim == 2)
			for (unsigned v = 0; v < 4; v++) {
				auto o = c->vertex(v), a = c->vertex(v ^ 1), b = c->vertex(v ^ 2);
				double sgn = (v == 0 || v == 3) ? 1 : -1;
				double cr = (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]);
				mc::check(sgn * cr > 0, key + "/convex", id + ": degenerate corner");
			}
		for (unsigned f = 0; f < dealii::GeometryInfo<dim>::faces_per_cell; f++)
			if (c->face(f)->at_boundary()) {
				unsigned b = c->face(f)->boundary_id();
				for (unsigned v = 0; v < dealii::GeometryInfo<dim>::vertices_per_face; v++) {
					V x = at<dim>(c->face(f)->vertex(v));
					mc::check(s.on(b, x), key + "/position", mc::cat(id, ": vertex ", x[0], ",", x[1], " does not lie on boundary ", b));
					onB[b].push_back(x);
				}
			}
	}
	for (size_t a = 0; a < dim; a++)
		mc::check(std::fabs(lo[a]) < 1e-12 && near(hi[a], s.extent[a]), key + "/extent", mc::cat(id, ": direction ", a, " from ", lo[a], " to ", hi[a]));
	for (double v : s.volume)
		mc::check_close(volume, v, 1e-9, key + "/volume", id);
	for (auto& pr : s.periodic) {
		auto a = onB[pr.first], b = onB[pr.second];
		size_t d = 0;
		while (d < dim && !near(a[0][d] + s.extent[d], b[0][d]))
			d++;
		std::sort(a.begin(), a.end());
		std::sort(b.begin(), b.end());
		bool same = a.size() == b.size();
		// direction of the pair: the one in which all points of either side agree
		for (d = 0; d < dim; d++) {
			bool all = true;
			for (auto& x : a)
				all = all && std::fabs(x[d]) < 1e-12;
			if (all)
				break;
		}
		mc::check(same && d < dim, key + "/periodicmesh", id);
		if (same && d < dim)
			for (auto& x : a) {
				V y = x;
				y[d] += s.extent[d];
				bool found = false;
				for (auto& z : b) {
					double e = 0;
					for (size_t k = 0; k < dim; k++)
						e = std::max(e, std::fabs(z[k] - y[k]));
					found = found || e < 1e-9;
				}
				mc::check(found, key + "/periodicmesh", id + ": points of a pair do not match");
				if (s.periodicFields)
					for (size_t k = 0; k < dim; k++)
						mc::check(near(p->getInitialUFunction()->value(pt<dim>(x), k), p->getInitialUFunction()->value(pt<dim>(y), k), 1e-8)
								&& near(p->getInitialRhoFunction()->value(pt<dim>(x)), p->getInitialRhoFunction()->value(pt<dim>(y)), 1e-8), key + "/periodicfield", id);
			}
	}
	// initial fields at vertices and between
	for (auto& x : points)
		for (double r : { 1.0, 0.77 }) {
			V y = x;
			for (double& c : y)
				c *= r;
			mc::state(y);
			for (size_t k = 0; k < dim; k++)
				mc::check_close(p->getInitialUFunction()->value(pt<dim>(y), k), s.u ? s.u(y)[k] : 0.0, 1e-12, key + "/initialU", id);
			mc::check_close(p->getInitialRhoFunction()->value(pt<dim>(y)), s.rho ? s.rho(y) : 1.0, 1e-12, key + "/initialRho", id);
			mc::check_close(p->getInitialTFunction()->value(pt<dim>(y)), s.T ? s.T(y) : 1.0, 1e-12, key + "/initialT", id);
		}
	mc::outcome(key);
}

// ------------------------------------------------------------------ equations
/// sixth order differences
static double d1(const std::function<double(double)>& f, double h) {
	return (45 * (f(h) - f(-h)) - 9 * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60 * h);
}
static double d2(const std::function<double(double)>& f, double h) {
	return (-49.0 / 18 * f(0) + 1.5 * (f(h) + f(-h)) - 0.15 * (f(2 * h) + f(-2 * h)) + (f(3 * h) + f(-3 * h)) / 90) / (h * h);
}
/// largest residual of the incompressible equations; p = kinematic pressure
static double residual(size_t dim, const VField& u, const Field& p, double nu, const V& force, const V& x, double t, double hx, double ht) {
	double r = 0, div = 0;
	auto shift = [&](size_t a, double h) {
		V y = x;
		y[a] += h;
		return y;
	};
	V u0 = u(x, t);
	for (size_t k = 0; k < dim; k++) {
		double e = d1([&](double h) {return u(x, t + h)[k];}, ht) - (force.empty() ? 0 : force[k]);
		for (size_t a = 0; a < dim; a++) {
			e += u0[a] * d1([&](double h) {return u(shift(a, h), t)[k];}, hx);
			e -= nu * d2([&](double h) {return u(shift(a, h), t)[k];}, hx);
		}
		e += d1([&](double h) {return p(shift(k, h), t);}, hx);
		r = std::max(r, std::fabs(e));
		div += d1([&](double h) {return u(shift(k, h), t)[k];}, hx);
	}
	return std::max(r, std::fabs(div));
}
template<size_t dim> VField analyticU(boost::shared_ptr<Benchmark<dim>> b) {
	return [b](const V& x, double t) {
		auto& f = b->getAnalyticUFunction(t);
		V u(dim);
		for (size_t k = 0; k < dim; k++)
			u[k] = f->value(pt<dim>(x), k);
		return u;
	};
}
template<size_t dim> Field analyticRho(boost::shared_ptr<Benchmark<dim>> b) {
	return [b](const V& x, double t) {
		return b->getAnalyticRhoFunction(t)->value(pt<dim>(x));
	};
}
/// all points of an n^dim grid inside the box
static void grid(const V& extent, size_t n, const std::function<void(const V&)>& f) {
	mc::product(std::vector<size_t>(extent.size(), n), [&](const std::vector<size_t>& i) {
		V x(extent.size());
		for (size_t a = 0; a < x.size(); a++)
			x[a] = extent[a] * (i[a] + 0.31 + 0.07 * a) / n;
		f(x);
	});
}

static bool box(const V& ext, unsigned id, const V& x) {
	size_t d = id / 2;
	return d < ext.size() && std::fabs(x[d] - (id % 2 ? ext[d] : 0)) < 1e-9 * (1 + ext[d]);
}

static void taylorGreen2() {
	for (double L : { 2 * PI, 1.0, 0.25, 10.0 })
		for (double nu : { 1.0, 0.01, 1e-4 })
			for (double cs : { 0.57735026919, 1.0, 20.0 })
				for (int ana = 0; ana < 2; ana++)
					for (double U : { 0.0, 0.7, -3.0 })
						for (size_t ref = 0; ref < mc::tier(3, 5); ref++) {
							std::string id = mc::cat("tgv2d/L", L, "/nu", nu, "/cs", cs, "/a", ana, "/U", U, "/r", ref);
							mc::run_case(id, [=]() {
								auto mk = [=]() {
									auto b = boost::make_shared<TaylorGreenVortex2D>(nu, ref, cs, bool(ana), L);
									if (U != 0)
									b->setHorizontalVelocity(U);
									return b;
								};
								double k = 2 * PI / L;
								Spec<2> s;
								s.extent = {L, L};
								s.volume = {L * L};
								s.refinement = ref;
								s.viscosity = nu;
								s.length = L;
								s.on = [=](unsigned b, const V& x) {return box({L, L}, b, x);};
								s.periodic = { {0, 1}, {2, 3}};
								s.u = [=](const V& x) {return V {U + std::sin(k * x[0]) * std::cos(k * x[1]), -std::cos(k * x[0]) * std::sin(k * x[1])};};
								s.rho = [=](const V& x) {return ana ? 1 + 0.25 * (std::cos(2 * k * x[0]) + std::cos(2 * k * x[1])) / cs / cs : 1.0;};
								flow<2>(id, mk, s, ref % 2);
								// equations
								boost::shared_ptr<Benchmark<2>> b = mk(), c = boost::make_shared<TaylorGreenVortex2D>(nu, ref, cs, true, L);
								boost::dynamic_pointer_cast<TaylorGreenVortex2D>(c)->setHorizontalVelocity(U);
								VField u = analyticU<2>(b);
								Field rho = analyticRho<2>(c), mine = analyticRho<2>(b);
								Field p = [&](const V& x, double t) {return (rho(x, t) - 1) * cs * cs;};
								double scale = k * (1 + std::fabs(U)) + nu * k * k;
								for (double tau : {0.0, 0.3, 2.0})
									grid({L, L}, 5, [&](const V& x) {
										double t = tau / (nu * k * k), h = 0.02 / scale;
										// the phase of far times is subject to rounding
										if (std::fabs(U) * t * k > 1e3)
											t = 1e3 / (std::fabs(U) * k);
										mc::transition();
										double r = residual(2, u, p, nu, { }, x, t, 0.01 * L / (2 * PI), h);
										mc::check(r < 1e-5 * scale + 1e-9 * cs * cs * k, L != 2 * PI ? "tgv2d(L!=2pi)/equations" : "tgv2d/equations", mc::cat(id, ": residual ", r, " at t=", t));
										if (!ana)
											mc::check(mine(x, t) == 1.0, "tgv2d/density", id);
										for (size_t a = 0; a < 2; a++) {
											V y = x;
											y[a] += L;
											for (size_t q = 0; q < 2; q++)
											mc::check_close(u(y, t)[q], u(x, t)[q], 1e-9, "tgv2d/periodicsolution", id);
											mc::check_close(rho(y, t), rho(x, t), 1e-9, "tgv2d/periodicsolution", id);
										}
										// asking for the initial values does not depend on the time asked for before
										mc::check_close(b->getInitialUFunction()->value(pt<2>(x), 0), s.u(x)[0], 1e-12, "tgv2d/initial", id);
										mc::check_close(b->getInitialRhoFunction()->value(pt<2>(x), 0), s.rho(x), 1e-12, "tgv2d/initial", id);
									});
							});
						}
}

static void taylorGreen3() {
	for (double nu : { 1.0, 0.01 })
		for (double cs : { 0.57735026919, 5.0 })
			for (int ana = 0; ana < 2; ana++)
				for (int comp = 0; comp < 2; comp++)
					for (double num : { 1.0, 0.3 })
						for (size_t rep : { 1, 2, 3 })
							for (size_t ref = 0; ref < mc::tier(2, 3); ref++) {
								std::string id = mc::cat("tgv3d/nu", nu, "/cs", cs, "/a", ana, "/c", comp, "/n", num, "/rep", rep, "/r", ref);
								mc::run_case(id, [=]() {
									auto mk = [=]() {return boost::make_shared<TaylorGreenVortex3D>(nu, ref, cs, bool(ana), rep, num, bool(comp));};
									Spec<3> s;
									double L = 2 * PI;
									s.extent = {L, L, L};
									s.volume = {L * L * L};
									s.coarse = rep * rep * rep;
									s.refinement = ref;
									s.viscosity = nu;
									s.on = [=](unsigned b, const V& x) {return box({L, L, L}, b, x);};
									s.periodic = { {0, 1}, {2, 3}, {4, 5}};
									s.u = [=](const V& x) {return V {std::sin(x[0]) * std::cos(x[1]) * std::cos(x[2]), -std::cos(x[0]) * std::sin(x[1]) * std::cos(x[2]), 0};};
									s.rho = [=](const V& x) {
										double p = (std::cos(2 * x[0]) + std::cos(2 * x[1])) * (std::cos(2 * x[2]) + 2) / 16;
										return !ana ? 1.0 : comp ? 1 + p * num : 1 + p / cs / cs;
									};
									flow<3>(id, mk, s, ref % 2);
									// solenoidal, and the pressure solves its Poisson equation
									auto b = mk();
									auto u = [&](const V& x, size_t k) {return b->getInitialUFunction()->value(pt<3>(x), k);};
									auto rho = [&](const V& x) {return b->getInitialRhoFunction()->value(pt<3>(x));};
									grid(s.extent, 4, [&](const V& x) {
										mc::transition();
										auto sh = [&](size_t a, double h) {V y = x; y[a] += h; return y;};
										double div = 0, q = 0, lap = 0;
										for (size_t i = 0; i < 3; i++) {
											div += d1([&](double h) {return u(sh(i, h), i);}, 0.02);
											lap += d2([&](double h) {return rho(sh(i, h));}, 0.02);
											for (size_t j = 0; j < 3; j++)
												q += d1([&](double h) {return u(sh(j, h), i);}, 0.02) * d1([&](double h) {return u(sh(i, h), j);}, 0.02);
										}
										mc::check(std::fabs(div) < 1e-8, "tgv3d/solenoidal", id);
										if (ana)
											mc::check(std::fabs(lap * (comp ? 1 / num : cs * cs) + q) < 1e-6, "tgv3d/pressure", mc::cat(id, ": ", lap * cs * cs + q));
									});
								});
							}
}

/// Couette flow between plates at distance H in direction d
template<size_t dim> void couetteEquations(const std::string& id, boost::shared_ptr<Benchmark<dim>> b, double nu, double U, double H, double t0, const V& extent) {
	std::string key = id.substr(0, id.find('/'));
	VField u = analyticU<dim>(b);
	size_t d = dim - 1;
	for (double tau : { 0.0, 0.005, 0.03, 0.2, 5.0 }) {
		double t = tau * H * H / nu;
		// boundary values
		for (double x0 : { 0.0, 0.4 * extent[0], extent[0] })
			if (t + t0 > 2e-3 * H * H / nu || t + t0 == 0) {
				V lo(dim, 0.2), hi(dim, 0.2);
				lo[0] = hi[0] = x0;
				lo[d] = 0;
				hi[d] = H;
				mc::transition();
				for (size_t k = 0; k < dim; k++) {
					mc::check(std::fabs(u(lo, t)[k]) < 1e-9 * std::fabs(U), key + "/bottom", mc::cat(id, ": ", u(lo, t)[k], " at t=", t));
					mc::check(std::fabs(u(hi, t)[k] - (k ? 0 : U)) < 1e-9 * std::fabs(U), key + "/top", mc::cat(id, ": ", u(hi, t)[k], " at t=", t));
				}
				if (t + t0 == 0)
					for (double r : { 0.1, 0.5, 0.99 }) {
						V y = lo;
						y[d] = r * H;
						mc::check(u(y, t)[0] == 0, key + "/rest", mc::cat(id, ": fluid moves at t=0: ", u(y, t)[0]));
					}
			}
		if (tau == 0)
			continue;
		grid(extent, dim == 2 ? 6 : 4, [&](const V& x) {
			mc::transition();
			double r = residual(dim, u, [](const V&, double) {return 0.0;}, nu, { }, x, t, 0.003 * H, 0.02 * t);
			mc::check(r < 1e-5 * std::fabs(U) * nu / H / H / std::min(1.0, tau * 4), key + "/equations", mc::cat(id, ": residual ", r, " at t=", t, " z=", x[d]));
			double v = u(x, t)[0] / U;
			// 0 <= u <= linear profile
			mc::check(v > -1e-9 && v < x[d] / H + 1e-9, key + "/between", id);
			mc::check(tau < 5 || std::fabs(v - x[d] / H) < 1e-9, key + "/steady", id);
		});
	}
}
static void couette2() {
	for (double L : { 1.0, 0.5, 5.0 })
		for (double nu : { 1.0, 0.02 })
			for (double U : { 0.1, -2.0 })
				for (double t0 : { 0.0, 0.5 })
					for (int un = 0; un < 2; un++)
						for (size_t ref = 0; ref < mc::tier(3, 5); ref++) {
							std::string id = mc::cat(un ? L != 1 ? "couette2du(L!=1)" : "couette2du" : "couette2d", "/L", L, "/nu", nu, "/U", U, "/t", t0, "/r", ref);
							mc::run_case(id, [=]() {
								auto mk = [=]() {return boost::make_shared<CouetteFlow2D>(nu, U, ref, L, t0, bool(un));};
								Spec<2> s;
								s.extent = {L, L};
								s.volume = {L * L};
								s.refinement = ref;
								s.viscosity = nu;
								s.length = L;
								s.velocity = U;
								s.on = [=](unsigned b, const V& x) {return box({L, L}, b, x);};
								s.periodic = { {0, 1}};
								s.wall[2] = {0, 0};
								s.wall[3] = {U, 0};
								auto ref2 = mk();
								s.u = [=](const V& x) {return V {ref2->getAnalyticUFunction(0)->value(pt<2>(x), 0), 0};};
								flow<2>(id, mk, s, ref % 2);
								couetteEquations<2>(id, mk(), nu, U, L, t0, {L, L});
							});
						}
}
static void couette3() {
	for (size_t L : { 1, 2, 5 })
		for (double nu : { 1.0, 0.02 })
			for (double U : { 0.1, -2.0 })
				for (double t0 : { 0.0, 0.5 })
					for (int un = 0; un < 2; un++)
						for (size_t ref = 0; ref < mc::tier(2, 3); ref++) {
							std::string id = mc::cat(un ? "couette3du" : L > 1 ? "couette3d(L>1)" : "couette3d", "/L", L, "/nu", nu, "/U", U, "/t", t0, "/r", ref);
							mc::run_case(id, [=]() {
								auto mk = [=]() {return boost::make_shared<CouetteFlow3D>(nu, U, ref, L, t0, bool(un));};
								Spec<3> s;
								V e = {double(L), 1, 1};
								s.extent = e;
								s.volume = {double(L)};
								s.coarse = L;
								s.refinement = ref;
								s.viscosity = nu;
								s.length = L;
								s.velocity = U;
								s.on = [=](unsigned b, const V& x) {return box(e, b, x);};
								s.periodic = { {0, 1}, {2, 3}};
								s.wall[4] = {0, 0, 0};
								s.wall[5] = {U, 0, 0};
								auto ref2 = mk();
								s.u = [=](const V& x) {return V {ref2->getAnalyticUFunction(0)->value(pt<3>(x), 0), 0, 0};};
								flow<3>(id, mk, s, ref % 2);
								couetteEquations<3>(id, mk(), nu, U, 1.0, t0, e);
							});
						}
}

static void poiseuille() {
	for (double nu : { 1.0, 0.02 })
		for (double U : { 1.0, 0.05 })
			for (double H : { 1.0, 0.5, 3.0 })
				for (double L : { 2.0, 0.7 })
					for (size_t ref = 0; ref < mc::tier(2, 3); ref++) {
						std::string tail = mc::cat("/nu", nu, "/U", U, "/H", H, "/L", L, "/r", ref);
						double F = 12 * nu * U / (H * H); // mean velocity of the parabola F/(2 nu) y (H - y) is U
						mc::run_case("poiseuille2d" + tail, [=]() {
							std::string id = "poiseuille2d" + tail;
							auto mk = [=]() {return boost::make_shared<PoiseuilleFlow2D>(nu, ref, U, H, L);};
							Spec<2> s;
							s.extent = {L, H};
							s.volume = {L * H};
							s.refinement = ref;
							s.viscosity = nu;
							s.length = H;
							s.velocity = U;
							s.force = {F, 0};
							s.on = [=](unsigned b, const V& x) {return box({L, H}, b, x);};
							s.periodic = { {0, 1}};
							s.wall[2] = s.wall[3] = {0, 0};
							auto ref2 = mk();
							s.u = [=](const V& x) {return V {ref2->getAnalyticUFunction(0)->value(pt<2>(x), 0), 0};};
							flow<2>(id, mk, s, ref % 2);
							VField u = analyticU<2>(ref2);
							for (double t : {0.0, 1.0, 50.0})
								grid({L, H}, 4, [&](const V& x) {
									mc::transition();
									double r = residual(2, u, [](const V&, double) {return 0.0;}, nu, s.force, x, t, 0.01 * H, 0.01);
									bool none = u(x, t)[0] == 0;
									mc::check(r < 1e-6 * F, none ? "poiseuille2d/no solution" : "poiseuille2d/equations", mc::cat(id, ": residual ", r));
								});
						});
						for (double W : { 1.0, 0.4 })
							mc::run_case(mc::cat("poiseuille3d", tail, "/W", W), [=]() {
								std::string id = mc::cat("poiseuille3d", tail, "/W", W);
								auto mk = [=]() {return boost::make_shared<PoiseuilleFlow3D>(nu, ref, U, H, W, L);};
								Spec<3> s;
								s.extent = {L, W, H};
								s.volume = {L * H * W};
								s.refinement = ref;
								s.viscosity = nu;
								s.length = H;
								s.velocity = U;
								s.force = {F, 0, 0};
								s.on = [=](unsigned b, const V& x) {return box({L, W, H}, b, x);};
								s.periodic = { {0, 1}, {2, 3}};
								s.wall[4] = s.wall[5] = {0, 0, 0};
								auto ref2 = mk();
								s.u = [=](const V& x) {return V {ref2->getAnalyticUFunction(0)->value(pt<3>(x), 0), 0, 0};};
								flow<3>(id, mk, s, ref % 2);
								VField u = analyticU<3>(ref2);
								grid({L, W, H}, 3, [&](const V& x) {
									mc::transition();
									double r = residual(3, u, [](const V&, double) {return 0.0;}, nu, s.force, x, 1.0, 0.01 * H, 0.01);
									bool none = u(x, 1.0)[0] == 0;
									mc::check(r < 1e-6 * F, none ? "poiseuille3d/no solution" : "poiseuille3d/equations", mc::cat(id, ": residual ", r));
								});
							});
					}
}

static void gaps() {
	for (double L : { 1.0, 4.0, 0.5 })
		for (double H : { 1.0, 0.3 })
			for (double A : { 0.0, 0.5, 0.8 })  // of the height
				for (double asp : { 0.5, 0.25 })
					for (double rough : { 0.0, 0.05 })
						for (size_t ratio : { 1, 4 })
							for (size_t ref = 0; ref < mc::tier(4, 6); ref++) {
								double nu = 0.3, U = 0.7, a = A * H;
								if (L / H / asp >= 1)
									mc::run_case(mc::cat("lubrication/L", L, "/H", H, "/A", A, "/asp", asp, "/rough", rough, "/n", ratio, "/r", ref), [=]() {
										std::string id = mc::cat("lubrication/L", L, "/H", H, "/A", A, "/asp", asp, "/rough", rough, "/n", ratio, "/r", ref);
										auto mk = [=]() {return boost::make_shared<LubricationSine>(nu, U, ref, L, H, a, asp, rough * H, ratio);};
										auto upper = [=](double x) {return H + a * std::cos(2 * PI * x / L) + rough * H * std::cos(2 * PI * x * ratio / L);};
										Spec<2> s;
										s.extent = {L, upper(0)};
										s.coarse = size_t(L / H / asp);
										s.refinement = ref;
										s.viscosity = nu;
										s.length = H;
										s.velocity = U;
										s.cartesian = false;
										s.on = [=](unsigned b, const V& x) {
											return b == 0 ? std::fabs(x[0]) < 1e-9 : b == 1 ? near(x[0], L) : b == 2 ? std::fabs(x[1]) < 1e-9 : near(x[1], upper(x[0]));
										};
										s.periodic = { {0, 1}};
										s.wall[2] = {U, 0};
										s.wall[3] = {0, 0};
										s.u = [=](const V& x) {return V {U * std::pow(1 - x[1] / (H - a), 2), 0};};
										flow<2>(id, mk, s, ref % 2);
									});
								if (rough == 0 && ratio == 1)
									mc::run_case(mc::cat("sinusoidal/L", L, "/H", H, "/A", A, "/asp", asp, "/r", ref), [=]() {
										std::string id = mc::cat("sinusoidal/L", L, "/H", H, "/A", A, "/asp", asp, "/r", ref);
										auto mk = [=]() {return boost::make_shared<SinusoidalShear2D>(nu, U, ref, L, H, a, asp);};
										auto upper = [=](double x) {return H + a * std::sin(2 * PI * x / L);};
										Spec<2> s;
										s.coarse = size_t(1 / asp);
										s.refinement = ref;
										double top = H; // the highest vertex depends on the refinement
										size_t n = s.coarse << ref;
										for (size_t i = 0; i <= n; i++) {
											double x = double(i) / n;
											x -= 0.019 * a / 0.49 * std::sin(4 * PI * x);
											top = std::max(top, upper(x * L));
										}
										s.extent = {L, top};
										s.viscosity = nu;
										s.length = H;
										s.velocity = U;
										s.cartesian = false;
										s.on = [=](unsigned b, const V& x) {
											return b == 0 ? std::fabs(x[0]) < 1e-9 : b == 1 ? near(x[0], L) : b == 2 ? std::fabs(x[1]) < 1e-9 : near(x[1], upper(x[0]));
										};
										s.periodic = { {0, 1}};
										s.wall[2] = {U, 0};
										s.wall[3] = {0, 0};
										flow<2>(id, mk, s, ref % 2);
									});
							}
}

static void squares() {
	for (double tx : { 0.0, 0.5, 0.9 })
		for (double ty : { 0.0, 0.3, 0.9 })
			for (double u0 : { 1.0, 0.04 })
				for (double kappa : { 80.0, 5.0 })
					for (double per : { 0.05, 0.0 })
						for (size_t ref = 0; ref < mc::tier(4, 6); ref++) {
							std::string tail = mc::cat("/tx", tx, "/ty", ty, "/u", u0, "/k", kappa, "/p", per, "/r", ref);
							double nu = 0.01;
							mc::run_case("shear" + tail, [=]() {
								auto mk = [=]() {return boost::make_shared<ShearLayer2D>(nu, ref, u0, kappa, per, tx, ty);};
								Spec<2> s;
								s.extent = {1, 1};
								s.volume = {1};
								s.refinement = ref;
								s.viscosity = nu;
								s.on = [=](unsigned b, const V& x) {return box({1, 1}, b, x);};
								s.periodic = { {0, 1}, {2, 3}};
								s.periodicFields = true;
								s.u = [=](const V& x) {return V {u0 * std::tanh(kappa * (x[1] <= 0.5 ? x[1] - 0.25 : 0.75 - x[1])), per * u0 * std::sin(2 * PI * (x[0] + 0.25))};};
								flow<2>("shear" + tail, mk, s, ref % 2);
							});
							if (kappa == 5)
								mc::run_case("riemann" + tail, [=]() {
									auto mk = [=]() {return boost::make_shared<Riemann2D>(nu, ref, u0, kappa, per, tx, ty);};
									Spec<2> s;
									s.extent = {2, 2};
									s.volume = {4};
									s.coarse = 4;
									s.refinement = ref;
									s.viscosity = nu;
									s.on = [=](unsigned b, const V& x) {return box({2, 2}, b, x);};
									for (unsigned b = 0; b < 4; b++)
										s.wall[b] = {0, 0};
									// quadrants: 0 left bottom, 1 right bottom, 2 left top, 3 right top
									auto q = [](const V& x) {return int(x[0] > 1) + 2 * int(x[1] > 1);};
									s.u = [=](const V& x) {return V {q(x) == 2 ? 0.42008 : 0, q(x) == 1 ? 0.42008 : 0};};
									s.rho = [=](const V& x) {return std::vector<double> {0.8, 1, 1, 0.5313}[q(x)];};
									s.T = [=](const V& x) {return std::vector<double> {1.25, 1, 1, 0.7532956685}[q(x)];};
									flow<2>("riemann" + tail, mk, s, ref % 2);
								});
						}
	for (double L : { 1.0, 3.0 })
		for (double H : { 1.0, 0.6 })
			for (double rl : { 1.0, 2.5 })
				for (double W : { 0.05, 0.4 })
					for (double R : { 0.2, 0.4 })
						for (size_t ref = 0; ref < mc::tier(3, 5); ref++) {
							std::string id = mc::cat("droplet/L", L, "/H", H, "/rho", rl, "/W", W, "/R", R, "/r", ref);
							mc::run_case(id, [=]() {
								auto mk = [=]() {return boost::make_shared<Droplet2D>(0.1, ref, L, H, rl, 0.3, W, R);};
								Spec<2> s;
								s.extent = {L, H};
								s.volume = {L * H};
								s.refinement = ref;
								s.viscosity = 0.1;
								s.length = H;
								s.on = [=](unsigned b, const V& x) {return box({L, H}, b, x);};
								s.periodic = { {0, 1}, {2, 3}};
								s.rho = [=](const V& x) {return 0.5 * (rl + 0.3) - 0.5 * (rl - 0.3) * std::tanh((std::hypot(x[0] - L / 2, x[1] - H / 2) - R) / W);};
								flow<2>(id, mk, s, ref % 2);
							});
						}
	for (size_t ref = 0; ref < 5; ref++) {
		mc::run_case(mc::cat("domain2/r", ref), [=]() {
			Spec<2> s;
			s.extent = {1, 1};
			s.volume = {1};
			s.refinement = ref;
			s.on = [=](unsigned b, const V& x) {return box({1, 1}, b, x);};
			s.periodic = { {0, 1}, {2, 3}};
			flow<2>(mc::cat("domain2/r", ref), [=]() {return boost::make_shared<PeriodicTestDomain2D>(ref);}, s, false);
		});
		if (ref < 4)
			mc::run_case(mc::cat("domain3/r", ref), [=]() {
				Spec<3> s;
				s.extent = {1, 1, 1};
				s.volume = {1};
				s.refinement = ref;
				s.on = [=](unsigned b, const V& x) {return box({1, 1, 1}, b, x);};
				s.periodic = { {0, 1}, {2, 3}, {4, 5}};
				flow<3>(mc::cat("domain3/r", ref), [=]() {return boost::make_shared<PeriodicTestDomain3D>(ref);}, s, false);
			});
	}
}

static void inflow() {
	for (double hs : { 0.5, 0.1 })
		for (double hd : { 1.0, 3.0 })
			for (double u : { 1.0, 0.2 })
				mc::run_case(mc::cat("inflow/", hs, "/", hd, "/", u), [=]() {
					BackwardFacingStep2D::InflowVelocity f(hs, hd, u);
					// zero at the walls, mean u (Simpson is exact for parabolas), nothing across
						dealii::Point<2> lo(0, hs), mid(0, 0.5 * (hs + hd)), hi(0, hd);
						mc::transition();
						mc::check_close(f.value(lo), 0, 1e-12, "inflow/wall", "");
						mc::check_close(f.value(hi), 0, 1e-12, "inflow/wall", "");
						mc::check_close((f.value(lo) + 4 * f.value(mid) + f.value(hi)) / 6, u, 1e-12, "inflow/mean", "");
						for (double y = hs; y <= hd; y += 0.1) {
							mc::check_close(f.value(dealii::Point<2>(0, y)), 6 * u * (y - hs) * (hd - y) / (hd - hs) / (hd - hs), 1e-12, "inflow/profile", "");
							mc::check_close(f.value(dealii::Point<2>(0, y), 1), 0, 1e-14, "inflow/across", "");
						}
					});
}

static void advection() {
	for (int smooth = 0; smooth < 2; smooth++)
		mc::run_case(mc::cat("advected/", smooth), [=]() {
			for (int i = -20; i <= 60; i++)
				for (int j = 0; j <= 20; j++) {
					double t = 0.137 * i, x = j / 20.0;
					mc::transition();
					double h = std::sin(2 * PI * (x - t));
					double e = smooth ? h : (h > 0 ? h * h : -h * h);
					dealii::Point<2> p(x, 0.3 * j);
					mc::check(std::fabs(AdvectionBenchmark::analytic_solution(t, p, smooth) - e) < 1e-9, "advected/value", mc::cat("t=", t, " x=", x));
				}
		});
}

/// the backward facing step, in a child process
static void step() {
	mc::run_case("step", []() {
		pid_t child = fork();
		if (child == 0) {
			alarm(30);
			int r = 1;
			try {
				BackwardFacingStep2D b(0.1, 1.0, 1);
				b.refineAndTransform();
				r = b.checkBoundaryConditions() && b.getMesh()->n_active_cells() == 4 * (20 + 18 * 2) ? 0 : 2;
			} catch (...) {
			}
			_exit(r);
		}
		int st = -1;
		waitpid(child, &st, 0);
		mc::transition();
		mc::check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "step/construct", mc::cat("BackwardFacingStep2D: ", st));
	});
}

// -------------------------------------------------- boundary collections
static boost::shared_ptr<Mesh<2>> square(const std::vector<unsigned>& ids) {
	auto m = boost::make_shared<Mesh<2> >(MPI_COMM_WORLD);
	dealii::GridGenerator::hyper_cube(*m, 0, 1);
	for (unsigned f = 0; f < 4; f++)
		m->begin_active()->face(f)->set_all_boundary_ids(ids[f]);
	return m;
}
struct Domain: public ProblemDescription<2> {
	Domain(boost::shared_ptr<Mesh<2>> m) :
			ProblemDescription<2>(m, 1, 1) {
	}
	virtual void refine(Mesh<2>&) {
	}
	virtual void transform(Mesh<2>&) {
	}
	virtual bool isCartesian() {
		return true;
	}
};
static void collections() {
	// operations: walls 0..4, pairs (0,1), (2,3), (1,4), (4,3)
	const std::vector<std::vector<size_t>> ops = { { 0 }, { 1 }, { 2 }, { 3 }, { 4 }, { 0, 1 }, { 2, 3 }, { 1, 4 }, { 4, 3 } };
	const size_t depth = mc::tier(4, 5);
	for (size_t first = 0; first < ops.size(); first++)
		mc::run_case(mc::cat("collection/", first), [=]() {
			mc::sequences(ops.size(), depth, [&](const std::vector<size_t>& q) {
				if (q.empty() || q[0] != first)
					return;
				mc::trace();
				BoundaryCollection<2> c;
				std::map<size_t, size_t> model; // id -> operation
				dealii::Vector<double> zero(2);
				std::vector<boost::shared_ptr<Boundary<2>>> made;
				for (size_t k : q) {
					mc::transition();
					bool clash = false, thrown = false;
					for (size_t i : ops[k])
						clash = clash || model.count(i);
					boost::shared_ptr<Boundary<2>> b;
					try {
						if (ops[k].size() == 1) {
							b = boost::make_shared<VelocityNeqBounceBack<2> >(ops[k][0], zero);
							c.addBoundary(b);
						} else {
							std::vector<unsigned> id = {90, 91, 92, 93};
							id[0] = ops[k][0];
							id[1] = ops[k][1];
							auto p = boost::make_shared<PeriodicBoundary<2> >(ops[k][0], ops[k][1], 0, square(id));
							b = p;
							c.addBoundary(p);
						}
					} catch (BoundaryCollectionException&) {
						thrown = true;
					}
					mc::check(thrown == clash, "collection/refused", mc::cat("operation ", k, clash ? " was accepted" : " was refused"));
					if (!clash)
						for (size_t i : ops[k]) {
							model[i] = made.size();
						}
					made.push_back(b);
					if (clash)
						made.back().reset();
					size_t pairs = 0;
					std::string st;
					for (size_t i = 0; i < 6; i++) {
						mc::check(c.hasID(i) == bool(model.count(i)), "collection/has", mc::cat(i));
						bool there = true;
						boost::shared_ptr<Boundary<2>> g;
						try {
							g = c.getBoundary(i);
						} catch (BoundaryCollectionException&) {
							there = false;
						}
						mc::check(there == bool(model.count(i)), "collection/get", mc::cat(i));
						if (there && model.count(i)) {
							mc::check(g == made[model[i]], "collection/same", mc::cat(i, " is another boundary"));
							bool per = made[model[i]]->isPeriodic();
							pairs += per;
							mc::check(c.isPeriodic(i) == per, "collection/periodic", mc::cat(i));
							mc::check(c.getPeriodicBoundaries().count(i) == size_t(per), "collection/periodic", mc::cat(i));
							if (per)
								mc::check(boost::shared_ptr<Boundary<2>>(c.getPeriodicBoundary(i)) == g, "collection/same", mc::cat(i));
							st += mc::cat(i, per ? "p" : "w");
						}
					}
					mc::state(st);
					mc::check(c.numberOfBoundaries() == model.size() && c.numberOfPeriodicBoundaries() == pairs && c.getBoundaries().size() == model.size(), "collection/number", mc::cat(c.numberOfBoundaries()));
				}
			});
		});
	// every colouring of a square against every set of walls
	mc::run_case("collection/check", [=]() {
		mc::product( {4, 4, 4, 4}, [&](const std::vector<size_t>& col) {
			for (size_t set = 0; set < 16; set++) {
				auto m = square( {unsigned(col[0]), unsigned(col[1]), unsigned(col[2]), unsigned(col[3])});
				Domain d(m);
				auto c = boost::make_shared<BoundaryCollection<2> >();
				dealii::Vector<double> zero(2);
				size_t have = 0;
				for (size_t b = 0; b < 4; b++) {
					if (set >> b & 1)
						c->addBoundary(boost::shared_ptr<Boundary<2>>(boost::make_shared<VelocityNeqBounceBack<2> >(b, zero)));
					have |= size_t(1) << col[b];
				}
				d.setBoundaries(c);
				mc::trace();
				mc::check(d.checkBoundaryConditions() == (have == set), "collection/check", mc::cat("mesh ", have, " boundaries ", set));
			}
		});
	});
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	// flows write pictures of their grids to the current directory
	if (!mc::G().scratch.empty() && chdir(mc::G().scratch.c_str())) {
	}
	taylorGreen2();
	taylorGreen3();
	couette2();
	couette3();
	poiseuille();
	gaps();
	squares();
	inflow();
	step();
	advection();
	collections();
	mc::finish();
}
