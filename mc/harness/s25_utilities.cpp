// S25: time step, mesh-size, name, vector and matrix utilities
#include "collide.h"
#include "flow.h"
#include "natrium/utilities/Math.h"
#include "natrium/utilities/SemiParallelMatrix.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/base/quadrature_lib.h>
using namespace natrium;
using namespace fl;
namespace cu = natrium::CFDSolverUtilities;

// ---------------------------------------------------------------- meshes
template<size_t dim> V at(const dealii::Point<dim>& p) {
	V x(dim);
	for (size_t a = 0; a < dim; a++)
		x[a] = p[a];
	return x;
}
static double dist(const V& a, const V& b) {
	double s = 0;
	for (size_t k = 0; k < a.size(); k++)
		s += (a[k] - b[k]) * (a[k] - b[k]);
	return std::sqrt(s);
}
/// smallest distance of two vertices of a cell
template<size_t dim> double shortest(const Mesh<dim>& m) {
	double r = 1e300;
	for (auto c = m.begin_active(); c != m.end(); ++c) {
		std::vector<V> v;
		for (unsigned k = 0; k < dealii::GeometryInfo<dim>::vertices_per_cell; k++)
			v.push_back(at<dim>(c->vertex(k)));
		for (size_t i = 0; i < v.size(); i++)
			for (size_t j = 0; j < i; j++)
				r = std::min(r, dist(v[i], v[j]));
	}
	return r;
}
/// smallest distance of two Gauss-Lobatto nodes of order p in a cell (cells with parallel edges)
template<size_t dim> double shortestNodes(const Mesh<dim>& m, size_t p) {
	dealii::QGaussLobatto<1> gl(p + 1);
	double r = 1e300;
	for (auto c = m.begin_active(); c != m.end(); ++c) {
		std::vector<V> n;
		std::vector<size_t> s(dim, p + 1);
		mc::product(s, [&](const std::vector<size_t>& i) {
			V x = at<dim>(c->vertex(0));
			for (size_t a = 0; a < dim; a++)
				for (size_t b = 0; b < dim; b++)
					x[b] += gl.point(i[a])[0] * (c->vertex(1u << a)[b] - c->vertex(0)[b]);
			n.push_back(x);
		});
		for (size_t i = 0; i < n.size(); i++)
			for (size_t j = 0; j < i; j++)
				r = std::min(r, dist(n[i], n[j]));
	}
	return r;
}
struct Map {
	std::string id;
	std::function<V(const V&)> f;
	bool parallel; // edges stay axis parallel
};
static std::vector<Map> maps(size_t dim) {
	std::vector<Map> r = { { "box", nullptr, true }, { "stretch", [](const V& x) {
		V y = x;
		for (size_t a = 0; a < x.size(); a++)
			y[a] = x[a] + 0.3 * x[a] * x[a] * (a + 1);
		return y;
	}, true }, { "tanh", [](const V& x) {
		V y = x;
		y[x.size() - 1] = std::tanh(1.7 * x[x.size() - 1]);
		return y;
	}, true }, { "shear", [](const V& x) {
		V y = x;
		y[0] += 0.8 * x[1];
		return y;
	}, false }, { "wave", [](const V& x) {
		V y = x;
		y[1] += 0.1 * std::sin(3 * x[0]) * x[1];
		return y;
	}, false }, { "flat", [](const V& x) {
		V y = x;
		y[0] += 0.9 * x[1];
		y[1] *= 0.3;
		return y;
	}, false } };
	if (dim == 3)
		r.push_back(Map { "shear3", [](const V& x) {
			V y = x;
			y[0] += 0.7 * x[2];
			y[1] += 0.7 * x[2];
			y[2] *= 0.4;
			return y;
		}, false });
	return r;
}
template<size_t dim> struct MeshCase {
	std::string id;
	std::function<boost::shared_ptr<Mesh<dim> >()> make;
	bool parallel, doubled; // doubled: refining once more halves all cells
};
template<size_t dim> std::vector<MeshCase<dim> > meshes() {
	std::vector<MeshCase<dim> > r;
	std::vector<std::vector<unsigned> > cells = { { 1, 1, 1 }, { 2, 3, 1 }, { 4, 1, 2 }, { 3, 5, 2 } };
	std::vector<V> lengths = { { 1, 1, 1 }, { 1, 2, 0.5 }, { 6.283185307, 0.01, 3 }, { 1e-3, 2e-3, 5e-3 }, { 300, 20, 1000 } };
	if (mc::thorough()) {
		cells.push_back( { 7, 2, 3 });
		cells.push_back( { 1, 6, 5 });
		lengths.push_back( { 1e-6, 1, 1 });
		lengths.push_back( { 1e4, 3e4, 2e4 });
	}
	auto mm = maps(dim);
	for (auto& n : cells)
		for (auto& L : lengths)
			for (size_t level = 0; level <= mc::tier<size_t>(dim == 2 ? 3 : 2, dim == 2 ? 5 : 3); level++)
				for (size_t local = 0; local < 4; local++)
					for (auto& m : mm) {
						if (level && local && !mc::thorough() && L[0] != 1)
							continue;
						r.push_back(MeshCase<dim> { mc::cat(dim, "D cells ", n[0], "x", n[1], "x", dim == 3 ? n[2] : 0, " lengths ", L[0], " ", L[1], " level ", level, " local ", local,
								" ", m.id), [=]() {
							auto t = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
							dealii::Point<dim> a, b;
							for (size_t k = 0; k < dim; k++)
								b[k] = L[k];
							dealii::GridGenerator::subdivided_hyper_rectangle(*t, std::vector<unsigned>(n.begin(), n.begin() + dim), a, b, true);
							t->refine_global(level);
							if (local) { // first, last, or the middle cell
								size_t k = 0, c = local == 1 ? 0 : local == 2 ? t->n_active_cells() - 1 : t->n_active_cells() / 2;
								for (auto x = t->begin_active(); x != t->end(); ++x, ++k)
									if (k == c)
										x->set_refine_flag();
								t->execute_coarsening_and_refinement();
							}
							if (m.f) {
								auto f = m.f;
								dealii::GridTools::transform([=](const dealii::Point<dim>& p) {
									V x = at<dim>(p);
									for (size_t k = 0; k < dim; k++)
										x[k] /= L[k];
									x = f(x);
									dealii::Point<dim> q;
									for (size_t k = 0; k < dim; k++)
										q[k] = x[k] * L[k];
									return q;
								}, *t);
							}
							return t;
						}, m.parallel && !(m.f && local), !m.f });
					}
	return r;
}
/// reference speed of the CFL number: sqrt(2) (D3Q15: sqrt(3)) in lattice units
static double fastest(const Stencil& s) {
	return s.getScaling() * (s.getStencilType() == Stencil_D3Q15 ? std::sqrt(3.) : std::sqrt(2.));
}
/// smallest distance of neighboring Gauss-Lobatto nodes on [0,1], from the definition: zeros of P_p'
static double spacing(size_t p) {
	auto dP = [p](double x) { // derivative of the Legendre polynomial
		double a = 1, b = x;
		for (size_t k = 2; k <= p; k++) {
			const double c = ((2 * k - 1) * x * b - (k - 1) * a) / k;
			a = b;
			b = c;
		}
		return p * (a - x * b) / (1 - x * x);
	};
	if (p == 1)
		return 1;
	// largest zero of P_p' by scanning from the right
	double hi = 1 - 1e-9, h = 1e-4;
	double v = dP(hi);
	while (hi > 0) {
		const double w = dP(hi - h);
		if (v * w <= 0)
			break;
		hi -= h;
		v = w;
	}
	double lo = hi - h;
	for (int k = 0; k < 80; k++) {
		const double m = 0.5 * (lo + hi);
		if (dP(m) * v > 0)
			hi = m;
		else
			lo = m;
	}
	return (1 - 0.5 * (lo + hi)) / 2;
}
template<size_t dim> void meshSizes() {
	std::vector<boost::shared_ptr<Stencil> > st;
	std::vector<std::string> names;
	for (auto& s : cl::stencils())
		if (s.d == dim)
			for (double x : { 1.0, 0.1, 7.3, 1234.5 }) {
				st.push_back(cl::make(s.type, x));
				names.push_back(mc::cat(s.name, " scaling ", x));
			}
	const size_t P = mc::tier<size_t>(6, 12);
	for (auto& c : meshes<dim>())
		mc::run_case("mesh " + c.id, [&]() {
			auto m = c.make();
			const double dx = shortest<dim>(*m);
			mc::check_close(cu::getMinimumVertexDistance<dim>(*m), dx, 1e-12 * dx, "vertex-distance", "smallest distance of vertices on " + c.id);
			V seen(1, dx);
			for (size_t p = 1; p <= P; p++) {
				const double d = dx * spacing(p);
				mc::check_close(cu::getMinimumDoFDistanceGLL<dim>(*m, p), d, 1e-9 * d, "node-distance", mc::cat("node distance of order ", p, " on ", c.id));
				if (c.parallel && p <= (dim == 2 ? 4 : 2) && m->n_active_cells() < 200) {
					const double b = shortestNodes<dim>(*m, p);
					mc::check_close(cu::getMinimumDoFDistanceGLL<dim>(*m, p), b, 1e-9 * b, "node-distance-brute", mc::cat("node distance of order ", p, " on ", c.id));
				}
				for (size_t k = 0; k < st.size(); k++)
					for (double cfl : { 0.4, 1.0, 0.01, 17.0 }) {
						const double dt = cfl * dx / (fastest(*st[k]) * p * p);
						mc::check_close(cu::calculateTimestep<dim>(*m, p, *st[k], cfl), dt, 1e-9 * dt, "time-step",
								mc::cat("time step of order ", p, " with ", names[k], " CFL ", cfl, " on ", c.id));
						mc::transition();
						seen.push_back(dt);
					}
				const double dt = 0.4 * dx / (fastest(*st[0]) * p * p);
				mc::check_close(cu::calculateTimestep<dim>(*m, p, *st[0]), dt, 1e-9 * dt, "time-step-default", "time step without CFL number on " + c.id);
			}
			if (c.doubled && m->n_active_cells() < 3000) {
				V a, b;
				for (size_t p = 1; p <= P; p++)
					a.push_back(cu::calculateTimestep<dim>(*m, p, *st[0], 0.7));
				m->refine_global(1);
				for (size_t p = 1; p <= P; p++)
					mc::check_close(cu::calculateTimestep<dim>(*m, p, *st[0], 0.7), 0.5 * a[p - 1], 1e-9 * a[p - 1], "halves", mc::cat("time step after refinement, order ", p, " on ", c.id));
			}
			mc::state(seen);
			mc::outcome(mc::cat(dim, "D ", c.parallel ? "parallel" : "deformed"));
		});
}
/// the solver's time step is the one that belongs to the CFL number of its configuration
template<size_t dim> void solverSteps() {
	for (auto& s : cl::stencils()) {
		if (s.d != dim || s.q > 45)
			continue;
		for (size_t level = 1; level <= 2; level++)
			for (size_t p : { 1, 2, 3 })
				for (double scaling : { 1.0, 13.0 })
					for (double cfl : { 0.4, 2.5 })
						for (int stretched = 0; stretched < 2; stretched++)
							for (int compressible = 0; compressible < 2; compressible++) {
								if (dim == 3 && (level > 1 || p > 2 || s.q > 27))
									continue;
								if (compressible && (dim == 3 || s.q < 19))
									continue;
								mc::run_case(mc::cat("solver ", s.name, " level ", level, " order ", p, " scaling ", scaling, " CFL ", cfl, " stretched ", stretched, " compressible ", compressible), [&]() {
									Spec sp;
									sp.level = level;
									sp.length = { 1, 2, 1.5 };
									general(sp);
									if (stretched) {
										sp.map = [](const V& x) {
											V y = x;
											y[1] = x[1] + 0.1 * std::sin(M_PI * x[1]);
											return y;
										};
										sp.cartesian = false;
									}
									auto c = config([&](SolverConfiguration& c) {
										c.setStencil(s.type);
										c.setSedgOrderOfFiniteElement(p);
										c.setStencilScaling(scaling);
										c.setCFL(cfl);
										if (compressible)
											c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);
									});
									auto f = boost::make_shared<Flow<dim> >(sp);
									boost::shared_ptr<CFDSolver<dim> > solver;
									if (compressible)
										solver = boost::make_shared<CompressibleCFDSolver<dim> >(c, f);
									else
										solver = boost::make_shared<CFDSolver<dim> >(c, f);
									const double dt = cfl * shortest<dim>(*f->getMesh()) / (fastest(*solver->getStencil()) * p * p);
									mc::check_close(solver->getTimeStepSize(), dt, 1e-9 * dt, "solver-step", "time step of the solver");
									mc::state(V(1, dt));
									mc::transition();
								});
							}
	}
}
// ---------------------------------------------------------------- names
static void names() {
	struct N {
		TimeIntegratorName t;
		DealIntegratorName d;
		const char* s;
	};
	static const N want[] = { { RUNGE_KUTTA_5STAGE, NONE, "RUNGE_KUTTA_5STAGE" }, { THETA_METHOD, NONE, "THETA_METHOD" }, { EXPONENTIAL, NONE, "EXPONENTIAL" },
			{ OTHER, FORWARD_EULER, "FORWARD_EULER" }, { OTHER, RK_THIRD_ORDER, "RK_THIRD_ORDER" }, { OTHER, RK_CLASSIC_FOURTH_ORDER, "RK_CLASSIC_FOURTH_ORDER" },
			{ OTHER, BACKWARD_EULER, "BACKWARD_EULER" }, { OTHER, IMPLICIT_MIDPOINT, "IMPLICIT_MIDPOINT" }, { OTHER, CRANK_NICOLSON, "CRANK_NICOLSON" },
			{ OTHER, SDIRK_TWO_STAGES, "SDIRK_TWO_STAGES" }, { OTHER, HEUN_EULER, "HEUN_EULER" }, { OTHER, BOGACKI_SHAMPINE, "BOGACKI_SHAMPINE" }, { OTHER, DOPRI, "DOPRI" },
			{ OTHER, FEHLBERG, "FEHLBERG" }, { OTHER, CASH_KARP, "CASH_KARP" } };
	for (size_t prev = 0; prev <= 15; prev++)
		for (size_t id = 1; id <= 15; id++)
			mc::run_case(mc::cat("integrator ", id, " after ", prev), [=]() {
				TimeIntegratorName t = OTHER;
				DealIntegratorName d = CASH_KARP;
				std::string s = "x";
				if (prev)
					cu::get_integrator_by_id(prev, t, d, s);
				cu::get_integrator_by_id(id, t, d, s);
				mc::check(t == want[id - 1].t && d == want[id - 1].d, "integrator-id", mc::cat("number ", id, " stands for another integrator"));
				mc::check(s == want[id - 1].s, "integrator-name", mc::cat("number ", id, " is called ", s));
				mc::check(cu::get_integrator_name(t, d) == s, "integrator-name", mc::cat("number ", id, " is called ", cu::get_integrator_name(t, d), " and ", s));
				mc::transition();
				mc::state(s);
				mc::outcome("integrator " + s);
			});
	// velocity sets by numbers
	std::set<std::pair<size_t, size_t> > known = { { 2, 9 }, { 2, 25 }, { 3, 15 }, { 3, 19 }, { 3, 27 }, { 3, 45 }, { 3, 13 }, { 3, 21 } };
	for (size_t d = 0; d <= 4; d++)
		for (size_t q = 0; q <= 800; q++) {
			if (q > 130 && q != 777)
				continue;
			mc::run_case(mc::cat("make_stencil d=", d, " q=", q), [=]() {
				for (double x : { 1.0, 0.5, 42.0 }) {
					boost::shared_ptr<Stencil> s;
					bool refused = false;
					try {
						s = cu::make_stencil(d, q, x);
					} catch (cu::CFDSolverUtilitiesException& e) {
						refused = true;
						const std::string w = e.what();
						mc::check(w.find(mc::cat("d=", d)) != std::string::npos && w.find(mc::cat("q=", q)) != std::string::npos, "refusal-names", "the refusal does not name the velocity set: " + w);
					}
					mc::transition();
					mc::outcome(refused ? "refused" : "made");
					mc::check(refused || s, "stencil-null", mc::cat("neither made nor refused: d=", d, " q=", q));
					if (!s) {
						mc::check(!known.count( { d, q }), "stencil-refused", mc::cat("d=", d, " q=", q, " is refused"));
						continue;
					}
					mc::check(s->getD() == d && s->getQ() == q && s->getDirections().size() == q && s->getWeights().size() == q, "stencil-size", mc::cat("d=", d, " q=", q, " makes another velocity set"));
					mc::check_close(s->getScaling(), x, 1e-15 * x, "stencil-scaling", "scaling");
				}
			});
		}
}
// ---------------------------------------------------------------- vectors
template<class VEC> VEC vec(const V& x);
template<> numeric_vector vec<numeric_vector>(const V& x) {
	numeric_vector v(x.size());
	for (size_t i = 0; i < x.size(); i++)
		v(i) = x[i];
	return v;
}
template<> distributed_vector vec<distributed_vector>(const V& x) {
	UNDISTRIBUTED_VECTOR(v, x.size());
	for (size_t i = 0; i < x.size(); i++)
		v(i) = x[i];
	v.compress(dealii::VectorOperation::insert);
	return v;
}
template<> block_vector vec<block_vector>(const V& x) {
	block_vector v(2, 1);
	v.block(1).reinit(x.size() - 1);
	v.collect_sizes();
	for (size_t i = 0; i < x.size(); i++)
		v(i) = x[i];
	return v;
}
template<> distributed_block_vector vec<distributed_block_vector>(const V& x) {
	distributed_block_vector v;
	v.reinit(2);
	v.block(0).reinit(dealii::complete_index_set(1), MPI_COMM_WORLD);
	v.block(1).reinit(dealii::complete_index_set(x.size() - 1), MPI_COMM_WORLD);
	v.collect_sizes();
	for (size_t i = 0; i < x.size(); i++)
		v(i) = x[i];
	v.compress(dealii::VectorOperation::insert);
	return v;
}
template<class VEC> V values(const VEC& v) {
	V r;
	for (size_t i = 0; i < v.size(); i++)
		r.push_back(v(i));
	return r;
}
static bool near(const V& a, const V& b) {
	if (a.size() != b.size())
		return false;
	for (size_t i = 0; i < a.size(); i++)
		if (!mc::close_to(a[i], b[i], 1e-12 * (1 + std::fabs(b[i]))))
			return false;
	return true;
}
static const V grid = { 0, 1, -2, 0.5 };
static void vectors() {
	for (size_t n = 1; n <= 3; n++)
		mc::run_case(mc::cat("vectors of length ", n), [=]() {
			mc::product(std::vector<size_t>(2 * n, grid.size()), [&](const std::vector<size_t>& k) {
				V x, y;
				double dot = 0, xx = 0;
				for (size_t i = 0; i < n; i++) {
					x.push_back(grid[k[i]]);
					y.push_back(grid[k[n + i]]);
					dot += x[i] * y[i];
					xx += x[i] * x[i];
				}
				numeric_vector a = vec<numeric_vector>(x), b = vec<numeric_vector>(y);
				mc::check_close(Math::scalar_product(a, b), dot, 1e-13, "scalar-product", "scalar product");
				mc::check_close(Math::euclidean_norm(a), std::sqrt(xx), 1e-13, "norm", "norm");
				mc::check(near(values(Math::scalar_vector(-1.5, a)), [&] {V r = x; for (double& z : r) z *= -1.5; return r;}()) && near(values(a), x), "scalar-vector", "scalar times vector");
				Math::add_vector(a, b);
				mc::check(near(values(a), [&] {V r = x; for (size_t i = 0; i < n; i++) r[i] += y[i]; return r;}()) && near(values(b), y), "add", "sum");
				Math::subtract_vector(a, b);
				mc::check(near(values(a), x) && near(values(b), y), "subtract", "difference");
				Math::scale_vector(3, a);
				mc::check(near(values(a), [&] {V r = x; for (double& z : r) z *= 3; return r;}()), "scale", "scaled vector");
				if (n == 2) {
					auto t = vectorToTensor<2>(b);
					mc::check(t[0] == y[0] && t[1] == y[1], "tensor", "vector to tensor");
				}
				if (n == 3) {
					auto t = vectorToTensor<3>(b);
					mc::check(t[0] == y[0] && t[1] == y[1] && t[2] == y[2], "tensor", "vector to tensor");
				}
				mc::transition(7);
				mc::state(values(a));
			});
		});
	// norms of velocity fields
	for (size_t dim = 2; dim <= 3; dim++)
		for (size_t n = 1; n <= (dim == 2 ? 3 : 2); n++)
			for (size_t mask = 0; mask < (1u << n); mask++)
				mc::run_case(mc::cat("velocity norms ", dim, "D of ", n, " nodes, owned ", mask), [=]() {
					dealii::IndexSet own(n);
					for (size_t i = 0; i < n; i++)
						if (mask >> i & 1)
							own.add_index(i);
					own.compress();
					mc::product(std::vector<size_t>(dim * n, dim * n > 6 ? 3 : grid.size()), [&](const std::vector<size_t>& k) {
						double mx = 0, sum = 0;
						for (size_t i = 0; i < n; i++) {
							if (!(mask >> i & 1))
								continue;
							double s = 0;
							for (size_t a = 0; a < dim; a++)
								s += grid[k[a * n + i]] * grid[k[a * n + i]];
							mx = std::max(mx, s);
							sum += s;
						}
						std::vector<numeric_vector> u;
						std::vector<distributed_vector> v;
						for (size_t a = 0; a < dim; a++) {
							V x;
							for (size_t i = 0; i < n; i++)
								x.push_back(grid[k[a * n + i]]);
							u.push_back(vec<numeric_vector>(x));
							v.push_back(vec<distributed_vector>(x));
						}
						mc::check_close(Math::maxVelocityNorm(u, own), std::sqrt(mx), 1e-13, "max-norm", "largest velocity (local vectors)");
						mc::check_close(Math::maxVelocityNorm(v, own), std::sqrt(mx), 1e-13, "max-norm-distributed", "largest velocity (distributed vectors)");
						mc::check_close(Math::velocity2Norm(u, own), std::sqrt(sum), 1e-13, "2-norm", "norm of the velocity (local vectors)");
						mc::check_close(Math::velocity2Norm(v, own), std::sqrt(sum), 1e-13, "2-norm-distributed", "norm of the velocity (distributed vectors)");
						mc::transition(4);
						mc::state(V { mx, sum, (double) k[0] });
					});
				});
	// angles
	for (double threshold : { 0.0, 0.5, 1.0, 5.0, 8.0, 10.0, 30.0, 45.0, 60.0, 89.0, 91.0, 135.0, 179.0 })
		mc::run_case(mc::cat("angle threshold ", threshold), [=]() {
			// documentation: without threshold the cosine is compared with 0.99
			const double limit = threshold == 0 ? std::acos(0.99) * 180 / M_PI : threshold;
			for (int base = 0; base < 360; base += 15)
				for (int x = -720; x <= 720; x++)
					for (double len : { 1.0, 1e-4, 300.0 }) {
						const double angle = x * 0.25, b = base * M_PI / 180, c = b + angle * M_PI / 180;
						if (std::fabs(std::fabs(angle) - limit) < 1e-6)
							continue;
						dealii::Tensor<1, 2> p, q;
						p[0] = std::cos(b);
						p[1] = std::sin(b);
						q[0] = len * std::cos(c);
						q[1] = len * std::sin(c);
						const bool small = Math::is_angle_small(p, q, threshold);
						mc::check(small == (std::fabs(angle) < limit), mc::cat("angle-", threshold == 0 ? "default" : "threshold"),
								mc::cat("an angle of ", angle, " degrees is ", small ? "" : "not ", "small by a threshold of ", limit, " degrees"));
						mc::check(small == Math::is_angle_small(q, p, threshold), "angle-symmetric", "the order of the vectors matters");
						mc::transition();
						mc::state(V { (double) x, (double) base, len });
					}
		});
	// keys of maps
	for (double eps : { 1e-6, 1e-7, 1e-3 })
		mc::run_case(mc::cat("double keys, eps ", eps), [=]() {
			V x;
			for (int k = -3; k <= 3; k++)
				for (double j : { -0.3, 0.0, 0.4 })
					x.push_back(k * 2.5 * eps + j * eps);
			for (double z : { 1.0, 1.0 + 0.5 * eps, 1e3, -1e3, 0.1, 0.1 - 0.9 * eps })
				x.push_back(z);
			own_double_less less(eps);
			own_double_less def;
			for (double a : x)
				for (double b : x) {
					const bool w = a < b && std::fabs(a - b) > eps;
					if (std::fabs(std::fabs(a - b) - eps) < 1e-3 * eps)
						continue;
					mc::check(less(a, b) == w, "double-less", mc::cat("comparison of ", a, " and ", b));
					mc::check(!(less(a, b) && less(b, a)), "double-less", "both smaller");
					if (eps == 1e-6)
						mc::check(def(a, b) == w, "double-less-default", mc::cat("comparison of ", a, " and ", b));
					mc::transition();
				}
			// clusters that are further apart than the tolerance: one entry each, in order, whatever the order of insertion
			std::vector<size_t> perm = { 0, 1, 2, 3, 4, 5 };
			V y = { 0, 0.4 * eps, 3 * eps, 3.4 * eps, -5 * eps, 1 };
			do {
				std::map<double, int, own_double_less> m(less);
				for (size_t k : perm)
					m[y[k]]++;
				std::vector<int> c;
				for (auto& e : m)
					c.push_back(e.second);
				mc::check(c == std::vector<int> { 1, 2, 2, 1 }, "double-map", "map with tolerance");
				mc::trace();
			} while (std::next_permutation(perm.begin(), perm.end()));
			mc::state(x);
		});
}
// ---------------------------------------------------------------- matrix with distributed columns
template<class VEC> struct World {
	size_t tag = 1;
	SemiParallelMatrix<VEC> m;
	std::vector<V> ref; // [column][row]
};
static V column(size_t rows, size_t tag) {
	V x;
	for (size_t i = 0; i < rows; i++)
		x.push_back(tag + 0.1 * i);
	return x;
}
template<class VEC> void compressed(VEC&) {
}
template<> void compressed(distributed_vector& v) {
	v.compress(dealii::VectorOperation::insert);
}
template<> void compressed(distributed_block_vector& v) {
	v.compress(dealii::VectorOperation::insert);
}
template<class VEC> void matrix(const std::string& name) {
	typedef World<VEC> W;
	typedef std::pair<std::string, std::function<void(W&)> > Op;
	std::vector<Op> ops;
	for (size_t j = 0; j < 2; j++) {
		ops.push_back(Op(mc::cat("set(", j, ")"), [j](W& w) {
			if (j >= w.ref.size())
				return;
			w.ref[j][w.ref[j].size() - 1 - j] = w.tag;
			w.m.set(w.ref[j].size() - 1 - j, j, w.tag++);
		}));
		ops.push_back(Op(mc::cat("setColumn(", j, ")"), [j](W& w) {
			if (j >= w.ref.size())
				return;
			w.ref[j] = column(w.ref[j].size(), w.tag++);
			VEC c = vec<VEC>(w.ref[j]);
			w.m.setColumn(j, c);
			c(0) = 1e9; // a later change of the source does not matter
		}));
		ops.push_back(Op(mc::cat("column(", j, ")=copy"), [j](W& w) {
			if (j >= w.ref.size())
				return;
			w.ref[j] = w.ref[w.ref.size() - 1];
			w.m.column(j) = w.m.column(w.ref.size() - 1);
		}));
		ops.push_back(Op(mc::cat("column(", j, ")*="), [j](W& w) {
			if (j >= w.ref.size())
				return;
			for (double& z : w.ref[j])
				z *= -2;
			w.m.column(j) *= -2;
		}));
	}
	for (size_t rows : { 2, 4 })
		for (size_t n : { 0, 1, 3 })
			ops.push_back(Op(mc::cat("reinit(", rows, ",", n, ")"), [rows, n](W& w) {
				w.ref.assign(n, V(rows, 0.0));
				w.m.reinit(vec<VEC>(column(rows, 77)), n);
			}));
	ops.push_back(Op("copy", [](W& w) {
		SemiParallelMatrix<VEC> c(w.m);
		if (w.ref.size())
			w.m.set(0, 0, 1e9); // copies share nothing
		w.m = c;
	}));
	ops.push_back(Op("vmult", [](W& w) {
		if (!w.ref.size())
			return;
		V x = column(w.ref.size(), w.tag++), want(w.ref[0].size(), 0.0);
		x[0] = -1;
		for (size_t j = 0; j < x.size(); j++)
			for (size_t i = 0; i < want.size(); i++)
				want[i] += x[j] * w.ref[j][i];
		VEC dst = vec<VEC>(column(want.size(), 55));
		w.m.vmult(dst, vec<numeric_vector>(x));
		mc::check(near(values(dst), want), "matrix:vmult", "product with a vector");
	}));
	const size_t depth = mc::tier<size_t>(3, 4);
	for (size_t first = 0; first < ops.size(); first++)
		mc::run_case(mc::cat("matrix ", name, " ", ops[first].first, " then all sequences"), [&, first]() {
			mc::sequences(ops.size(), depth - 1, [&](const std::vector<size_t>& s) {
				W w;
				w.ref.assign(2, V(3, 0.0));
				w.m = SemiParallelMatrix<VEC>(vec<VEC>(column(3, 9)), 2);
				std::string log = ops[first].first;
				auto verify = [&]() {
					V all;
					for (size_t j = 0; j < w.ref.size(); j++) {
						VEC c = vec<VEC>(column(w.ref[j].size(), 33));
						w.m.getColumn(j, c);
						mc::check(near(values(c), w.ref[j]), "matrix:" + name + ":getColumn", mc::cat("column ", j, " after ", log));
						mc::check(near(values(w.m.column(j)), w.ref[j]), "matrix:" + name + ":column", mc::cat("column ", j, " after ", log));
						for (size_t i = 0; i < w.ref[j].size(); i++)
							mc::check_close(w.m(i, j), w.ref[j][i], 1e-12 * (1 + std::fabs(w.ref[j][i])), "matrix:" + name + ":entry", mc::cat("entry ", i, ",", j, " after ", log));
						all.insert(all.end(), w.ref[j].begin(), w.ref[j].end());
					}
					mc::state(all);
				};
				verify();
				ops[first].second(w);
				verify();
				for (size_t k : s) {
					ops[k].second(w);
					log += ", " + ops[k].first;
					mc::transition();
					verify();
				}
				mc::trace();
			});
		});
	// giving a vector the structure of another one
	mc::run_case("reinitVector " + name, [&]() {
		for (size_t a : { 0, 2, 3, 5 })
			for (size_t b : { 2, 3, 5 }) {
				VEC dst;
				if (a)
					dst = vec<VEC>(column(a, 4));
				VEC src = vec<VEC>(column(b, 8));
				reinitVector(dst, src);
				mc::check(dst.size() == b, "reinit:" + name, mc::cat("size ", dst.size(), " instead of ", b));
				mc::check(near(values(src), column(b, 8)), "reinit:" + name, "the source has changed");
				dst = src;
				mc::check(near(values(dst), values(src)), "reinit:" + name, "assignment after reinit");
				src(0) = -3;
				compressed(src);
				mc::check(near(values(dst), column(b, 8)), "reinit:" + name, "the vectors share memory");
				mc::transition();
			}
	});
}
/// writeable copies of the solver's fields
static void writeable() {
	for (size_t dim = 1; dim <= 3; dim++)
		for (size_t n = 1; n <= 3; n++)
			mc::run_case(mc::cat("writeable copies ", dim, " ", n), [=]() {
				// operations: change node 0 / last node of the copy (component c), apply, take again
				std::vector<size_t> seq;
				mc::sequences(4, 4, [&](const std::vector<size_t>& s) {
					dealii::IndexSet own = dealii::complete_index_set(n);
					std::vector<distributed_vector> member(dim), w;
					distributed_vector rho, wr;
					rho.reinit(own, own, MPI_COMM_WORLD); // ghosted
					rho = vec<distributed_vector>(column(n, 40));
					std::vector<V> rm(dim), rw;
					V mr = column(n, 40), rwr;
					for (size_t c = 0; c < dim; c++) {
						member[c].reinit(own, own, MPI_COMM_WORLD);
						rm[c] = column(n, 10 * c + 1);
						member[c] = vec<distributed_vector>(rm[c]);
					}
					size_t tag = 100;
					auto take = [&]() {
						auto& r = cu::getWriteableVelocity(w, member, own);
						mc::check(&r == &w, "writeable", "another object");
						auto& q = cu::getWriteableDensity(wr, rho, own);
						mc::check(&q == &wr, "writeable", "another object");
						rw = rm;
						rwr = mr;
					};
					take();
					for (size_t k : s) {
						if (k < 2) {
							const size_t c = k ? dim - 1 : 0, i = k ? n - 1 : 0;
							w[c](i) = tag;
							rw[c][i] = tag++;
							w[c].compress(dealii::VectorOperation::insert);
							wr(i) = tag;
							rwr[i] = tag++;
							wr.compress(dealii::VectorOperation::insert);
						} else if (k == 2) {
							cu::applyWriteableVelocity(w, member);
							cu::applyWriteableDensity(wr, rho);
							rm = rw;
							mr = rwr;
						} else
							take();
						mc::transition();
						for (size_t c = 0; c < dim; c++) {
							mc::check(near(values(member[c]), rm[c]), "writeable:velocity", "velocity");
							mc::check(near(values(w[c]), rw[c]), "writeable:velocity-copy", "copy of the velocity");
							mc::state(rw[c]);
						}
						mc::check(near(values(rho), mr), "writeable:density", "density");
						mc::check(near(values(wr), rwr), "writeable:density-copy", "copy of the density");
					}
					mc::trace();
				});
			});
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	names();
	vectors();
	matrix<numeric_vector>("numeric_vector");
	matrix<block_vector>("block_vector");
	matrix<distributed_vector>("distributed_vector");
	matrix<distributed_block_vector>("distributed_block_vector");
	writeable();
	solverSteps<2>();
	solverSteps<3>();
	meshSizes<2>();
	meshSizes<3>();
	mc::finish();
}
