// S19: reported statistics equal the integrals, norms and averages they are named after
#include "flow.h"
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/fe/mapping_q1.h>
#include <deal.II/numerics/data_out.h>
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/solver/ErrorStats.h"
#include "natrium/solver/PhysicalProperties.h"
#include "natrium/solver/TurbulenceStats.h"
#include "natrium/dataprocessors/GlobalTurbulenceStats.h"
#include "natrium/dataprocessors/CompressibleTurbulenceStats.h"
#include "natrium/problemdescription/Benchmark.h"
using namespace natrium;
using namespace fl;
typedef distributed_vector DV;

struct Disc {
	std::string id;
	bool sl;
	size_t p;
	SupportPointsName points;
	QuadratureName quad;
};
static std::vector<Disc> discs(size_t dim) {
	std::vector<Disc> r;
	const size_t top = dim == 2 ? mc::tier<size_t>(3, 5) : mc::tier<size_t>(2, 3);
	for (size_t p = 1; p <= top; p++) {
		r.push_back( { mc::cat("sedg,p", p), false, p, GAUSS_LOBATTO_POINTS, QGAUSS_LOBATTO });
		r.push_back( { mc::cat("sl,p", p), true, p, GAUSS_LOBATTO_POINTS, QGAUSS_LOBATTO });
		if (p > 1 || mc::thorough()) {
			r.push_back( { mc::cat("sl,p", p, ",gauss"), true, p, GAUSS_LOBATTO_POINTS, QGAUSS });
			r.push_back( { mc::cat("sl,p", p, ",equi,gauss"), true, p, EQUIDISTANT_POINTS, QGAUSS });
			r.push_back( { mc::cat("sl,p", p, ",glc"), true, p, GAUSS_LOBATTO_CHEBYSHEV_POINTS, QGAUSS_LOBATTO });
		}
	}
	return r;
}
static void apply(const Disc& d, size_t dim, SolverConfiguration& c) {
	c.setAdvectionScheme(d.sl ? SEMI_LAGRANGIAN : SEDG);
	c.setSupportPoints(d.points);
	c.setQuadrature(d.quad);
	c.setSedgOrderOfFiniteElement(d.p);
	c.setStencil(dim == 2 ? Stencil_D2Q9 : Stencil_D3Q19);
	c.setCFL(0.4);
	c.setNumberOfTimeSteps(3);
}
struct Shape {
	std::string id;
	std::vector<unsigned> cells;
	V length;
	size_t level;
	int map; // 0: box, 1: parallelograms, 2: curved
};
static std::vector<Shape> shapes(size_t dim) {
	if (dim == 2) {
		std::vector<Shape> r = { { "1x1", { 1, 1 }, { 1, 1 }, 0, 0 }, { "2x1", { 2, 1 }, { 2.5, 0.75 }, 0, 0 }, { "sheared2x2", { 1, 1 }, { 1, 2 }, 1, 1 },
				{ "wavy2x2", { 2, 2 }, { 1, 1 }, 0, 2 } };
		if (mc::thorough()) {
			r.push_back( { "3x2", { 3, 2 }, { 1, 3 }, 0, 0 });
			r.push_back( { "wavy4x4", { 1, 1 }, { 2, 1 }, 2, 2 });
		}
		return r;
	}
	std::vector<Shape> r = { { "1x1x1", { 1, 1, 1 }, { 1, 1, 1 }, 0, 0 }, { "sheared1x2x1", { 1, 2, 1 }, { 1, 3, 0.5 }, 0, 1 } };
	if (mc::thorough()) {
		r.push_back( { "2x2x2", { 1, 1, 1 }, { 2, 1, 1 }, 1, 0 });
		r.push_back( { "wavy2x2x2", { 1, 1, 1 }, { 1, 1, 1 }, 1, 2 });
	}
	return r;
}
static void apply(const Shape& s, size_t dim, Spec& sp) {
	sp.level = s.level;
	sp.cells = s.cells;
	sp.length = s.length;
	while (sp.cells.size() < 3) {
		sp.cells.push_back(1);
		sp.length.push_back(1);
	}
	if (s.map) {
		sp.cartesian = false;
		for (size_t k = 0; k < 2 * dim; k++)
			sp.side[k].kind = 'n';
	}
	if (s.map == 1)
		sp.map = [](const V& x) {
			V y = x;
			y[0] = 1.5 * x[0] + 0.4 * x[1];
			y[1] = 0.8 * x[1] - 0.1 * x[0];
			if (x.size() == 3)
			y[2] = x[2] + 0.2 * x[0];
			return y;
		};
	if (s.map == 2)
		sp.map = [](const V& x) {
			V y = x;
			y[0] += 0.07 * std::sin(3 * x[1] + x[0]);
			y[1] += 0.05 * std::cos(2.5 * x[0]);
			if (x.size() == 3)
			y[2] += 0.06 * std::sin(2 * x[0] + x[1]);
			return y;
		};
}
/// own finite element evaluation
template<size_t dim> struct Space {
	const AdvectionOperator<dim>& adv;
	size_t n;
	V mass; // integral of each shape function
	double volume = 0;
	struct Q {
		double w;
		V x;
		std::vector<size_t> dof;
		V v;
		std::vector<V> g;
	};
	std::vector<Q> q; // points of the solver's quadrature
	Space(const AdvectionOperator<dim>& a) :
			adv(a), n(a.getNumberOfDoFs()), mass(n, 0.0) {
		dealii::MappingQ1<dim> map;
		const auto& fe = *adv.getFe();
		std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
		dealii::QGauss<dim> fine(adv.getOrderOfFiniteElement() + 3);
		dealii::FEValues<dim> ev(map, fe, fine, dealii::update_values | dealii::update_JxW_values);
		dealii::FEValues<dim> own(map, fe, *adv.getQuadrature(),
				dealii::update_values | dealii::update_gradients | dealii::update_quadrature_points | dealii::update_JxW_values);
		for (auto c = adv.getDoFHandler()->begin_active(); c != adv.getDoFHandler()->end(); ++c) {
			c->get_dof_indices(dofs);
			ev.reinit(c);
			own.reinit(c);
			for (size_t k = 0; k < fine.size(); k++) {
				volume += ev.JxW(k);
				for (size_t i = 0; i < dofs.size(); i++)
					mass[dofs[i]] += ev.JxW(k) * ev.shape_value(i, k);
			}
			for (size_t k = 0; k < adv.getQuadrature()->size(); k++) {
				Q e;
				e.w = own.JxW(k);
				for (size_t a = 0; a < dim; a++)
					e.x.push_back(own.quadrature_point(k)[a]);
				for (size_t i = 0; i < dofs.size(); i++) {
					e.dof.push_back(dofs[i]);
					e.v.push_back(own.shape_value(i, k));
					V g(dim);
					for (size_t a = 0; a < dim; a++)
						g[a] = own.shape_grad(i, k)[a];
					e.g.push_back(g);
				}
				q.push_back(e);
			}
		}
	}
	template<class T> double value(const Q& e, const T& u) const {
		double r = 0;
		for (size_t i = 0; i < e.dof.size(); i++)
			r += e.v[i] * u(e.dof[i]);
		return r;
	}
	template<class T> V grad(const Q& e, const T& u) const {
		V r(dim, 0.0);
		for (size_t i = 0; i < e.dof.size(); i++)
			for (size_t a = 0; a < dim; a++)
				r[a] += e.g[i][a] * u(e.dof[i]);
		return r;
	}
	/// density of the enstrophy as documented: squared curl in 2D, squared Frobenius norm of the gradient in 3D
	static double enstrophy(const std::vector<V>& g) {
		double r = 0;
		if (dim == 2)
			return (g[1][0] - g[0][1]) * (g[1][0] - g[0][1]);
		for (auto& a : g)
			for (double b : a)
				r += b * b;
		return r;
	}
	void enstrophies(const std::vector<DV>& u, double& e, double& e2) const {
		e = e2 = 0;
		for (auto& k : q) {
			std::vector<V> g;
			for (size_t a = 0; a < dim; a++)
				g.push_back(grad(k, u[a]));
			const double d = enstrophy(g);
			e += k.w * d;
			e2 += k.w * d * d;
		}
	}
};
static bool same(double a, double b, double tol, double scale) {
	return std::isfinite(a) && std::fabs(a - b) <= tol * std::max(scale, std::fabs(b));
}
#define SAME(name, got, want, tol, scale) do { const double g_ = (got), w_ = (want); mc::G().evaluations++; \
	if (!same(g_, w_, tol, scale)) mc::violation(mc::cat(name), mc::cat(name, " is ", g_, " instead of ", w_)); } while (0)

// ---------------------------------------------------------------- integrals of all nodal fields
template<size_t dim> void functionals(const Disc& d, const Shape& s) {
	Spec sp;
	apply(s, dim, sp);
	auto cfg = config([&](SolverConfiguration& c) {
		apply(d, dim, c);
		c.setCFL(0.1);
	});
	CFDSolver<dim> solver(cfg, boost::make_shared<Flow<dim> >(sp));
	auto adv = solver.getAdvectionOperator();
	Space<dim> sps(*adv);
	const size_t n = sps.n;
	const double vol = sps.volume;
	typedef PhysicalProperties<dim> P;
	std::vector<DV> u;
	DV rho, zero;
	CFDSolverUtilities::getWriteableDensity(rho, solver.getDensity(), adv->getLocallyOwnedDofs());
	CFDSolverUtilities::getWriteableVelocity(u, solver.getVelocity(), adv->getLocallyOwnedDofs());
	rho = 0;
	for (auto& v : u)
		v = 0;
	// on curved cells the quadrature of low orders does not resolve the cell volume
	const bool exact = s.map < 2 || d.p >= dim;
	V m = sps.mass;
	if (!exact) {
		m.assign(n, 0.0);
		for (auto& k : sps.q)
			for (size_t i = 0; i < k.dof.size(); i++)
				m[k.dof[i]] += k.w * k.v[i];
	}
	double total = 0;
	for (double x : m)
		total += x;
	const double h = vol / n;
	for (size_t i = 0; i < n; i++) {
		mc::state(V { (double) i });
		rho(i) = 1;
		SAME("mass", P::mass(rho, adv), m[i], 1e-12, h);
		SAME("mean velocity", P::meanVelocityX(rho, adv), m[i] / total, 1e-12, h / vol);
		double min;
		SAME("maximal pressure", P::maximalPressure(rho, 0.5, min), n == 1 ? 0 : 0, 1e-14, 1);
		SAME("minimal pressure", min, n == 1 ? 0 : -0.25, 1e-14, 1);
		rho(i) = 3;
		SAME("maximal pressure", P::maximalPressure(rho, 2, min), 8, 1e-14, 1);
		SAME("minimal pressure", min, n == 1 ? 8 : -4, 1e-14, 1);
		// kinetic energy: every component, all components, and other nodes
		for (size_t a = 0; a < dim; a++) {
			u[a](i) = -2;
			SAME("kinetic energy", P::kineticEnergy(u, rho, adv), 6 * m[i], 1e-12, h);
			u[a](i) = 0;
		}
		for (size_t a = 0; a < dim; a++)
			u[a](i) = a + 1;
		const double k2 = dim == 2 ? 5 : 14;
		SAME("kinetic energy", P::kineticEnergy(u, rho, adv), 0.5 * 3 * k2 * m[i], 1e-12, h);
		for (size_t a = 0; a < dim; a++)
			u[a](i) = 0;
		for (size_t j = 0; j < n; j++)
			if (j != i) {
				u[j % dim](j) = 1;
				rho(j) += 0;
				SAME("kinetic energy", P::kineticEnergy(u, rho, adv), 0, 1e-12, h);
				u[j % dim](j) = 0;
			}
		rho(i) = 0;
		mc::transition();
	}
	// enstrophy is a quadratic form: its values at all basis vectors and all sums of two determine it
	const size_t N = n * dim, limit = mc::tier<size_t>(34, 100);
	double e, e2, got2;
	for (size_t i = 0; i < N; i++) {
		u[i / n](i % n) = 1;
		sps.enstrophies(u, e, e2);
		got2 = -1;
		SAME("enstrophy", P::enstrophy(u, adv, &got2), e, 1e-11, 1e-3);
		SAME("squared enstrophy", got2, e2, 1e-11, 1e-3);
		if (N <= limit)
			for (size_t j = 0; j < i; j++) {
				u[j / n](j % n) -= 1;
				sps.enstrophies(u, e, e2);
				SAME("enstrophy", P::enstrophy(u, adv, &got2), e, 1e-11, 1e-3);
				SAME("squared enstrophy", got2, e2, 1e-11, 1e-3);
				u[j / n](j % n) += 1;
				mc::transition();
			}
		u[i / n](i % n) = 0;
	}
	// entropy: population j of node i changed
	const size_t Q = adv->getStencil()->getQ();
	DistributionFunctions& f = solver.getF();
	const V& w = adv->getStencil()->getWeights();
	for (size_t j = 0; j < Q; j++)
		for (size_t i = 0; i < n; i++)
			f.at(j)(i) = w[j];
	f.updateGhosted();
	SAME("entropy", P::entropy(f, adv), 0, 1e-12, h);
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j < Q; j++) {
			if ((i * Q + j) % mc::tier<size_t>(dim == 3 ? 7 : 3, 1))
				continue; // each node and each direction several times
			f.at(j)(i) = 1.7 * w[j];
			f.updateGhosted();
			SAME("entropy", P::entropy(f, adv), -m[i] * 1.7 * w[j] * std::log(1.7), 1e-11, h);
			f.at(j)(i) = w[j];
			mc::transition();
		}
	f.updateGhosted();
	// largest velocity, largest deviation of the density
	auto& su = const_cast<std::vector<DV>&>(solver.getVelocity());
	auto& sr = const_cast<DV&>(solver.getDensity());
	for (size_t i = 0; i < n; i++) {
		for (auto& v : u)
			v = 0.5;
		u[0](i) = -3;
		u[dim - 1](i) = 4;
		rho = 1.0;
		rho(i) = i % 2 ? 0.8 : 1.3;
		for (size_t a = 0; a < dim; a++)
			su[a] = u[a];
		sr = rho;
		SAME("maximal velocity", solver.getMaxVelocityNorm(), std::sqrt(25 + (dim - 2) * 0.25), 1e-13, 1);
		SAME("deviation of the density", solver.getMaxDensityDeviationFrom(0.9), n == 1 ? std::fabs(rho(i) - 0.9) : i % 2 ? 0.1 : 0.4, 1e-13, 1);
	}
	// polynomials on boxes, against integrals by hand
	if (s.map == 0) {
		const auto& pts = solver.getSupportPoints();
		auto fill = [&](DV& v, const std::vector<size_t>& k) {
			for (size_t i = 0; i < n; i++) {
				double r = 1;
				for (size_t a = 0; a < dim; a++)
				r *= std::pow(pts.at(i)[a], (double) k[a]);
				v(i) = r;
			}
		};
		auto integral = [&](const std::vector<size_t>& k) {
			double r = 1;
			for (size_t a = 0; a < dim; a++)
			r *= std::pow(s.length[a], k[a] + 1.0) / (k[a] + 1);
			return r;
		};
		auto plus = [](std::vector<size_t> a, const std::vector<size_t>& b) {
			for (size_t k = 0; k < a.size(); k++)
			a[k] += b[k];
			return a;
		};
		mc::product(std::vector<size_t>(dim, d.p + 1), [&](const std::vector<size_t>& k) {
			fill(rho, k);
			SAME("mass of a polynomial", P::mass(rho, adv), integral(k), 1e-11, h);
			SAME("mean velocity of a polynomial", P::meanVelocityX(rho, adv), integral(k) / vol, 1e-11, h);
			mc::product(std::vector<size_t>(dim, d.p + 1), [&](const std::vector<size_t>& l) {
						const auto t = plus(k, plus(l, l));
						for (size_t a : t)
						if (a > d.p)
						return;
						for (size_t c = 0; c < dim; c++) {
							for (auto& v : u)
							v = 0;
							fill(u[c], l);
							SAME("kinetic energy of a polynomial", P::kineticEnergy(u, rho, adv), 0.5 * integral(t), 1e-11, h);
						}
						mc::transition();
					});
			// u_c = x^k: sum of squared derivatives that count
			const size_t lim = d.quad == QGAUSS ? d.p : d.p - 1;
			for (size_t a : k)
			if (a > lim)
			return;
			for (size_t c = 0; c < dim; c++) {
				for (auto& v : u)
				v = 0;
				fill(u[c], k);
				double want = 0;
				for (size_t b = 0; b < dim; b++)
				if ((dim == 3 || b != c) && k[b]) {
					auto t = k;
					t[b]--;
					want += k[b] * k[b] * integral(plus(t, t));
				}
				double sq;
				SAME("enstrophy of a polynomial", P::enstrophy(u, adv, &sq), want, 1e-11, h);
				mc::transition();
			}
		});
	}
	mc::outcome("functionals decided");
}
// ---------------------------------------------------------------- plane averages and Reynolds averages
template<size_t dim> struct Patches: public dealii::DataOut<dim> {
	typedef typename dealii::DataOut<dim>::Patch Patch;
	const std::vector<dealii::DataOutBase::Patch<dim, dim> >& patches() const {
		return this->get_patches();
	}
	std::vector<std::string> names() const {
		return this->get_dataset_names();
	}
};
template<size_t dim> void planes(const Disc& d, const Shape& s) {
	Spec sp;
	apply(s, dim, sp);
	auto cfg = config([&](SolverConfiguration& c) {
		apply(d, dim, c);
		c.setCFL(0.1);
	});
	CFDSolver<dim> solver(cfg, boost::make_shared<Flow<dim> >(sp));
	auto adv = solver.getAdvectionOperator();
	const auto& pts = solver.getSupportPoints();
	const auto& owned = adv->getLocallyOwnedDofs();
	const size_t n = adv->getNumberOfDoFs();
	std::vector<DV> u;
	CFDSolverUtilities::getWriteableVelocity(u, solver.getVelocity(), owned);
	auto value = [](size_t i, size_t a) {
		return std::sin(1.0 + 0.37 * i + 2.1 * a) + 0.2 * a;
	};
	for (size_t dir = 0; dir < dim; dir++) {
		std::set<double> coords;
		for (auto& p : pts)
			coords.insert(p.second[dir]);
		// between grid points, too
		const V base(coords.begin(), coords.end());
		for (size_t k = 1; k < base.size(); k++)
			coords.insert(0.7 * base[k] + 0.3 * base[k - 1]);
		for (double y : coords)
			for (double tol : { 1e-9, 0.05, 0.3 }) {
				StatsInPlane<dim> plane(dir, y, u);
				plane.updatePlaneIndices(pts, owned, tol);
				std::vector<size_t> in;
				bool edge = false;
				for (size_t i = 0; i < n; i++) {
					const double gap = std::fabs(pts.at(i)[dir] - y);
					if (std::fabs(gap - tol) < 1e-12)
						edge = true;
					if (gap < tol)
						in.push_back(i);
				}
				if (in.empty() || edge)
					continue;
				for (size_t i = 0; i < n; i++)
					for (size_t a = 0; a < dim; a++)
						u[a](i) = value(i, a);
				auto compare = [&]() {
					V av, rms;
					plane.calculate(av, rms);
					if (!mc::check(av.size() == dim && rms.size() == dim, "plane sizes", "number of components"))
					return;
					for (size_t a = 0; a < dim; a++) {
						double m = 0, r = 0;
						for (size_t i : in)
						m += u[a](i) / in.size();
						for (size_t i : in)
						r += (u[a](i) - m) * (u[a](i) - m) / in.size();
						SAME("plane average", av[a], m, 1e-12, 1);
						SAME("plane rms", rms[a], std::sqrt(r), 1e-11, 1);
					}
					mc::transition();
				};
				compare();
				compare(); // depends on the fields only
				for (size_t i = 0; i < n; i++) { // every node alone: in the plane or not
					for (size_t a = 0; a < dim; a++)
						u[a] = 0;
					for (size_t a = 0; a < dim; a++)
						u[a](i) = a + 1;
					V av, rms;
					plane.calculate(av, rms);
					const bool member = std::find(in.begin(), in.end(), i) != in.end();
					for (size_t a = 0; a < dim; a++)
						SAME("plane average", av[a], member ? (a + 1.0) / in.size() : 0, 1e-12, 1);
				}
				mc::state(V { (double) dir, y, tol });
			}
	}
	// Reynolds averages: every sequence of added fields
	const size_t kinds = 3;
	auto field = [&](size_t k, size_t a, const dealii::Point<dim>& x) {
		double r = k == 0 ? 1 + a : k == 1 ? x[0] * (a + 1) - 0.5 * x[1] : 1 - x[dim - 1] * (a + 0.3);
		return r;
	};
	mc::sequences(kinds, mc::tier<size_t>(3, 5), [&](const std::vector<size_t>& seq) {
		TurbulenceStats<dim> ts(&solver, 0, V { 0.5 });
		for (size_t k : seq) {
			for (size_t a = 0; a < dim; a++)
			for (size_t i = 0; i < n; i++)
			u[a](i) = field(k, a, pts.at(i));
			ts.addToReynoldsStatistics(u);
		}
		if (seq.empty())
		return;
		Patches<dim> out;
		out.attach_dof_handler(*adv->getDoFHandler());
		ts.addReynoldsStatisticsToOutput(out);
		out.build_patches(1);
		const auto names = out.names();
		const std::vector<std::string> want = dim == 2 ? std::vector<std::string> {"ux_average", "uy_average"} : std::vector<std::string> {"ux_average", "uy_average", "uz_average"};
		mc::check(names == want, "names of averages", "names of the averages");
		for (auto& p : out.patches())
		for (size_t v = 0; v < (1u << dim); v++)
		for (size_t a = 0; a < dim; a++) {
			double m = 0;
			for (size_t k : seq)
			m += field(k, a, p.vertices[v]) / seq.size();
			SAME("Reynolds average", p.data(a, v), m, 1e-6, 1);
		}
		mc::transition();
	});
	mc::outcome("planes decided");
}
// ---------------------------------------------------------------- tables and histories of evaluation
template<size_t dim> class Case: public Benchmark<dim> {
	Spec m_s;
	class F: public dealii::Function<dim> {
		bool m_rho;
	public:
		F(bool rho) :
				dealii::Function<dim>(rho ? 1 : dim), m_rho(rho) {
		}
		virtual double value(const dealii::Point<dim>& x, const unsigned int c = 0) const {
			const double t = this->get_time();
			if (m_rho)
				return 1 + 0.02 * std::sin(2 * M_PI * x[0]) + 0.1 * t;
			return 0.05 * (c + 1) * std::cos(2 * M_PI * x[1] + c) + 0.03 * std::sin(2 * M_PI * x[0]) * (1 - t) + 0.02 * t * x[dim - 1];
		}
	};
	static boost::shared_ptr<Mesh<dim> > grid() {
		auto m = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
		dealii::GridGenerator::hyper_cube(*m, 0.0, 1.0, true);
		return m;
	}
public:
	Case() :
			Benchmark<dim>(grid(), 0.05, 1.0) {
		auto bc = boost::make_shared<BoundaryCollection<dim> >();
		for (size_t a = 0; a < dim; a++)
			bc->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(2 * a, 2 * a + 1, a, this->getMesh()));
		this->setBoundaries(bc);
		this->setAnalyticRho(boost::make_shared<F>(true));
		this->setAnalyticU(boost::make_shared<F>(false));
	}
	virtual void refine(Mesh<dim>& mesh) {
		mesh.refine_global(1);
	}
	virtual void transform(Mesh<dim>&) {
	}
	virtual bool isCartesian() {
		return true;
	}
	/// the functions again, without the shared time
	static double rho(const V& x, double t) {
		return 1 + 0.02 * std::sin(2 * M_PI * x[0]) + 0.1 * t;
	}
	static double u(const V& x, size_t c, double t) {
		return 0.05 * (c + 1) * std::cos(2 * M_PI * x[1] + c) + 0.03 * std::sin(2 * M_PI * x[0]) * (1 - t) + 0.02 * t * x[dim - 1];
	}
};
typedef std::map<std::string, double> Row;
static std::vector<std::vector<double> > table(const std::string& file, std::string& header) {
	std::vector<std::vector<double> > r;
	std::ifstream f(file);
	std::string l;
	header = "";
	while (std::getline(f, l)) {
		if (l.size() && l[0] == '#') {
			header += l;
			continue;
		}
		std::istringstream s(l);
		V v;
		std::string x;
		while (s >> x)
			v.push_back(std::strtod(x.c_str(), nullptr));
		if (v.size())
			r.push_back(v);
	}
	return r;
}
/// all statistics of the current fields, by name
template<size_t dim> Row reference(const Space<dim>& s, const CFDSolver<dim>& solver) {
	Row r;
	const DV& rho = solver.getDensity();
	const std::vector<DV>& u = solver.getVelocity();
	const double t = solver.getTime();
	const size_t n = s.n, Q = solver.getStencil()->getQ();
	const double cs2 = solver.getStencil()->getSpeedOfSoundSquare();
	r["i"] = solver.getIteration();
	r["t"] = t;
	double maxu = 0, mass = 0, kin = 0, ux = 0, ent = 0, maxr = -1e300, minr = 1e300, ana = 0, eu = 0, er = 0;
	for (size_t i = 0; i < n; i++) {
		double k = 0, a2 = 0, e2 = 0;
		V x(dim);
		for (size_t a = 0; a < dim; a++)
			x[a] = solver.getSupportPoints().at(i)[a];
		for (size_t a = 0; a < dim; a++) {
			k += u[a](i) * u[a](i);
			const double v = Case<dim>::u(x, a, t);
			a2 += v * v;
			e2 += (v - u[a](i)) * (v - u[a](i));
		}
		maxu = std::max(maxu, std::sqrt(k));
		ana = std::max(ana, std::sqrt(a2));
		eu = std::max(eu, std::sqrt(e2));
		er = std::max(er, std::fabs(rho(i) - Case<dim>::rho(x, t)));
		mass += s.mass[i] * rho(i);
		kin += 0.5 * s.mass[i] * rho(i) * k;
		ux += s.mass[i] * u[0](i) / s.volume;
		maxr = std::max(maxr, rho(i));
		minr = std::min(minr, rho(i));
		for (size_t q = 0; q < Q; q++)
			ent -= s.mass[i] * solver.getF().at(q)(i) * std::log(solver.getF().at(q)(i) / solver.getStencil()->getWeight(q));
	}
	r["max |u_numeric|"] = maxu;
	r["mass"] = mass;
	r["kinE"] = kin;
	r["entropy"] = ent;
	r["maxP"] = (maxr - 1) * cs2;
	r["minP"] = (minr - 1) * cs2;
	r["mean(ux)"] = ux;
	s.enstrophies(u, r["enstrophy"], r["enstr^2"]);
	r["max |u_analytic|"] = ana;
	r["max |error_u|"] = eu;
	r["max |error_rho|"] = er;
	double l2u = 0, l2r = 0;
	const char* xyz = "xyz";
	for (auto& q : s.q) {
		Row p;
		p["rho"] = s.value(q, rho);
		const V gr = s.grad(q, rho);
		l2r += q.w * std::pow(p["rho"] - Case<dim>::rho(q.x, t), 2);
		std::vector<V> g;
		double e = 0, w = 0;
		for (size_t a = 0; a < dim; a++) {
			p[std::string("drho/d") + xyz[a]] = gr[a];
			const double v = s.value(q, u[a]);
			p[std::string("u") + xyz[a]] = v;
			e += 0.5 * v * v;
			l2u += q.w * std::pow(v - Case<dim>::u(q.x, a, t), 2);
			g.push_back(s.grad(q, u[a]));
			for (size_t b = 0; b < dim; b++)
				p[std::string("du") + xyz[a] + "/d" + xyz[b]] = g[a][b];
		}
		for (size_t a = 0; a < dim; a++)
			for (size_t b = 0; b < a; b++)
				w += std::pow(g[a][b] - g[b][a], 2);
		for (auto& a : p) {
			r["< " + a.first + " >"] += q.w * a.second;
			r["< " + a.first + "^3 >"] += q.w * std::pow(a.second, 3);
			r["< " + a.first + "^4 >"] += q.w * std::pow(a.second, 4);
			for (auto& b : p)
				r["< " + a.first + " " + b.first + " >"] += q.w * a.second * b.second;
		}
		r["<energy>"] += q.w * e;
		r["<energy^2>"] += q.w * e * e;
		r["<enstrophy>"] += q.w * w;
		r["<enstrophy^2>"] += q.w * w * w;
	}
	r["||error_u||_2"] = std::sqrt(l2u);
	r["||error_rho||_2"] = std::sqrt(l2r);
	return r;
}
template<size_t dim> struct Probe: public DataProcessor<dim> {
	std::function<void()> f;
	Probe(CFDSolver<dim>& s) :
			DataProcessor<dim>(s) {
	}
	virtual void apply() {
		f();
	}
};
static const std::vector<std::string> RESULTS = { "i", "t", "max |u_numeric|", "mass", "kinE", "enstrophy", "entropy", "maxP", "minP", "residuum(rho)", "residuum(u)",
		"mean(ux)", "enstr^2" };
static const std::vector<std::string> ERRORS = { "i", "t", "max |u_analytic|", "max |error_u|", "max |error_rho|", "||error_u||_2", "||error_rho||_2" };
static std::vector<std::string> legend(const std::string& file) {
	std::ifstream f(file);
	std::string l;
	std::vector<std::string> r;
	while (std::getline(f, l)) {
		std::istringstream s(l);
		long k = -1;
		s >> k;
		std::string n;
		std::getline(s, n);
		while (n.size() && n[0] == ' ')
			n.erase(0, 1);
		while (n.size() && n.back() == ' ')
			n.pop_back();
		if (k >= 1 && k < 10000) {
			if ((long) r.size() < k)
				r.resize(k);
			if (r[k - 1] != "")
				mc::violation("legend", mc::cat("the legend names column ", k, " twice"));
			r[k - 1] = n;
		} else
			mc::violation("legend", mc::cat("the legend has no column number in '", l, "'"));
	}
	return r;
}
static void compare(const std::string& what, const std::vector<std::vector<double> >& rows, const std::vector<std::string>& names, const std::map<size_t, Row>& want,
		size_t interval, size_t last, size_t first = 0) {
	size_t k = 0;
	for (size_t i = first; i <= last; i++) {
		if (i % interval || !want.count(i))
			continue;
		if (!mc::check(k < rows.size(), what + ": rows", mc::cat(what, ": no row for iteration ", i)))
			return;
		const V& row = rows[k++];
		if (!mc::check(row.size() == names.size(), what + ": columns", mc::cat(what, ": ", row.size(), " columns for ", names.size(), " names")))
			return;
		for (size_t c = 0; c < names.size(); c++) {
			auto w = want.at(i).find(names[c]);
			if (w == want.at(i).end()) {
				if (names[c].substr(0, 8) != "residuum")
					mc::violation(what + ": " + names[c], mc::cat(what, ": column '", names[c], "' has no meaning"));
				continue;
			}
			SAME(what + ": " + names[c], row[c], w->second, 2e-5, 1e-9);
		}
	}
	mc::check(k == rows.size(), what + ": rows", mc::cat(what, ": ", rows.size(), " rows instead of ", k));
}
/// one run: interval of the tables; in each iteration, a set of statistics is asked for
template<size_t dim> void run(const Disc& d, size_t interval, const std::vector<size_t>& ask, bool output) {
	const std::string dir = fresh("s19");
	size_t p = 0;
	auto cfg = config([&](SolverConfiguration& c) {
		apply(d, dim, c);
		c.setNumberOfTimeSteps(ask.size());
		c.setSwitchOutputOff(!output);
		c.setOutputDirectory(dir);
		c.setOutputTableInterval(interval);
		c.setOutputTurbulenceStatistics(true);
		c.setWallNormalDirection(1);
		c.setWallNormalCoordinates(d.p > 1 ? V {0.0, 0.5, 0.25} : V {0.5, 0.0, 1.0});
		c.setOutputGlobalTurbulenceStatistics(true);
	});
	BenchmarkCFDSolver<dim> solver(cfg, boost::make_shared<Case<dim> >());
	Space<dim> space(*solver.getAdvectionOperator());
	GlobalTurbulenceStats<dim> global(solver);
	TurbulenceStats<dim> turb(&solver, 1, V { 0.0, 0.5 });
	std::map<size_t, Row> want;
	std::map<size_t, Snapshot> seen;
	const double tol = 0.5 * CFDSolverUtilities::getMinimumDoFDistanceGLL<dim>(*solver.getProblemDescription()->getMesh(), d.p);
	auto record = [&]() {
		seen[solver.getIteration()] = snapshot<dim>(solver);
		Row r = reference<dim>(space, solver);
		for (double y : {0.0, 0.5, d.p > 1 ? 0.25 : 1.0})
		for (size_t a = 0; a < dim; a++) {
			double m = 0, v = 0, k = 0;
			for (size_t i = 0; i < space.n; i++)
			if (std::fabs(solver.getSupportPoints().at(i)[1] - y) < tol) {
				m += solver.getVelocity().at(a)(i);
				k++;
			}
			m /= k;
			for (size_t i = 0; i < space.n; i++)
			if (std::fabs(solver.getSupportPoints().at(i)[1] - y) < tol)
			v += std::pow(solver.getVelocity().at(a)(i) - m, 2) / k;
			r[mc::cat("u", a, "_av(y=", y, ")")] = m;
			r[mc::cat("u", a, "_rms(y=", y, ")")] = std::sqrt(v);
		}
		want[solver.getIteration()] = r;
	};
	record();
	auto evaluate = [&](size_t set) {
		const Row& r = want[solver.getIteration()];
		auto at = [&](const std::string& n) {return r.at(n);};
		if (set & 1) {
			auto& s = *solver.getSolverStats();
			s.update();
			SAME("getMass", s.getMass(), at("mass"), 1e-10, 1);
			SAME("getKinE", s.getKinE(), at("kinE"), 1e-10, 1e-3);
			SAME("getEnstrophy", s.getEnstrophy(), at("enstrophy"), 1e-10, 1e-3);
			SAME("getEntropy", s.getEntropy(), at("entropy"), 1e-10, 1e-3);
			SAME("getMaxU", s.getMaxU(), at("max |u_numeric|"), 1e-10, 1e-3);
			SAME("getMaxP", s.getMaxP(), at("maxP"), 1e-10, 1e-3);
			SAME("getMinP", s.getMinP(), at("minP"), 1e-10, 1e-3);
			SAME("getMeanVelocityX", s.getMeanVelocityX(), at("mean(ux)"), 1e-10, 1e-3);
			SAME("getTime", s.getTime(), solver.getTime(), 0, 1);
			mc::check(s.getIterationNumber() == solver.getIteration() && s.isUpToDate(), "getIterationNumber", "iteration of the statistics");
		}
		if (set & 2) {
			auto& s = *solver.getErrorStats();
			s.update();
			SAME("getMaxUAnalytic", s.getMaxUAnalytic(), at("max |u_analytic|"), 1e-10, 1e-3);
			SAME("getMaxVelocityError", s.getMaxVelocityError(), at("max |error_u|"), 1e-10, 1e-3);
			SAME("getMaxDensityError", s.getMaxDensityError(), at("max |error_rho|"), 1e-10, 1e-3);
			SAME("getL2VelocityError", s.getL2VelocityError(), at("||error_u||_2"), 1e-10, 1e-3);
			SAME("getL2DensityError", s.getL2DensityError(), at("||error_rho||_2"), 1e-10, 1e-3);
			SAME("getTime", s.getTime(), solver.getTime(), 0, 1);
			mc::check(s.getIterationNumber() == solver.getIteration() && s.isUpToDate(), "getIterationNumber", "iteration of the errors");
		}
		if (set & 4) {
			global.calculate();
			const auto& n = global.getNames();
			for (size_t k = 0; k < n.size(); k++) {
				SAME("average of " + n[k], global.getAverages().at(k), at("< " + n[k] + " >"), 1e-10, 1e-3);
				SAME("third moment of " + n[k], global.getEx3().at(k), at("< " + n[k] + "^3 >"), 1e-10, 1e-3);
				SAME("fourth moment of " + n[k], global.getEx4().at(k), at("< " + n[k] + "^4 >"), 1e-10, 1e-3);
				for (size_t l = 0; l <= k; l++)
				SAME("correlation of " + n[k] + " and " + n[l], global.getCorrelations().at(k).at(l), at("< " + n[k] + " " + n[l] + " >"), 1e-10, 1e-3);
			}
		}
		if (set & 8) {
			turb.update();
			mc::check(turb.isUpToDate(), "plane statistics up to date", "plane statistics are not up to date");
			std::vector<DV> u;
			CFDSolverUtilities::getWriteableVelocity(u, solver.getVelocity(), solver.getAdvectionOperator()->getLocallyOwnedDofs());
			turb.addToReynoldsStatistics(u);
		}
		mc::transition();
	};
	auto probe = boost::make_shared<Probe<dim> >(solver);
	probe->f = [&]() {
		record();
		evaluate(ask[solver.getIteration() - 1]);
		const Snapshot now = snapshot<dim>(solver);
		mc::check(now.distance(seen[solver.getIteration()]) == 0, "solution changed", "asking for statistics changes the solution");
	};
	if (ask.size())
		evaluate(ask[0]);
	solver.appendDataProcessor(probe);
	solver.run();
	// the same run without questions
	if (p == 0) {
		auto c2 = config([&](SolverConfiguration& c) {
			apply(d, dim, c);
			c.setNumberOfTimeSteps(ask.size());
		});
		BenchmarkCFDSolver<dim> other(c2, boost::make_shared<Case<dim> >());
		auto rec = boost::make_shared<Recorder<dim> >(other);
		other.appendDataProcessor(rec);
		other.run();
		for (auto& s : rec->seen) {
			mc::check(seen.count(s.first) && seen[s.first].distance(s.second) == 0, "solution depends on statistics",
					mc::cat("the solution at iteration ", s.first, " depends on the statistics that were asked for"));
			s.second.hash();
		}
		mc::check(seen.size() == rec->seen.size() + 1, "solution depends on statistics", "number of iterations");
	}
	auto path = [&](const char* f) {return dir + "/" + f;};
	if (!output) {
		for (auto f : { "results_table.txt", "errors_table.txt", "turbulence_table.txt", "global_turbulence_table.txt" })
			mc::check(!boost::filesystem::exists(path(f)), mc::cat("output off: ", f), mc::cat(f, " was written though output is switched off"));
		return;
	}
	std::string h;
	const size_t last = ask.size();
	compare("results table", table(path("results_table.txt"), h), RESULTS, want, interval, last);
	for (auto& nm : RESULTS)
		mc::check(h.find(nm) != std::string::npos || nm == "enstrophy", "results table header", "header has no " + nm + ": " + h);
	compare("errors table", table(path("errors_table.txt"), h), ERRORS, want, interval, last);
	for (auto& nm : ERRORS)
		mc::check(h.find(nm) != std::string::npos, "errors table header", "header has no " + nm + ": " + h);
	auto t = table(path("turbulence_table.txt"), h);
	std::vector<std::string> names;
	std::istringstream hs(h);
	std::string x;
	hs >> x;
	while (hs >> x)
		names.push_back(x);
	mc::check(names.size() == 2 + 6 * dim, "turbulence table header", "header: " + h);
	compare("turbulence table", t, names, want, interval, last);
	auto l = legend(path("global_turbulence_table.legend"));
	for (auto& nm : l) {
		if (nm == "iteration")
			nm = "i";
		if (nm == "time")
			nm = "t";
	}
	const size_t no = 1 + dim + dim + dim * dim;
	mc::check(l.size() == 2 + 3 * no + no * (no + 1) / 2 + 4, "legend", mc::cat("the legend names ", l.size(), " columns"));
	auto gt = table(path("global_turbulence_table.txt"), h);
	compare("global turbulence table", gt, l, want, interval, last, 1);
	mc::outcome("tables decided");
}
// ---------------------------------------------------------------- compressible statistics
template<size_t dim> void compressible(double gamma, double scaling, size_t interval, size_t p) {
	const std::string dir = fresh("s19");
	Spec sp;
	sp.level = 1;
	general(sp, 0.05);
	sp.visc = 0.05;
	auto cfg = config([&](SolverConfiguration& c) {
		c.setAdvectionScheme(SEMI_LAGRANGIAN);
		c.setSedgOrderOfFiniteElement(p);
		c.setStencil(dim == 2 ? Stencil_D2Q25H : Stencil_D3Q45);
		c.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);
		c.setStencilScaling(scaling);
		c.setHeatCapacityRatioGamma(gamma);
		c.setCFL(0.2);
		c.setNumberOfTimeSteps(3);
		c.setSwitchOutputOff(false);
		c.setOutputDirectory(dir);
		c.setOutputTableInterval(interval);
		c.setOutputCompressibleTurbulenceStatistics(true);
	});
	CompressibleCFDSolver<dim> solver(cfg, boost::make_shared<Flow<dim> >(sp));
	Space<dim> s(*solver.getAdvectionOperator());
	std::map<size_t, Row> want;
	auto probe = boost::make_shared<Probe<dim> >(solver);
	probe->f = [&]() {
		Row& r = want[solver.getIteration()];
		r["i"] = solver.getIteration();
		r["t"] = solver.getTime();
		const auto& u = solver.getVelocity();
		const double cs2 = solver.getStencil()->getSpeedOfSoundSquare();
		double mach = 0;
		for (auto& q : s.q) {
			std::vector<V> g;
			double u2 = 0, div = 0, w = 0;
			for (size_t a = 0; a < dim; a++) {
				g.push_back(s.grad(q, u[a]));
				div += g[a][a];
				u2 += std::pow(s.value(q, u[a]), 2);
			}
			for (size_t a = 0; a < dim; a++)
			for (size_t b = 0; b < a; b++)
			w += std::pow(g[a][b] - g[b][a], 2);
			const double T = s.value(q, solver.getTemperature()), rho = s.value(q, solver.getDensity());
			const double mu = 1.402 * std::pow(T, 1.5) / (T + 0.40417);
			r["dilatation"] += q.w * mu * div * div;
			r["solenoidal"] += q.w * mu * w;
			r["totalEnergy"] += q.w * rho * (0.5 * u2 + cs2 * T / (gamma - 1));
			mach = std::max(mach, std::sqrt(u2 / (gamma * T * cs2)));
		}
		r["maxMach"] = mach;
		mc::transition();
		snapshot<dim>(solver).hash();
	};
	solver.appendDataProcessor(probe);
	solver.run();
	auto l = legend(dir + "/compressible_turbulence_table.legend");
	for (auto& n : l) {
		std::string m;
		for (char c : n)
			if (c != '<' && c != '>' && c != ' ')
				m += c;
		n = m == "iteration" || m == "timestep" ? "i" : m == "time" ? "t" : m;
	}
	std::string h;
	compare("compressible turbulence table", table(dir + "/compressible_turbulence_table.txt", h), l, want, interval, 3, 1);
	mc::outcome("compressible tables decided");
}
template<size_t dim> void explore() {
	for (auto& d : discs(dim))
		for (auto& s : shapes(dim)) {
			if (!d.sl && s.map && dim == 3 && !mc::thorough())
				continue;
			mc::run_case(mc::cat("functionals:", dim, "d,", d.id, ",", s.id), [&]() {functionals<dim>(d, s);});
			mc::run_case(mc::cat("planes:", dim, "d,", d.id, ",", s.id), [&]() {planes<dim>(d, s);});
		}
	for (auto& d : discs(dim)) {
		if (d.p > 2 || (dim == 3 && d.p > 1))
			continue;
		for (size_t interval = 1; interval <= 4; interval++)
			mc::run_case(mc::cat("tables:", dim, "d,", d.id, ",interval", interval), [&]() {run<dim>(d, interval, {15, 15, 15, 15}, true);});
		mc::run_case(mc::cat("nofiles:", dim, "d,", d.id), [&]() {run<dim>(d, 1, {15, 15, 15}, false);});
		if (d.points != GAUSS_LOBATTO_POINTS || d.quad != QGAUSS_LOBATTO || (dim == 3 && !d.sl))
			continue;
		// histories of evaluation
		const size_t sets = mc::tier<size_t>(dim == 3 ? 0 : 4, 16);
		mc::product(std::vector<size_t>(mc::thorough() ? 2 : 3, sets), [&](const std::vector<size_t>& k) {
			std::vector<size_t> ask;
			for (size_t x : k)
			ask.push_back(mc::thorough() ? x : x == 0 ? 0 : x == 1 ? 5 : x == 2 ? 10 : 15);
			for (size_t interval = 1; interval <= 2; interval++)
			mc::run_case(mc::cat("history:", dim, "d,", d.id, ",interval", interval, ",", ask[0], "-", ask[1], ask.size() > 2 ? mc::cat("-", ask[2]) : ""),
					[&]() {run<dim>(d, interval, ask, true);});
		});
	}
	for (double gamma : { 1.4, 1.2 })
		for (double scaling : { 1.0, 1.7 })
			for (size_t interval = 1; interval <= 2; interval++)
				for (size_t p = 1; p <= (dim == 3 ? mc::tier<size_t>(1, 2) : mc::tier<size_t>(2, 4)); p++)
					mc::run_case(mc::cat("compressible:", dim, "d,gamma", gamma, ",scaling", scaling, ",interval", interval, ",p", p),
							[&]() {compressible<dim>(gamma, scaling, interval, p);});
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	mc::init(argc, argv);
	explore<2>();
	explore<3>();
	mc::finish();
}
