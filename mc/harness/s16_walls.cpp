// S16: walls: every arrangement of wall kinds around a box keeps a fluid at rest and one that moves with its walls;
// prescribed velocities act at the point and time of the hit; the discontinuous Galerkin walls conserve mass
#include "flow.h"
#include "collide.h"
#include "natrium/advection/SEDGMinLee.h"
#include "natrium/advection/SemiLagrangian.h"
#include <deal.II/fe/fe_values.h>
using namespace natrium;
using namespace fl;

/// velocity linear in position and time; records where and when it is evaluated
struct Call {
	V x;
	double t;
	size_t side;
};
template<size_t dim> class WallVelocity: public dealii::Function<dim> {
public:
	V a;
	std::vector<V> B;
	V d;
	size_t side;
	mutable std::vector<Call>* calls;
	WallVelocity(size_t s, std::vector<Call>* c) :
			dealii::Function<dim>(dim), a(dim, 0.0), B(dim, V(dim, 0.0)), d(dim, 0.0), side(s), calls(c) {
	}
	double at(const V& x, double t, size_t c) const {
		double r = a[c] + d[c] * t;
		for (size_t j = 0; j < dim; j++)
			r += B[c][j] * x[j];
		return r;
	}
	virtual double value(const dealii::Point<dim>& p, const unsigned int c = 0) const {
		V x(dim);
		for (size_t j = 0; j < dim; j++)
			x[j] = p[j];
		if (calls && c == 0)
			calls->push_back( { x, this->get_time(), side });
		return at(x, this->get_time(), c);
	}
	virtual void vector_value(const dealii::Point<dim>& p, dealii::Vector<double>& v) const {
		for (size_t c = 0; c < dim; c++)
			v(c) = value(p, c);
	}
};
struct MeshSpec {
	const char* name;
	V L;
	std::vector<unsigned> cells;
	size_t level;
	int map; // 0 none, 1 stretched, 2 wavy inside, 3 affine (only without periodic sides)
};
template<size_t dim> V affine(const V& x) {
	V y = x;
	y[0] = x[0] + 0.2 * x[1];
	y[1] = x[1] - 0.15 * x[0];
	if (dim == 3)
		y[2] = x[2] + 0.1 * x[0] - 0.07 * x[1];
	return y;
}
template<size_t dim> V unaffine(const V& y) {
	// two variables, then the third
	const double det = 1 + 0.2 * 0.15;
	V x = y;
	x[0] = (y[0] - 0.2 * y[1]) / det;
	x[1] = (y[1] + 0.15 * y[0]) / det;
	if (dim == 3)
		x[2] = y[2] - 0.1 * x[0] + 0.07 * x[1];
	return x;
}
template<size_t dim> class Box: public ProblemDescription<dim> {
	MeshSpec m_m;
	static boost::shared_ptr<Mesh<dim> > grid(const MeshSpec& s) {
		auto m = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
		dealii::Point<dim> a, b;
		for (size_t k = 0; k < dim; k++)
			b[k] = s.L[k];
		dealii::GridGenerator::subdivided_hyper_rectangle(*m, std::vector<unsigned>(s.cells.begin(), s.cells.begin() + dim), a, b, true);
		return m;
	}
public:
	std::string kinds;
	std::array<boost::shared_ptr<WallVelocity<dim> >, 6> f;
	std::vector<Call> calls;
	/// kinds: one letter per side, p: periodic
	Box(const MeshSpec& m, const std::string& k, const V& u, bool functions) :
			ProblemDescription<dim>(grid(m), 0.1, 1.0), m_m(m), kinds(k) {
		auto bc = boost::make_shared<BoundaryCollection<dim> >();
		dealii::Vector<double> v(dim);
		for (size_t c = 0; c < dim; c++)
			v(c) = u[c];
		for (size_t s = 0; s < 2 * dim; s++) {
			if (k[s] == 'p') {
				if (s % 2 == 0)
					bc->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(s, s + 1, s / 2, this->getMesh()));
				continue;
			}
			boost::shared_ptr<Boundary<dim> > b;
			f[s] = boost::make_shared<WallVelocity<dim> >(s, &calls);
			f[s]->a = V(u.begin(), u.begin() + dim);
			if (functions) {
				for (size_t c = 0; c < dim; c++) {
					f[s]->a[c] = 0.01 * (c + 1) - 0.003 * s;
					f[s]->d[c] = 0.02 - 0.005 * c + 0.002 * s;
					for (size_t j = 0; j < dim; j++)
						f[s]->B[c][j] = 0.01 * (1 + c) - 0.007 * j + 0.001 * s;
				}
			}
			switch (k[s]) {
			case 'n':
				if (functions)
					b = boost::make_shared<VelocityNeqBounceBack<dim> >(s, f[s]);
				else
					b = boost::make_shared<VelocityNeqBounceBack<dim> >(s, v);
				break;
			case 'b':
				b = boost::make_shared<SLFirstOrderBounceBack<dim> >(s);
				break;
			case 'e':
				b = boost::make_shared<SLEquilibriumBoundary<dim> >(s, v);
				break;
			case 'd':
				b = boost::make_shared<DoNothingBoundary<dim> >(s);
				break;
			}
			bc->addBoundary(b);
		}
		this->setBoundaries(bc);
		this->setInitialU(boost::make_shared<Fun<dim> >([u](const V&, size_t c) {return u[c];}, dim));
	}
	virtual void refine(Mesh<dim>& mesh) {
		if (m_m.level)
			mesh.refine_global(m_m.level);
	}
	virtual void transform(Mesh<dim>& mesh) {
		if (!m_m.map)
			return;
		const MeshSpec m = m_m;
		dealii::GridTools::transform([m](const dealii::Point<dim>& p) {
			V x(dim);
			for (size_t a = 0; a < dim; a++)
				x[a] = p[a];
			V y = x;
			for (size_t a = 0; a < dim; a++) {
				if (m.map == 1)
					y[a] = x[a] + (0.3 - 0.1 * a) * x[a] * (m.L[a] - x[a]) / m.L[a];
				if (m.map == 2) {
					double q = 0.05 * m.L[a];
					for (size_t b = 0; b < dim; b++)
						q *= std::sin(2 * M_PI * x[b] / m.L[b]);
					y[a] = x[a] + q;
				}
			}
			if (m.map == 3)
				y = affine<dim>(x);
			dealii::Point<dim> r;
			for (size_t a = 0; a < dim; a++)
				r[a] = y[a];
			return r;
		}, mesh);
	}
	virtual bool isCartesian() {
		return m_m.map < 2;
	}
};
/// second order equilibrium with density one
inline double feq2(const Stencil& st, size_t a, const V& u) {
	const double c2 = st.getSpeedOfSoundSquare();
	double eu = 0, uu = 0;
	for (size_t k = 0; k < st.getD(); k++) {
		eu += st.getDirection(a)[k] * u[k];
		uu += u[k] * u[k];
	}
	return st.getWeight(a) * (1 + eu / c2 + eu * eu / (2 * c2 * c2) - uu / (2 * c2));
}
/// fourth order Hermite equilibrium with density and temperature one
inline double feq4(const Stencil& st, size_t a, const V& u) {
	const double c2 = st.getSpeedOfSoundSquare();
	double eu = 0, uu = 0, ee = 0;
	for (size_t k = 0; k < st.getD(); k++) {
		eu += st.getDirection(a)[k] * u[k];
		ee += st.getDirection(a)[k] * st.getDirection(a)[k];
		uu += u[k] * u[k];
	}
	const double s = eu / c2, q = uu / c2;
	return st.getWeight(a) * (1 + s + (s * s - q) / 2 + (s * s * s - 3 * s * q) / 6 + (s * s * s * s - 6 * s * s * q + 3 * q * q) / 24);
}
template<size_t dim> struct Run {
	Box<dim> problem;
	MeshSpec m;
	boost::shared_ptr<Stencil> st;
	boost::shared_ptr<SemiLagrangian<dim> > sl;
	std::vector<V> pos;
	double h = 1e300; // smallest cell edge
	DistributionFunctions f, old;
	Run(const MeshSpec& ms, const std::string& kinds, const V& u, bool functions, size_t order, StencilType t, double scaling) :
			problem(ms, kinds, u, functions), m(ms), st(cl::make(t, scaling)) {
		problem.refineAndTransform();
		sl = boost::make_shared<SemiLagrangian<dim> >(problem, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, 0.0);
		sl->setupDoFs();
		const auto& dh = *sl->getDoFHandler();
		pos.assign(dh.n_dofs(), V(dim));
		dealii::MappingQ1<dim> mapping;
		std::vector<dealii::types::global_dof_index> dofs(sl->getFe()->dofs_per_cell);
		for (auto c = dh.begin_active(); c != dh.end(); ++c) {
			c->get_dof_indices(dofs);
			for (size_t k = 0; k < dofs.size(); k++) {
				auto p = mapping.transform_unit_to_real_cell(c, sl->getFe()->get_unit_support_points()[k]);
				for (size_t a = 0; a < dim; a++)
					pos[dofs[k]][a] = p[a];
			}
			h = std::min(h, c->minimum_vertex_distance());
		}
		f.reinit(st->getQ(), sl->getLocallyOwnedDofs(), sl->getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
		old.reinit(st->getQ(), sl->getLocallyOwnedDofs(), sl->getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
	}
	void set(const std::function<double(size_t, size_t)>& v) {
		for (size_t a = 0; a < st->getQ(); a++) {
			for (size_t i = 0; i < pos.size(); i++)
				f.at(a)(i) = v(a, i);
			f.at(a).compress(dealii::VectorOperation::insert);
		}
		f.updateGhosted();
	}
	void dt(double d) {
		sl->setDeltaT(d);
		sl->reassemble();
	}
};
/// one step of a uniform fluid
template<size_t dim> void uniform(const std::string& key, Run<dim>& r, const std::function<double(size_t)>& feq, double tol, size_t steps) {
	r.set([&](size_t a, size_t) {return feq(a);});
	for (size_t s = 0; s < steps; s++) {
		r.sl->stream(r.old, r.f, 0.3 + s * r.sl->getDeltaT());
		r.f.updateGhosted();
	}
	for (size_t a = 0; a < r.st->getQ(); a++)
		for (size_t i = 0; i < r.pos.size(); i++) {
			const double v = r.f.at(a)(i);
			mc::transition();
			if (!mc::close_to(v, feq(a), tol)) {
				std::string p;
				for (double x : r.pos[i])
					p += mc::cat(x, " ");
				mc::violation(key, mc::cat("direction ", a, " at ", p, ": ", v, " instead of ", feq(a)));
				return;
			}
		}
	mc::check(true, key, "");
}
/// brute force: all admissible values of population alpha at x after a step of length dt that ends at time t_end;
/// populations before the step: c[direction] everywhere
template<size_t dim> struct Path {
	Run<dim>& r;
	double t_end, dt;
	const V& c;
	std::vector<double> values;
	std::vector<Call> hits; // along all branches
	bool branched = false;
	size_t max_hits = 0;
	V to_box(const V& x) const {
		return r.m.map == 3 ? unaffine<dim>(x) : x;
	}
	V from_box(const V& x) const {
		return r.m.map == 3 ? affine<dim>(x) : x;
	}
	/// position x (in the box), direction a, time s since arrival, sum of wall terms
	/// stuck: hits without progress
	void go(V x, size_t dest, size_t a, double s, double sum, size_t n_hits, size_t depth, size_t stuck = 0) {
		const Stencil& st = *r.st;
		V e(dim);
		for (size_t k = 0; k < dim; k++)
			e[k] = st.getDirection(a)[k];
		const V d = r.m.map == 3 ? unaffine<dim>(e) : e; // linear
		// backwards along d
		if (stuck > 12) {
			values.push_back(c[dest]); // trapped in a corner: stays
			return;
		}
		if (depth > 30) {
			values.push_back(c[dest]); // many faces: may be given up
			if (depth > 60)
				return;
		}
		double left = dt - s, first = 1e300;
		std::vector<double> when(2 * dim, 1e300);
		for (size_t k = 0; k < dim; k++) {
			if (d[k] > 1e-12)
				when[2 * k] = x[k] / d[k];
			else if (d[k] < -1e-12)
				when[2 * k + 1] = (x[k] - r.m.L[k]) / d[k];
		}
		for (double w : when)
			first = std::min(first, w);
		if (first > left - 1e-9 * dt) {
			values.push_back(c[a] + sum);
			if (first > left + 1e-9 * dt)
				return;
			branched = true; // ends on a side: either
		}
		size_t n = 0;
		for (size_t k = 0; k < 2 * dim; k++)
			if (when[k] < first + 1e-9)
				n++;
		if (n > 1)
			branched = true;
		for (size_t k = 0; k < 2 * dim; k++) {
			if (when[k] > first + 1e-9)
				continue;
			V y = x;
			const double step = std::max(0.0, first);
			for (size_t j = 0; j < dim; j++)
				y[j] = x[j] - step * d[j];
			y[k / 2] = (k % 2) ? r.m.L[k / 2] : 0;
			if (r.problem.kinds[k] == 'p') {
				y[k / 2] = (k % 2) ? 0 : r.m.L[k / 2];
				go(y, dest, a, s + step, sum, n_hits, depth + 1, step > 1e-9 * dt ? 0 : stuck + 1);
				continue;
			}
			// bounce back: the outgoing population a was created from its opposite
			const V z = from_box(y);
			const double t = t_end - (s + step);
			double eu = 0;
			for (size_t j = 0; j < dim; j++)
				eu += e[j] * r.problem.f[k]->at(z, t, j);
			hits.push_back( { z, t, k });
			max_hits = std::max(max_hits, n_hits + 1);
			go(y, dest, st.getIndexOfOppositeDirection(a), s + step, sum + 2 * st.getWeight(a) * eu / st.getSpeedOfSoundSquare(), n_hits + 1, depth + 1, step > 1e-9 * dt ? 0 : stuck + 1);
		}
	}
};
template<size_t dim> void places(const std::string& key, Run<dim>& r, double dt) {
	r.dt(dt);
	const size_t Q = r.st->getQ();
	V c(Q);
	for (size_t a = 0; a < Q; a++)
		c[a] = 0.1 + 0.01 * a;
	for (double t : { 0.0, 0.7 }) {
		r.set([&](size_t a, size_t) {return c[a];});
		r.problem.calls.clear();
		r.sl->stream(r.old, r.f, t);
		size_t expected = 0;
		bool exact = true;
		for (size_t a = 1; a < Q; a++)
			for (size_t i = 0; i < r.pos.size(); i++) {
				Path<dim> p { r, t + dt, dt, c };
				p.go(p.to_box(r.pos[i]), a, a, 0, 0, 0, 0);
				mc::transition();
				const double v = r.f.at(a)(i);
				double best = 1e300;
				for (double x : p.values)
					best = std::min(best, std::fabs(x - v));
				mc::outcome(mc::cat(p.max_hits, " hits"));
				expected += p.hits.size();
				exact = exact && !p.branched;
				if (!(best < 1e-7)) {
					std::string s;
					for (double x : r.pos[i])
						s += mc::cat(x, " ");
					std::string hs;
					for (auto& hh : p.hits)
						hs += mc::cat(" side ", hh.side, " at time ", hh.t);
					mc::violation(mc::cat(key, p.max_hits > 1 ? ":several-hits" : p.max_hits == 1 ? ":hit" : ":inner"),
							mc::cat("direction ", a, " at ", s, ", step ", dt, " from time ", t, ": ", v, " instead of ", p.values.size() ? p.values[0] : 0, hs));
				}
			}
		mc::check(true, key, "");
		// where and when the walls were asked
		for (auto& k : r.problem.calls) {
			V y = r.m.map == 3 ? unaffine<dim>(k.x) : k.x;
			const double wall = (k.side % 2) ? r.m.L[k.side / 2] : 0;
			bool on = std::fabs(y[k.side / 2] - wall) < 1e-7;
			for (size_t j = 0; j < dim; j++)
				on = on && y[j] > -1e-7 && y[j] < r.m.L[j] + 1e-7;
			mc::check(on, key + ":point", mc::cat("velocity of side ", k.side, " evaluated at a point that is not on it: ", k.x[0], " ", k.x[1]));
			mc::check(k.t > t - 1e-9 && k.t < t + dt + 1e-9, key + ":time", mc::cat("velocity evaluated at time ", k.t, " in the step from ", t, " to ", t + dt));
			mc::transition();
		}
		if (exact)
			mc::check(r.problem.calls.size() == expected, key + ":calls", mc::cat(r.problem.calls.size(), " evaluations for ", expected, " hits"));
	}
}
std::string letters(const std::string& s) {
	std::string r;
	for (char c : "pnbed")
		if (c && s.find(c) != std::string::npos)
			r += c;
	return r;
}
template<size_t dim> void semi(const std::vector<MeshSpec>& meshes, const std::vector<std::string>& arrangements, const std::vector<StencilType>& stencils, size_t max_order) {
	const std::string D = dim == 2 ? "2D" : "3D";
	const V dts = mc::thorough() ? V { 0.05, 0.3, 0.5, 0.7, 1.0, 1.3, 2.2, 3.7 } : V { 0.21, 0.5, 1.0, 1.3 };
	for (auto& m : meshes)
		for (auto& k : arrangements)
			for (size_t p = 1; p <= max_order; p++)
				for (auto t : stencils) {
					if (m.map == 3 && k.find('p') != std::string::npos)
						continue;
					mc::run_case(mc::cat(D, "/uniform/", m.name, "/", k, "/p", p, "/", cl::make(t, 1)->getQ(), "/", (int) t), [&]() {
						const bool rest_only = k.find('b') != std::string::npos;
						const bool e = k.find('e') != std::string::npos, n = k.find('n') != std::string::npos;
						for (int mode = 0; mode < (rest_only ? 1 : 3); mode++) {
							// 0: at rest; 1: slow, all kinds of walls agree up to third order terms; 2: fast, exact if the walls have the same equilibrium
							if (mode == 2 && e && n)
								continue;
							const double scaling = mode == 1 ? 0.5 : 1.0;
							V u = mode == 0 ? V { 0, 0, 0 } : mode == 1 ? V { 1e-3 * scaling, 7e-4 * scaling, -5e-4 * scaling } : V { 0.05, 0.03, -0.02 };
							u.resize(dim);
							Run<dim> r(m, k, u, false, p, t, scaling);
							for (double d : dts) {
								r.dt(d * r.h / (r.st->getMaxParticleVelocityMagnitude()));
								auto feq = [&](size_t a) {return e || t != Stencil_D2Q9 ? (e ? feq4(*r.st, a, u) : feq2(*r.st, a, u)) : feq2(*r.st, a, u);};
								const char* names[3] = { "rest", "slow", "fast" };
								uniform<dim>(mc::cat("uniform:", D, ":", letters(k), ":", names[mode]), r, feq, 2e-7, mc::thorough() ? 4 : 2);
								mc::state(mc::cat(mode, d));
							}
							mc::trace();
							mc::outcome(mc::cat("uniform ", mode));
						}
					});
				}
}
template<size_t dim> void where(const std::vector<MeshSpec>& meshes, const std::vector<std::string>& arrangements, const std::vector<StencilType>& stencils, size_t max_order) {
	const std::string D = dim == 2 ? "2D" : "3D";
	const V dts = mc::thorough() ? V { 0.05, 0.21, 0.37, 0.5, 0.77, 1.0, 1.3, 1.9, 2.6, 3.7 } : V { 0.21, 0.5, 0.77, 1.3, 2.6 };
	for (auto& m : meshes)
		for (auto& k : arrangements)
			for (size_t p = 1; p <= max_order; p++)
				for (auto t : stencils)
					for (double s : { 1.0, 0.6 }) {
						if (m.map == 3 && k.find('p') != std::string::npos)
							continue;
						mc::run_case(mc::cat(D, "/where/", m.name, "/", k, "/p", p, "/", (int) t, "/scaling", s), [&]() {
							Run<dim> r(m, k, V(dim, 0.0), true, p, t, s);
							for (double d : dts) {
								places<dim>(mc::cat("where:", D, ":", letters(k)), r, d * r.h / r.st->getMaxParticleVelocityMagnitude());
								mc::state(mc::cat(d));
							}
							mc::trace();
						});
					}
}
/// discontinuous Galerkin walls
template<size_t dim> void galerkin(const std::vector<MeshSpec>& meshes, const std::vector<std::string>& arrangements, const std::vector<StencilType>& stencils, size_t max_order) {
	const std::string D = dim == 2 ? "2D" : "3D";
	for (auto& m : meshes)
		for (auto& k : arrangements)
			for (size_t p = 1; p <= max_order; p++)
				for (auto t : stencils)
					for (int central = 0; central < 2; central++) {
						if (m.map == 3 && k.find('p') != std::string::npos)
							continue;
						mc::run_case(mc::cat(D, "/dg/", m.name, "/", k, "/p", p, "/", (int) t, central ? "/central" : "/upwind"), [&]() {
							const std::string key = mc::cat("dg:", D, central ? ":central" : ":upwind");
							V u = { 0.05, 0.03, -0.02 };
							u.resize(dim);
							V b0; // source term
							std::vector<V> u_at; // wall velocity at the nodes
							for (int mode = 0; mode < 2 + (int) dim; mode++) { // 0 rest, 1 function, 2.. constant velocity along each axis
								V w(dim, 0.0);
								if (mode >= 2)
									w[mode - 2] = 0.04;
								Box<dim> problem(m, k, w, mode == 1);
								auto st = cl::make(t, 1.3);
								const size_t Q = st->getQ();
								problem.refineAndTransform();
								SEDGMinLee<dim> op(problem, p, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, central);
								op.setupDoFs();
								op.reassemble();
								const auto& dh = *op.getDoFHandler();
								const auto& fe = *op.getFe();
								const size_t n = dh.n_dofs();
								dealii::MappingQ1<dim> mapping;
								dealii::FEValues<dim> fv(mapping, fe, dealii::QGauss<dim>(p + 2), dealii::update_values | dealii::update_JxW_values);
								dealii::FEFaceValues<dim> ff(mapping, fe, dealii::QGauss<dim - 1>(p + 2),
										dealii::update_values | dealii::update_JxW_values | dealii::update_normal_vectors | dealii::update_quadrature_points);
								V mass(n, 0.0);
								std::vector<V> pos(n, V(dim));
								std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
								double influx = 0, h = 1e300;
								std::vector<std::set<size_t> > sides(n);
								for (auto c = dh.begin_active(); c != dh.end(); ++c) {
									fv.reinit(c);
									c->get_dof_indices(dofs);
									h = std::min(h, c->minimum_vertex_distance());
									for (size_t i = 0; i < dofs.size(); i++) {
										for (size_t q = 0; q < fv.n_quadrature_points; q++)
											mass[dofs[i]] += fv.shape_value(i, q) * fv.JxW(q);
										auto x = mapping.transform_unit_to_real_cell(c, fe.get_unit_support_points()[i]);
										for (size_t a = 0; a < dim; a++)
											pos[dofs[i]][a] = x[a];
									}
									for (size_t fc = 0; fc < 2 * dim; fc++) {
										if (!c->face(fc)->at_boundary() || k[c->face(fc)->boundary_id()] == 'p')
											continue;
										const size_t id = c->face(fc)->boundary_id();
										ff.reinit(c, fc);
										for (size_t q = 0; q < ff.n_quadrature_points; q++) {
											V x(dim);
											for (size_t a = 0; a < dim; a++)
												x[a] = ff.quadrature_point(q)[a];
											for (size_t a = 0; a < dim; a++)
												influx -= ff.JxW(q) * ff.normal_vector(q)[a] * problem.f[id]->at(x, 0, a);
										}
										for (size_t i = 0; i < dofs.size(); i++)
											if (fe.has_support_on_face(i, fc))
												sides[dofs[i]].insert(id);
									}
								}
								const double scale = st->getMaxParticleVelocityMagnitude() * p * p * 20 / h;
								// the complete operator
								std::vector<V> res(Q, V(n, 0.0)), cols(Q, V(n, 0.0));
								std::vector<V> rest(Q, V(n, 0.0));
								for (size_t a = 1; a < Q; a++)
									for (size_t b = 1; b < Q; b++) {
										const auto& M = op.getSystemMatrix().block(a - 1, b - 1);
										if (!M.n_nonzero_elements())
											continue;
										bool other = (b != a && b != st->getIndexOfOppositeDirection(a));
										for (auto it = M.begin(); it != M.end(); ++it) {
											res[a][it->row()] += it->value() * feq2(*st, b, w);
											rest[a][it->row()] += it->value() * st->getWeight(b);
											cols[b][it->column()] += it->value() * mass[it->row()];
											if (other)
												mc::check(it->value() == 0, key + ":mixing", "directions that are not opposite are coupled");
										}
									}
								double source = 0;
								for (size_t a = 1; a < Q; a++)
									for (size_t i = 0; i < n; i++) {
										const double b = op.getSystemVector().block(a - 1)(i);
										source += b * mass[i];
										res[a][i] += b;
										mc::transition(2);
										mc::check_close(rest[a][i], 0, 1e-11 * scale, key + ":rest", "rate of change of a fluid at rest");
										if (mode != 1)
											mc::check_close(res[a][i], 0, 1e-11 * scale, key + (mode ? ":moving" : ":rest-with-source"),
													"rate of change of a fluid that moves with its walls");
										if (sides[i].empty())
											mc::check(b == 0, key + ":inner-source", "source away from walls");
									}
								if (m.map != 2)
									for (size_t b = 1; b < Q; b++)
										for (size_t i = 0; i < n; i++)
											mc::check_close(cols[b][i], 0, 1e-11 * scale * mass[i] * p * p, key + ":mass", mc::cat("mass created by population ", b, " at a node"));
								double total = 0;
								for (double x : mass)
									total += x;
								if (m.map == 0 || m.map == 3) // (linear velocity: exact for these)
									mc::check_close(source, influx, 1e-10 * scale * total, key + ":influx", "mass per time through the walls");
								if (mode == 1)
									for (auto& c : problem.calls) {
										V y = m.map == 3 ? unaffine<dim>(c.x) : c.x;
										const double wall = (c.side % 2) ? m.L[c.side / 2] : 0;
										mc::check(std::fabs(y[c.side / 2] - wall) < 1e-9, key + ":point", "velocity evaluated away from the wall");
									}
								// source at a node = source of the constant velocity that the wall has at that node
								size_t z = 0;
								b0.resize(n * Q, 0.0);
								for (size_t a = 1; a < Q; a++)
									for (size_t i = 0; i < n; i++, z++) {
										if (sides[i].size() != 1)
											continue;
										const double b = op.getSystemVector().block(a - 1)(i);
										if (mode == 1) {
											b0[z] = b;
											u_at.resize(n, V(dim));
											for (size_t c = 0; c < dim; c++)
												u_at[i][c] = problem.f[*sides[i].begin()]->at(pos[i], 0, c);
										} else if (mode >= 2)
											b0[z] -= b / 0.04 * u_at[i][mode - 2];
										if (mode == 1 + (int) dim)
											mc::check_close(b0[z], 0, 1e-11 * scale, key + ":source", "source of a wall whose velocity depends on position");
									}
								mc::state(mc::cat(mode));
							}
							mc::trace();
							mc::outcome("dg operator");
						});
					}
}
/// walls that a streaming scheme cannot handle are refused
template<size_t dim> void refused(const MeshSpec& m) {
	for (char c : { 'b', 'e', 'd' })
		for (size_t s = 0; s < 2 * dim; s++)
			mc::run_case(mc::cat(dim, "D/dg-refuses/", c, "/", s), [&]() {
				std::string k(2 * dim, 'n');
				k[s] = c;
				bool ref = false;
				try {
					Box<dim> problem(m, k, V(dim, 0.0), false);
					problem.refineAndTransform();
					SEDGMinLee<dim> op(problem, 1, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, cl::make(dim == 2 ? Stencil_D2Q9 : Stencil_D3Q19, 1), false);
					op.setupDoFs();
					op.reassemble();
				} catch (std::exception&) {
					ref = true;
				}
				mc::check(ref, mc::cat("dg-refuses:", c), "a wall that discontinuous Galerkin streaming cannot handle is accepted");
				mc::transition();
				mc::state(mc::cat(c, s));
				mc::outcome("refused");
			});
}
/// the solver passes the right times
template<size_t dim> void solver(const MeshSpec& m, const std::vector<std::string>& arrangements) {
	for (auto& k : arrangements)
		for (size_t p = 1; p <= 2; p++)
			for (double cfl : { 0.4, 1.0, 2.5 })
				mc::run_case(mc::cat(dim, "D/solver/", k, "/p", p, "/cfl", cfl), [&]() {
					auto problem = boost::make_shared<Box<dim> >(m, k, V(dim, 0.0), true);
					const size_t N = 4;
					auto c = config([&](SolverConfiguration& x) {
						x.setSedgOrderOfFiniteElement(p);
						x.setCFL(cfl);
						x.setNumberOfTimeSteps(N);
						x.setStencil(dim == 2 ? Stencil_D2Q9 : Stencil_D3Q19);
						x.setAdvectionScheme(SEMI_LAGRANGIAN);
					});
					CFDSolver<dim> s(c, problem);
					problem->calls.clear();
					s.run();
					const double dt = s.getTimeStepSize();
					// grouped by step: nodes on the wall are hit at the end of each step
					std::map<long, size_t> ends;
					for (auto& x : problem->calls) {
						mc::check(x.t > -1e-10 && x.t < N * dt + 1e-10, "solver:time", mc::cat("velocity evaluated at time ", x.t, " in a run until ", N * dt));
						const double q = x.t / dt;
						if (std::fabs(q - std::lround(q)) < 1e-8)
							ends[std::lround(q)]++;
						mc::transition();
					}
					for (size_t i = 1; i <= N; i++)
						mc::check(ends[i] > 0 && ends[i] >= ends[1], "solver:end-of-step", mc::cat("no hit at the end of step ", i, " (time ", i * dt, ")"));
					mc::state(k);
					mc::trace();
					mc::outcome("solver");
				});
}
/// a wall that asks for flow quantities and compares them with the flow
template<size_t dim> struct ProbeFlow {
	std::function<double(const V&)> rho;
	std::function<double(const V&, size_t)> u, drho; // component, derivative of rho
	std::function<double(const V&, size_t, size_t)> du; // component, direction
	std::function<double(const V&, size_t, size_t, size_t)> ddu;
	double visc, cs2, tol;
	std::string key;
	long asked = 0;
};
template<size_t dim> class Probe: public Boundary<dim> {
	BoundaryFlags m_flags;
	boost::shared_ptr<ProbeFlow<dim> > m_w;
public:
	Probe(size_t id, BoundaryName n, BoundaryFlags f, boost::shared_ptr<ProbeFlow<dim> > w) :
			Boundary<dim>(id, n, PrescribedBoundaryValues<dim>(dealii::Tensor<1, dim>())), m_flags(f), m_w(w) {
	}
	virtual bool isPeriodic() const {
		return false;
	}
	virtual bool isDGSupported() const {
		return false;
	}
	virtual bool isSLSupported() const {
		return true;
	}
	virtual BoundaryFlags getUpdateFlags() const {
		return m_flags;
	}
	virtual void calculateBoundaryValues(FEBoundaryValues<dim>& b, size_t q, const LagrangianPathDestination& d, double, double) {
		auto& w = *m_w;
		V x(dim);
		for (size_t a = 0; a < dim; a++)
			x[a] = b.getPoint(q)[a];
		w.asked++;
		mc::transition();
		const Stencil& st = b.getData().m_stencil;
		auto close = [&](double v, double e, const char* what) {
			mc::check_close(v, e, w.tol, w.key + ":" + what, mc::cat(what, " at ", x[0], " ", x[1]));
		};
		double div = 0, drho = 0;
		for (size_t a = 0; a < dim; a++) {
			div += w.du(x, a, a);
			drho -= w.drho(x, a) * w.u(x, a);
		}
		drho -= w.rho(x) * div;
		if (m_flags != only_distributions)
			close(b.getRho(), w.rho(x), "density");
		if (m_flags & boundary_u)
			for (size_t a = 0; a < dim; a++)
				close(b.getU()[a], w.u(x, a), "velocity"), close(b.getRhoU()[a], w.rho(x) * w.u(x, a), "momentum");
		if (m_flags & boundary_drho_dt)
			close(b.getDrhodt(), drho, "rate of density");
		if (m_flags & boundary_du_dt)
			for (size_t a = 0; a < dim; a++) {
				double r = -w.cs2 / w.rho(x) * w.drho(x, a);
				for (size_t k = 0; k < dim; k++)
					r += w.visc * (w.ddu(x, a, k, k) + w.ddu(x, k, k, a)) - w.u(x, k) * w.du(x, a, k);
				close(b.getDudt()[a], r, "rate of velocity");
			}
		const size_t o = d.direction;
		double f = w.rho(x) * st.getWeight(o);
		for (size_t a = 0; a < dim; a++)
			f += w.rho(x) * st.getWeight(o) * st.getDirection(o)[a] * w.u(x, a) / st.getSpeedOfSoundSquare();
		close(b.getDistribution(o, q), f, "population");
		b.getData().m_fnew.at(d.direction)(d.index) = f;
	}
};
template<size_t dim> class ProbeBox: public ProblemDescription<dim> {
	Box<dim> m_b;
public:
	ProbeBox(const MeshSpec& m, const std::vector<int>& kinds, boost::shared_ptr<ProbeFlow<dim> > w, double visc) :
			ProblemDescription<dim>(nullptr, visc, 1.0), m_b(m, std::string(2 * dim, 'n'), V(dim, 0.0), false) {
		this->setMesh(m_b.getMesh());
		auto bc = boost::make_shared<BoundaryCollection<dim> >();
		const BoundaryFlags F[5] = { only_distributions, boundary_rho, boundary_rho | boundary_u, boundary_rho | boundary_u | boundary_drho_dt, boundary_rho | boundary_u | boundary_du_dt };
		for (size_t s = 0; s < 2 * dim; s++)
			bc->addBoundary(boost::make_shared<Probe<dim> >(s, (kinds[s] + s) % 2 ? ZERO_VELOCITY_NEQ_BB : VELOCITY_EQUILIBRIUM_BOUNDARY, F[kinds[s]], w));
		this->setBoundaries(bc);
	}
	virtual void refine(Mesh<dim>& mesh) {
		m_b.refine(mesh);
	}
	virtual void transform(Mesh<dim>& mesh) {
		m_b.transform(mesh);
	}
	virtual bool isCartesian() {
		return m_b.isCartesian();
	}
};
template<size_t dim> void probes(const MeshSpec& m, size_t p, StencilType t, const std::vector<std::vector<int> >& assignments) {
	const std::string D = dim == 2 ? "2D" : "3D";
	mc::run_case(mc::cat(D, "/quantities/", m.name, "/p", p, "/", (int) t), [&]() {
		for (double scaling : { 1.0, 1.7 })
			for (auto& kinds : assignments)
				for (int flow = 0; flow < 3; flow++) {
					// 0: constant density; 1: fluid at rest; 2: constant velocity
					auto st = cl::make(t, scaling);
					auto w = boost::make_shared<ProbeFlow<dim> >();
					const double visc = 0.07, quad = p >= 2 ? 1 : 0;
					w->visc = visc;
					w->cs2 = st->getSpeedOfSoundSquare();
					w->key = "quantities:" + D;
					auto r1 = [=](size_t a) {return flow ? 0.1 - 0.07 * a : 0.;};
					auto r2 = [=](size_t a, size_t b) {return flow ? quad * (0.03 + 0.01 * a * b) : 0.;};
					auto u0 = [=](size_t c) {return flow == 1 ? 0. : 0.1 + 0.02 * c;};
					auto u1 = [=](size_t c, size_t a) {return flow ? 0. : 0.05 * (c + 1) - 0.08 * a;};
					auto u2 = [=](size_t c, size_t a, size_t b) {return flow ? 0. : quad * (0.02 * (1 + c) + 0.01 * (a + b) - 0.025 * a * b);};
					w->rho = [=](const V& x) {
						double r = 1.2;
						for (size_t a = 0; a < dim; a++) {
							r += r1(a) * x[a];
							for (size_t b = 0; b < dim; b++)
								r += r2(a, b) * x[a] * x[b];
						}
						return r;
					};
					w->drho = [=](const V& x, size_t a) {
						double r = r1(a);
						for (size_t b = 0; b < dim; b++)
							r += 2 * r2(a, b) * x[b];
						return r;
					};
					w->u = [=](const V& x, size_t c) {
						double r = u0(c);
						for (size_t a = 0; a < dim; a++) {
							r += u1(c, a) * x[a];
							for (size_t b = 0; b < dim; b++)
								r += u2(c, a, b) * x[a] * x[b];
						}
						return r;
					};
					w->du = [=](const V& x, size_t c, size_t a) {
						double r = u1(c, a);
						for (size_t b = 0; b < dim; b++)
							r += 2 * u2(c, a, b) * x[b];
						return r;
					};
					w->ddu = [=](const V&, size_t c, size_t a, size_t b) {
						return 2 * u2(c, a, b);
					};
					w->tol = 1e-8;
					ProbeBox<dim> problem(m, kinds, w, visc);
					problem.refineAndTransform();
					SemiLagrangian<dim> sl(problem, p, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, 0.0);
					sl.setupDoFs();
					const auto& dh = *sl.getDoFHandler();
					DistributionFunctions f, old;
					f.reinit(st->getQ(), sl.getLocallyOwnedDofs(), sl.getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
					old.reinit(st->getQ(), sl.getLocallyOwnedDofs(), sl.getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
					dealii::MappingQ1<dim> mapping;
					std::vector<dealii::types::global_dof_index> dofs(sl.getFe()->dofs_per_cell);
					double h = 1e300;
					for (auto c = dh.begin_active(); c != dh.end(); ++c) {
						c->get_dof_indices(dofs);
						h = std::min(h, c->minimum_vertex_distance());
						for (size_t k = 0; k < dofs.size(); k++) {
							auto y = mapping.transform_unit_to_real_cell(c, sl.getFe()->get_unit_support_points()[k]);
							V x(dim);
							for (size_t a = 0; a < dim; a++)
								x[a] = y[a];
							for (size_t i = 0; i < st->getQ(); i++) {
								double eu = 0;
								for (size_t a = 0; a < dim; a++)
									eu += st->getDirection(i)[a] * w->u(x, a);
								f.at(i)(dofs[k]) = st->getWeight(i) * w->rho(x) * (1 + eu / w->cs2);
							}
						}
					}
					f.updateGhosted();
					sl.setDeltaT(0.6 * h / st->getMaxParticleVelocityMagnitude());
					sl.reassemble();
					sl.stream(old, f, 0.3);
					mc::check(w->asked > 0, w->key + ":asked", "walls are not used");
					std::string s;
					for (int k : kinds)
						s += mc::cat(k);
					mc::state(mc::cat(s, flow, scaling));
				}
		mc::trace();
		mc::outcome("quantities");
	});
}
/// the prescribed values themselves
template<size_t dim> void prescribed() {
	mc::run_case(mc::cat(dim, "D/prescribed"), []() {
		dealii::Tensor<1, dim> u;
		for (size_t a = 0; a < dim; a++)
			u[a] = 0.1 * (a + 1);
		PrescribedBoundaryValues<dim> v(0.7, u, 1.9);
		PrescribedBoundaryValues<dim> w(v), x;
		x = v;
		dealii::Point<dim> p;
		for (auto* y : { &v, &w, &x }) {
			mc::check(y->getPrescribedValues() == boundary_pUT, "prescribed:flags", "flags");
			if (!mc::check(y->getPressure() && y->getVelocity() && y->getTemperature(), "prescribed:lost", "a prescribed function is lost in a copy"))
				continue;
			mc::check_close(y->getPressure()->value(p), 0.7, 0, "prescribed:pressure", "pressure");
			mc::check_close(y->getTemperature()->value(p), 1.9, 0, "prescribed:temperature", "temperature");
			for (size_t a = 0; a < dim; a++)
				mc::check_close(y->getVelocity()->value(p, a), u[a], 0, "prescribed:velocity", "velocity");
		}
		PrescribedBoundaryValues<dim> a(0.3), b(u);
		mc::check(a.getPrescribedValues() == boundary_p && a.getPressure()->value(p) == 0.3, "prescribed:p", "pressure only");
		mc::check(b.getPrescribedValues() == boundary_u && b.getVelocity()->value(p, dim - 1) == u[dim - 1], "prescribed:u", "velocity only");
		mc::transition(5);
		mc::state("prescribed");
		mc::outcome("prescribed values");
	});
}
std::vector<std::string> product(const std::vector<std::string>& axis, size_t dim) {
	std::vector<std::string> r = { "" };
	for (size_t d = 0; d < dim; d++) {
		std::vector<std::string> s;
		for (auto& a : r)
			for (auto& b : axis)
				s.push_back(a + b);
		r = s;
	}
	return r;
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	mc::init(argc, argv);
	std::vector<std::string> all = { "pp" }, three = { "pp", "nn", "nd", "en", "dd", "bb", "ee", "be" };
	for (char a : { 'n', 'b', 'e', 'd' })
		for (char b : { 'n', 'b', 'e', 'd' })
			all.push_back(std::string() + a + b);
	std::vector<MeshSpec> m2 = { { "1x1", { 1, 0.8 }, { 1, 1 }, 0, 0 }, { "3x2", { 1.5, 1 }, { 3, 2 }, 0, 0 }, { "4x4", { 1, 1 }, { 1, 1 }, 2, 0 }, { "stretched", { 1, 2 }, { 1, 1 }, 2, 1 }, { "affine", { 1, 1 }, { 3, 3 }, 0, 3 } };
	std::vector<MeshSpec> m3 = { { "2x2x2", { 1, 1, 1 }, { 1, 1, 1 }, 1, 0 }, { "affine", { 1, 1.2, 0.9 }, { 2, 2, 2 }, 0, 3 } };
	std::vector<MeshSpec> w2 = m2, w3 = m3;
	std::vector<MeshSpec> g2 = m2, g3 = m3;
	g2.push_back( { "wavy", { 1, 1 }, { 4, 4 }, 0, 2 });
	if (mc::thorough()) {
		m3.push_back( { "1x2x3", { 1, 1, 1 }, { 1, 2, 3 }, 0, 0 });
		m3.push_back( { "stretched", { 1, 1, 2 }, { 2, 2, 2 }, 0, 1 });
		w3 = m3;
		g3 = m3;
		m2.push_back( { "8x8", { 1, 1 }, { 2, 2 }, 2, 0 });
	}
	typedef std::vector<StencilType> S;
	prescribed<2>();
	prescribed<3>();
	refused<2>(m2[1]);
	refused<3>(m3[0]);
	std::vector<std::vector<int> > q2, q3;
	for (int a = 0; a < 5; a++)
		for (int b = 0; b < 5; b++) {
			q3.push_back( { a, b, (a + 1) % 5, (b + 2) % 5, (a + b) % 5, (a + 3 * b) % 5 });
			for (int c = 0; c < 5; c++)
				for (int d = 0; d < 5; d++)
					q2.push_back( { a, b, c, d });
		}
	for (auto& m : m2)
		for (size_t p = 1; p <= mc::tier<size_t>(2, 4); p++)
			for (auto t : mc::thorough() ? S { Stencil_D2Q9, Stencil_D2Q25H, Stencil_D2Q19V } : S { Stencil_D2Q9 }) {
				std::vector<std::vector<int> > part;
				for (size_t i = 0; i < q2.size(); i++)
					if (mc::thorough() || std::string(m.name) == "1x1" || i % 25 == 7)
						part.push_back(q2[i]);
				probes<2>(m, p, t, part);
			}
	for (auto& m : m3)
		probes<3>(m, mc::tier<size_t>(1, 2), Stencil_D3Q19, q3);
	const auto n2 = product( { "pp", "nn" }, 2), n3 = product( { "pp", "nn" }, 3);
	solver<2>(m2[1], { "nnnn", "ppnn", "nnpp" });
	solver<3>(m3[0], { "ppppnn" });
	where<2>(w2, n2, mc::thorough() ? S { Stencil_D2Q9, Stencil_D2Q25H, Stencil_D2Q19V } : S { Stencil_D2Q9, Stencil_D2Q25H }, mc::tier<size_t>(3, 4));
	where<3>(w3, n3, mc::thorough() ? S { Stencil_D3Q19, Stencil_D3Q27, Stencil_D3Q15 } : S { Stencil_D3Q27 }, mc::tier<size_t>(1, 2));
	galerkin<2>(g2, n2, S { Stencil_D2Q9, Stencil_D2Q25H }, mc::tier<size_t>(3, 5));
	galerkin<3>(g3, n3, mc::thorough() ? S { Stencil_D3Q19, Stencil_D3Q15 } : S { Stencil_D3Q15 }, mc::tier<size_t>(1, 2));
	semi<2>(m2, product(all, 2), mc::thorough() ? S { Stencil_D2Q9, Stencil_D2Q25H } : S { Stencil_D2Q9 }, mc::tier<size_t>(2, 3));
	semi<3>(m3, product(three, 3), mc::thorough() ? S { Stencil_D3Q19, Stencil_D3Q27 } : S { Stencil_D3Q19 }, 1);
	mc::finish();
}
