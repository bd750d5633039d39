// S13: semi-Lagrangian streaming on periodic domains equals evaluation of the interpolant at the
// departure points. Every row of the operator is compared with the weights of the interpolant (found
// by brute force over all cells), which decides the property for all nodal values at once.
#include "flow.h"
#include "collide.h"
#include "natrium/advection/SemiLagrangian.h"
using namespace natrium;
using namespace fl;

template<size_t dim> struct Oracle {
	typedef std::array<long, dim> Id;
	std::vector<unsigned> cells;
	V L;
	std::vector<std::vector<V> > vertex; // per cell
	std::vector<std::vector<V> > node; // per cell and local node
	std::vector<V> unit; // unit support points
	V one; // 1d support points
	std::vector<Id> id; // of dof
	std::vector<V> pos; // of dof

	Id ident(const V& x) const {
		Id r;
		for (size_t a = 0; a < dim; a++) {
			r[a] = std::lround(x[a] / L[a] * 1e7) % 10000000;
			if (r[a] < 0)
				r[a] += 10000000;
		}
		return r;
	}
	Oracle(const SemiLagrangian<dim>& sl, const V& length) :
			L(length) {
		const auto& dh = *sl.getDoFHandler();
		const auto& fe = *sl.getFe();
		std::set<long> s;
		for (auto& p : fe.get_unit_support_points()) {
			V x(dim);
			for (size_t a = 0; a < dim; a++) {
				x[a] = p[a];
				if (s.insert(std::lround(x[a] * 1e9)).second)
					one.push_back(x[a]);
			}
			unit.push_back(x);
		}
		id.resize(dh.n_dofs());
		pos.resize(dh.n_dofs());
		std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
		for (auto c = dh.begin_active(); c != dh.end(); ++c) {
			std::vector<V> v;
			for (size_t k = 0; k < (1u << dim); k++) {
				V x(dim);
				for (size_t a = 0; a < dim; a++)
					x[a] = c->vertex(k)[a];
				v.push_back(x);
			}
			vertex.push_back(v);
			c->get_dof_indices(dofs);
			std::vector<V> n;
			for (size_t k = 0; k < dofs.size(); k++) {
				const V x = forward(v, unit[k]);
				n.push_back(x);
				id[dofs[k]] = ident(x);
				pos[dofs[k]] = x;
			}
			node.push_back(n);
		}
	}
	static V forward(const std::vector<V>& v, const V& u) {
		V x(dim, 0.0);
		for (size_t k = 0; k < (1u << dim); k++) {
			double w = 1;
			for (size_t a = 0; a < dim; a++)
				w *= (k >> a & 1) ? u[a] : 1 - u[a];
			for (size_t a = 0; a < dim; a++)
				x[a] += w * v[k][a];
		}
		return x;
	}
	/// unit coordinates of x in a cell; false if Newton's method does not converge
	static bool inverse(const std::vector<V>& v, const V& x, V& u) {
		u.assign(dim, 0.5);
		for (int it = 0; it < 40; it++) {
			V r = forward(v, u);
			double n = 0;
			for (size_t a = 0; a < dim; a++) {
				r[a] = x[a] - r[a];
				n += std::fabs(r[a]);
			}
			double J[3][4];
			for (size_t a = 0; a < dim; a++) {
				for (size_t b = 0; b < dim; b++) {
					V p = u, m = u;
					p[b] = 1;
					m[b] = 0;
					J[a][b] = forward(v, p)[a] - forward(v, m)[a];
				}
				J[a][dim] = r[a];
			}
			for (size_t p = 0; p < dim; p++) {
				size_t q = p;
				for (size_t a = p; a < dim; a++)
					if (std::fabs(J[a][p]) > std::fabs(J[q][p]))
						q = a;
				if (J[q][p] == 0)
					return false;
				for (size_t b = 0; b <= dim; b++)
					std::swap(J[p][b], J[q][b]);
				for (size_t a = 0; a < dim; a++)
					if (a != p) {
						const double f = J[a][p] / J[p][p];
						for (size_t b = p; b <= dim; b++)
							J[a][b] -= f * J[p][b];
					}
			}
			for (size_t a = 0; a < dim; a++)
				u[a] += J[a][dim] / J[a][a];
			if (n < 1e-13)
				return true;
		}
		const V r = forward(v, u);
		double n = 0;
		for (size_t a = 0; a < dim; a++)
			n += std::fabs(x[a] - r[a]);
		return n < 1e-11;
	}
	double lagrange(double node, double x) const {
		double r = 1;
		for (double o : one)
			if (std::fabs(o - node) > 1e-9)
				r *= (x - o) / (node - o);
		return r;
	}
	/// weights of the interpolant at x (any point; wrapped into the domain)
	std::map<Id, double> weights(V x) const {
		for (size_t a = 0; a < dim; a++) {
			x[a] -= L[a] * std::floor(x[a] / L[a]);
			if (x[a] > L[a] * (1 - 1e-13))
				x[a] = 0;
		}
		std::map<Id, double> r;
		double best = 1e300;
		V ub;
		size_t cb = 0;
		for (size_t c = 0; c < vertex.size(); c++) {
			V u;
			bool near = true;
			for (size_t a = 0; a < dim && near; a++) {
				double lo = 1e300, hi = -1e300;
				for (auto& v : vertex[c]) {
					lo = std::min(lo, v[a]);
					hi = std::max(hi, v[a]);
				}
				near = x[a] > lo - 1e-9 && x[a] < hi + 1e-9;
			}
			if (!near || !inverse(vertex[c], x, u))
				continue;
			double out = 0;
			for (size_t a = 0; a < dim; a++)
				out = std::max(out, std::max(-u[a], u[a] - 1));
			if (out < best) {
				best = out;
				ub = u;
				cb = c;
			}
		}
		if (best > 1e-9)
			throw std::runtime_error("harness: point outside of all cells");
		for (size_t k = 0; k < unit.size(); k++) {
			double w = 1;
			for (size_t a = 0; a < dim; a++)
				w *= lagrange(unit[k][a], ub[a]);
			r[ident(node[cb][k])] += w;
		}
		return r;
	}
};
struct MeshSpec {
	const char* name;
	V L;
	std::vector<unsigned> cells;
	size_t level;
	int map; // 0 none, 1 stretched, 2 wavy
	bool cartesian;
};
inline Spec spec_of(const MeshSpec& m, size_t dim) {
	Spec s;
	s.level = m.level;
	s.length = m.L;
	s.cells = m.cells;
	s.cartesian = m.cartesian;
	const V L = m.L;
	if (m.map == 1)
		s.map = [L,dim](const V& x) {
			V y = x;
			for (size_t a = 0; a < dim; a++)
				y[a] = x[a] + (0.3 - 0.1 * a) * x[a] * (L[a] - x[a]) / L[a];
			return y;
		};
	if (m.map == 2)
		s.map = [L,dim](const V& x) {
			V y = x;
			for (size_t a = 0; a < dim; a++) {
				double p = 0.06 * L[a];
				for (size_t b = 0; b < dim; b++)
					p *= std::sin(2 * M_PI * x[b] / L[b] + (b == a ? 0. : 0.));
				y[a] = x[a] + p;
			}
			return y;
		};
	return s;
}
template<size_t dim> class Run {
public:
	Flow<dim> problem;
	boost::shared_ptr<Stencil> st;
	boost::shared_ptr<SemiLagrangian<dim> > sl;
	std::unique_ptr<Oracle<dim> > o;
	V L;
	double h;
	Run(const MeshSpec& m, size_t order, SupportPointsName pts, StencilType t, double scaling) :
			problem(spec_of(m, dim)), st(cl::make(t, scaling)), L(m.L) {
		problem.refineAndTransform();
		sl = boost::make_shared<SemiLagrangian<dim> >(problem, order, QGAUSS_LOBATTO, pts, st, 0.0);
		sl->setupDoFs();
		o.reset(new Oracle<dim>(*sl, L));
		h = 1e300;
		for (auto& v : o->vertex)
			for (size_t a = 0; a < dim; a++) {
				double d = 0;
				for (size_t b = 0; b < dim; b++)
					d += (v[1u << a][b] - v[0][b]) * (v[1u << a][b] - v[0][b]);
				h = std::min(h, std::sqrt(d));
			}
	}
	/// compares every row of the assembled operator
	void compare(double dt, const std::string& what) {
		const auto& A = sl->getSystemMatrix();
		const size_t Q = st->getQ();
		mc::check(A.n_block_rows() == Q - 1 && A.n_block_cols() == Q - 1, what + ":blocks", "number of blocks");
		for (size_t a = 1; a < Q; a++)
			for (size_t b = 1; b < Q; b++) {
				const auto& M = A.block(a - 1, b - 1);
				if (a != b) {
					bool mixed = false;
					if (M.n_nonzero_elements())
						for (auto it = M.begin(); it != M.end(); ++it)
							if (it->value() != 0)
								mixed = true;
					mc::check(!mixed, what + ":mixing", mc::cat("direction ", a, " receives values of direction ", b));
					continue;
				}
				for (size_t i = 0; i < o->id.size(); i++) {
					V x(dim);
					for (size_t c = 0; c < dim; c++)
						x[c] = o->pos[i][c] - dt * st->getDirection(a)[c];
					auto w = o->weights(x);
					mc::transition();
					for (auto it = M.begin(i); it != M.end(i); ++it)
						w[o->id[it->column()]] -= it->value();
					double e = 0;
					for (auto& k : w)
						e = std::max(e, std::fabs(k.second));
					if (!mc::check(e <= 1e-7, what + ":weights", mc::cat("dt=", dt, " direction ", a, " (", st->getDirection(a)[0], ",", st->getDirection(a)[1], ") node at ", o->pos[i][0], ",", o->pos[i][1], dim == 3 ? o->pos[i][2] : 0., ": weights differ by ", e)))
						return;
				}
			}
		mc::trace();
	}
	/// streams nodal values (distinct for every node and direction), twice
	void stream(double dt, const std::string& what) {
		const size_t Q = st->getQ();
		DistributionFunctions f, old;
		f.reinit(Q, sl->getLocallyOwnedDofs(), MPI_COMM_WORLD);
		old.reinit(Q, sl->getLocallyOwnedDofs(), MPI_COMM_WORLD);
		std::map<typename Oracle<dim>::Id, V> ref;
		size_t k = 0;
		for (auto& i : o->id)
			if (!ref.count(i)) {
				V v(Q);
				for (size_t q = 0; q < Q; q++)
					v[q] = std::sin(1.0 + 7.0 * k + 0.37 * q) + q;
				ref[i] = v;
				k++;
			}
		for (size_t q = 0; q < Q; q++) {
			for (size_t i = 0; i < o->id.size(); i++)
				f.at(q)(i) = ref[o->id[i]][q];
			f.at(q).compress(dealii::VectorOperation::insert);
		}
		for (int step = 0; step < 2; step++) {
			const double r = sl->stream(old, f, step * dt);
			mc::check_close(r, dt, 1e-15, what + ":dt", "time step returned by stream");
			std::map<typename Oracle<dim>::Id, V> next;
			for (size_t i = 0; i < o->id.size(); i++) {
				if (next.count(o->id[i]))
					continue;
				V v(Q);
				v[0] = ref[o->id[i]][0];
				for (size_t q = 1; q < Q; q++) {
					V x(dim);
					for (size_t c = 0; c < dim; c++)
						x[c] = o->pos[i][c] - dt * st->getDirection(q)[c];
					for (auto& w : o->weights(x))
						v[q] += w.second * ref[w.first][q];
				}
				next[o->id[i]] = v;
			}
			V all;
			for (size_t i = 0; i < o->id.size(); i++)
				for (size_t q = 0; q < Q; q++) {
					const double tol = 1e-6 * (1 + Q);
					mc::check_close(f.at(q)(i), next[o->id[i]][q], q ? tol : 0, what + (q ? ":stream" : ":rest"), mc::cat("step ", step + 1, " dt=", dt, " population ", q, " of node ", i));
					mc::check_close(old.at(q)(i), ref[o->id[i]][q], tol, what + ":old", mc::cat("old populations after step ", step + 1, " dt=", dt, " population ", q, " of node ", i));
					all.push_back(f.at(q)(i));
				}
			mc::state(all);
			mc::transition();
			ref = next;
		}
	}
};
template<size_t dim> void explore(const std::vector<MeshSpec>& meshes, const std::vector<StencilType>& types, const V& cfl) {
	struct Pts {
		const char* n;
		SupportPointsName p;
	};
	const std::vector<Pts> pts = { { "lobatto", GAUSS_LOBATTO_POINTS }, { "equidistant", EQUIDISTANT_POINTS }, { "lobatto-chebyshev", GAUSS_LOBATTO_CHEBYSHEV_POINTS } };
	for (size_t mi = 0; mi < meshes.size(); mi++)
		for (auto t : types)
			for (size_t order = 1; order <= (dim == 2 ? mc::tier(4, 6) : mc::tier(2, 4)); order++)
				for (size_t p = 0; p < pts.size(); p++)
					for (double scaling : V { 1.0, 2.5, std::sqrt(3.0) }) {
						auto& m = meshes[mi];
						const auto st = cl::make(t, 1.0);
						const size_t Q = st->getQ();
						if (!mc::thorough()) {
							// pairwise thinning of the options that act independently; the full product in the thorough tier
							if (p && (scaling != 1.0 || order < 2))
								continue;
							if (scaling == std::sqrt(3.0) && order != 1 + mi % 2)
								continue;
							if (dim == 3 && order > 1 && Q > 30)
								continue;
							if (dim == 3 && p && Q != 15)
								continue;
						}
						if (Q > 100 && (order > 1 || p))
							continue;
						if (dim == 3 && Q > 30 && order > 2)
							continue;
						std::string name;
						for (auto& s : cl::stencils())
							if (s.type == t)
								name = s.name;
						mc::run_case(mc::cat(dim, "d-", m.name, "-", name, "-p", order, "-", pts[p].n, "-s", scaling), [&]() {
							const std::string key = mc::cat(m.cartesian ? "cartesian" : "q1", ":", name);
							Run<dim> r(m, order, pts[p].p, t, scaling);
							// distances in units of the grid: fractions and multiples of a cell, whole node spacings
							std::vector<double> dts;
							for (double c : cfl)
								dts.push_back(c * r.h / scaling);
							if (order > 1)
								dts.push_back(r.h * r.o->one[order / 2 + (r.o->one[order / 2] == 0)] / scaling);
							for (size_t k = 0; k < dts.size(); k++) {
								r.sl->setDeltaT(dts[k]);
								r.sl->reassemble();
								r.compare(dts[k], key + ":operator");
							}
							r.stream(dts.back(), key);
							mc::outcome(mc::cat(dim, "d:", m.name, ":p", order));
						});
						// histories: all sequences of time steps and repeated assembly
						if (order == (dim == 2 ? 2 : 1) && p == 0 && scaling == 1.0 && (Q < 10 || Q == 15))
							mc::run_case(mc::cat("history-", dim, "d-", m.name, "-", name), [&]() {
								const std::string key = mc::cat("history:", dim, "d");
								const V c = { 0.4, 1.0, 1.6 };
								const bool r0 = mi == 0 && dim == 2;
								mc::sequences(5, m.cells[0] == 3 || r0 ? 3 : mc::tier(2, 3), [&](const std::vector<size_t>& ops) {
									if (ops.empty() || ops[0] > 2)
										return;
									Run<dim> r(m, order, pts[p].p, t, scaling);
									double dt = 0;
									bool assembled = false;
									std::string h;
									for (size_t o : ops) {
										if (o < 3) {
											dt = c[o] * r.h;
											r.sl->setDeltaT(dt);
											assembled = false;
										} else if (o == 3) {
											r.sl->reassemble();
											assembled = true;
										} else {
											if (!assembled)
												r.sl->reassemble();
											assembled = true;
											r.stream(dt, key);
										}
										h += "dDtas"[o < 3 ? o : o];
									}
									if (!assembled)
										r.sl->reassemble();
									r.compare(dt, key + ":operator");
									r.stream(dt, key);
									mc::state(h);
								});
							});
						// time steps that carry the populations across many cells
						if (order < 3 && p == 0 && scaling == 1.0 && (Q < 10 || Q == 15))
							mc::run_case(mc::cat("far-", dim, "d-", m.name, "-", name, "-p", order), [&]() {
								const std::string key = mc::cat("far:", m.cartesian ? "cartesian" : "q1", ":", dim, "d");
								Run<dim> r(m, order, pts[p].p, t, scaling);
								for (double c : { 5.3, 9.0, 12.7, 15.2 }) {
									r.sl->setDeltaT(c * r.h);
									r.sl->reassemble();
									r.compare(c * r.h, key + ":operator");
									r.stream(c * r.h, key);
									mc::state(mc::cat("far", c));
								}
								mc::outcome("many cells");
							});
						// time steps next to each other: up and down by small fractions
						if (order == (dim == 2 ? 2 : 1) && p == 0 && scaling == 1.0 && (Q < 10 || Q == 15))
							mc::run_case(mc::cat("nearby-", dim, "d-", m.name, "-", name), [&]() {
								const std::string key = mc::cat("nearby:", dim, "d");
								Run<dim> r(m, order, pts[p].p, t, scaling);
								for (double c : { 0.4, 1.6 })
									for (double eps : { 0.1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6 })
										for (int sign : { -1, 1 }) {
											const double dt = c * r.h;
											r.sl->setDeltaT(dt);
											r.sl->reassemble();
											r.sl->setDeltaT(dt * (1 + sign * eps));
											mc::check(std::fabs(r.sl->getDeltaT() - dt * (1 + sign * eps)) <= 1e-15 * dt, key + ":deltaT", mc::cat("time step ", dt, " changed by ", sign * eps));
											r.sl->reassemble();
											r.compare(dt * (1 + sign * eps), key + ":operator");
										}
							});
					}
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	mc::init(argc, argv);
	const double pi2 = 2 * M_PI;
	std::vector<MeshSpec> m2 = { { "2x2", { 1, 1 }, { 1, 1 }, 1, 0, true }, { "4x4", { 1, 1 }, { 1, 1 }, 2, 0, true }, { "3x2", { 3, 2 }, { 3, 2 }, 0, 0, true }, { "flat4x2", { 1,
			0.3 }, { 2, 1 }, 1, 0, true }, { "stretched", { 1, 2 }, { 1, 1 }, 2, 1, true }, { "2pi", { pi2, pi2 }, { 1, 1 }, 1, 0, true }, { "q1-2x2", { 1, 1 }, { 1, 1 }, 1, 0, false }, { "q1-wavy",
			{ 1, 1 }, { 2, 2 }, 1, 2, false }, { "q1-stretched", { 2, 1 }, { 1, 1 }, 2, 1, false } };
	std::vector<MeshSpec> m3 = { { "2x2x2", { 1, 1, 1 }, { 1, 1, 1 }, 1, 0, true }, { "3x2x2", { 1.5, 1, 0.8 }, { 3, 2, 2 }, 0, 0, true }, { "stretched", { 1, 1, 2 }, { 1, 1, 1 }, 1, 1, true }, {
			"q1-wavy", { 1, 1, 1 }, { 2, 2, 2 }, 0, 2, false } };
	if (mc::thorough()) {
		m2.push_back( { "1x1", { 1, 1 }, { 1, 1 }, 0, 0, true });
		m2.push_back( { "q1-10.3", { 10.3, 10.3 }, { 1, 1 }, 2, 0, false });
		m2.push_back( { "8x8", { 1, 1 }, { 1, 1 }, 3, 0, true });
		m3.push_back( { "4x4x4", { 1, 1, 1 }, { 1, 1, 1 }, 2, 0, true });
		m3.push_back( { "q1-2x2x2", { 2, 1, 1 }, { 1, 1, 1 }, 1, 0, false });
	}
	std::vector<StencilType> t2 = { Stencil_D2Q9, Stencil_D2Q19H, Stencil_D2Q19V, Stencil_D2Q25H };
	std::vector<StencilType> t3 = { Stencil_D3Q13, Stencil_D3Q15, Stencil_D3Q19, Stencil_D3Q21, Stencil_D3Q27, Stencil_D3Q45, Stencil_D3V27, Stencil_D3Q77 };
	if (mc::thorough())
		t2.push_back(Stencil_D2Q777);
	V c2 = { 0.1, 1. / 3, 1.0, 1.7 }, c3 = { 0.3, 1.0 };
	if (mc::thorough()) {
		c2 = V { 1e-3, 0.1, 0.25, 1. / 3, 0.5, 0.75, 1.0, 1.25, 1.7, 2.0, 3.3 };
		c3 = V { 0.1, 0.3, 0.5, 1.0, 1.5 };
	}
	explore<2>(m2, t2, c2);
	explore<3>(m3, t3, c3);
	mc::finish();
}
