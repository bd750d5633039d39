// S14: the discontinuous Galerkin advection operator on periodic domains: constants, conservation, energy,
// derivatives of polynomials, translation invariance, no mixing; and all bounded histories of reassembly
#include "flow.h"
#include "collide.h"
#include "natrium/advection/SEDGMinLee.h"
#include <deal.II/fe/fe_values.h>
using namespace natrium;
using namespace fl;

struct MeshSpec {
	const char* name;
	V L;
	std::vector<unsigned> cells;
	size_t level;
	int map; // 0 none, 1 stretched, 2 wavy, 3 sheared (in the interior of a periodic x direction)
};
inline Spec spec_of(const MeshSpec& m, size_t dim) {
	Spec s;
	s.level = m.level;
	s.length = m.L;
	s.cells = m.cells;
	s.cartesian = m.map < 2;
	const V L = m.L;
	if (m.map == 1)
		s.map = [L,dim](const V& x) {
			V y = x;
			for (size_t a = 0; a < dim; a++)
				y[a] = x[a] + (0.3 - 0.1 * a) * x[a] * (L[a] - x[a]) / L[a];
			return y;
		};
	if (m.map == 2)
		s.map = [L,dim](const V& x) {
			V y = x;
			for (size_t a = 0; a < dim; a++) {
				double p = 0.05 * L[a];
				for (size_t b = 0; b < dim; b++)
					p *= std::sin(2 * M_PI * x[b] / L[b]);
				y[a] = x[a] + p;
			}
			return y;
		};
	return s;
}
typedef std::map<std::pair<size_t, size_t>, double> Sparse;
template<size_t dim> struct Run {
	Flow<dim> problem;
	boost::shared_ptr<Stencil> st;
	boost::shared_ptr<SEDGMinLee<dim> > op;
	MeshSpec m;
	size_t order, n;
	V mass; // diagonal mass matrix
	std::vector<V> pos;
	std::vector<size_t> cell_of, node_of;
	std::vector<V> centre, size;
	V lo, hi;

	Run(const MeshSpec& ms, size_t p, StencilType t, double scaling, bool central) :
			problem(spec_of(ms, dim)), st(cl::make(t, scaling)), m(ms), order(p) {
		problem.refineAndTransform();
		op = boost::make_shared<SEDGMinLee<dim> >(problem, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, central);
		op->setupDoFs();
		geometry();
	}
	void geometry() {
		const auto& dh = *op->getDoFHandler();
		const auto& fe = *op->getFe();
		n = dh.n_dofs();
		mass.assign(n, 0);
		pos.assign(n, V(dim));
		cell_of.assign(n, 0);
		node_of.assign(n, 0);
		centre.clear();
		size.clear();
		// lumped mass: integral of the shape functions, with a fine Gauss quadrature
		dealii::MappingQ1<dim> mapping;
		dealii::FEValues<dim> v(mapping, fe, dealii::QGauss<dim>(order + 2), dealii::update_values | dealii::update_JxW_values);
		std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
		for (auto c = dh.begin_active(); c != dh.end(); ++c) {
			v.reinit(c);
			c->get_dof_indices(dofs);
			for (size_t k = 0; k < dofs.size(); k++) {
				for (size_t q = 0; q < v.n_quadrature_points; q++)
					mass[dofs[k]] += v.shape_value(k, q) * v.JxW(q);
				auto p = mapping.transform_unit_to_real_cell(c, fe.get_unit_support_points()[k]);
				for (size_t a = 0; a < dim; a++)
					pos[dofs[k]][a] = p[a];
				cell_of[dofs[k]] = centre.size();
				node_of[dofs[k]] = k;
			}
			V x(dim), s(dim);
			for (size_t a = 0; a < dim; a++) {
				x[a] = c->center()[a];
				s[a] = std::fabs(c->vertex((1u << dim) - 1)[a] - c->vertex(0)[a]);
			}
			centre.push_back(x);
			size.push_back(s);
		}
	}
	Sparse block(size_t a, size_t b) const {
		Sparse r;
		const auto& M = op->getSystemMatrix().block(a - 1, b - 1);
		if (M.n_nonzero_elements())
			for (auto it = M.begin(); it != M.end(); ++it)
				if (it->value() != 0)
					r[ { it->row(), it->column() }] += it->value();
		return r;
	}
	void check(const std::string& key, bool central) {
		const size_t Q = st->getQ();
		double h = 1e300;
		for (auto& s : size)
			for (double x : s)
				h = std::min(h, x);
		for (size_t a = 1; a < Q; a++) {
			for (size_t b = 1; b < Q; b++)
				if (a != b)
					mc::check(block(a, b).empty(), key + ":mixing", mc::cat("direction ", a, " receives values of direction ", b));
			for (size_t i = 0; i < n; i++)
				if (!mc::check(op->getSystemVector().block(a - 1)(i) == 0, key + ":vector", "source term on a periodic domain"))
					break;
			const Sparse A = block(a, a);
			V e(dim);
			double speed = 0;
			for (size_t c = 0; c < dim; c++) {
				e[c] = st->getDirection(a)[c];
				speed += e[c] * e[c];
			}
			speed = std::sqrt(speed);
			const double scale = speed * order * order * 20 / h;
			V rows(n, 0.0), cols(n, 0.0);
			for (auto& x : A) {
				rows[x.first.first] += x.second;
				cols[x.first.second] += x.second * mass[x.first.first];
			}
			for (size_t i = 0; i < n; i++) {
				mc::check_close(rows[i], 0, 1e-11 * scale, key + ":constant", mc::cat("direction ", a, ": rate of change of a constant at node ", i));
				if (m.map != 2)
					mc::check_close(cols[i], 0, 1e-11 * scale * mass[i] * order * order, key + ":conservation", mc::cat("direction ", a, ": integral of the rate of change caused by node ", i));
				mc::transition(2);
			}
			if (m.map != 2) {
				// energy: symmetric part of M A
				Sparse S;
				for (auto& x : A) {
					S[x.first] += x.second * mass[x.first.first];
					S[ { x.first.second, x.first.first }] += x.second * mass[x.first.first];
				}
				double mm = 0;
				for (double x : mass)
					mm = std::max(mm, x);
				if (central) {
					for (auto& x : S)
						mc::check_close(x.second, 0, 1e-11 * scale * mm, key + ":energy", mc::cat("direction ", a, ": energy production of nodes ", x.first.first, ",", x.first.second));
				} else if (n <= mc::tier(260, 700)) {
					std::vector<V> D(n, V(n, 0.0));
					for (auto& x : S)
						D[x.first.first][x.first.second] = -x.second;
					const double shift = 1e-9 * scale * mm;
					bool ok = true;
					for (size_t j = 0; j < n && ok; j++) {
						double d = D[j][j] + shift;
						for (size_t k = 0; k < j; k++)
							d -= D[j][k] * D[j][k];
						if (!(d > 0)) {
							ok = false;
							break;
						}
						D[j][j] = std::sqrt(d);
						for (size_t i = j + 1; i < n; i++) {
							double s = D[i][j];
							if (j)
								for (size_t k = 0; k < j; k++)
									s -= D[i][k] * D[j][k];
							D[i][j] = s / D[j][j];
						}
					}
					mc::check(ok, key + ":energy", mc::cat("direction ", a, ": there are nodal values whose energy grows"));
				}
			}
			// derivatives of polynomials: every monomial
			std::vector<size_t> sizes(dim, order + 1);
			mc::product(sizes, [&](const std::vector<size_t>& deg) {
				size_t total = 0;
				for (size_t d : deg)
					total += d;
				if (m.map == 2 && total > order)
					return;
				V f(n), df(n, 0.0), r(n, 0.0);
				for (size_t i = 0; i < n; i++) {
					f[i] = 1;
					for (size_t c = 0; c < dim; c++)
						f[i] *= std::pow(pos[i][c] / m.L[c], (double) deg[c]);
					for (size_t c = 0; c < dim; c++) {
						if (!deg[c])
							continue;
						double g = deg[c] / m.L[c] * std::pow(pos[i][c] / m.L[c], (double) deg[c] - 1);
						for (size_t k = 0; k < dim; k++)
							if (k != c)
								g *= std::pow(pos[i][k] / m.L[k], (double) deg[k]);
						df[i] -= e[c] * g;
					}
				}
				for (auto& x : A)
					r[x.first.first] += x.second * f[x.first.second];
				for (size_t i = 0; i < n; i++) {
					bool seam = false; // the cell touches a periodic side across which the monomial jumps
					const V& c = centre[cell_of[i]];
					for (size_t k = 0; k < dim; k++)
						if (deg[k] && (c[k] - 0.7 * size[cell_of[i]][k] < 0 || c[k] + 0.7 * size[cell_of[i]][k] > m.L[k]))
							seam = true;
					if (seam)
						continue;
					mc::check_close(r[i], df[i], 1e-10 * scale, key + ":derivative", mc::cat("direction ", a, ": rate of change of monomial ", deg[0], ",", deg[1], dim == 3 ? mc::cat(",", deg[2]) : "", " at ", pos[i][0], ",", pos[i][1]));
				}
				mc::transition();
			});
			// translation invariance on uniform grids (the periodic sides are no different from inner faces)
			if (m.map == 0) {
				std::map<std::array<long, dim + 2>, double> ref;
				std::vector<size_t> per_cell(centre.size(), 0);
				std::map<std::array<long, dim + 2>, size_t> seen;
				for (auto& x : A) {
					const size_t i = x.first.first, j = x.first.second;
					if (std::fabs(x.second) < 1e-10 * scale)
						continue;
					std::array<long, dim + 2> key2;
					for (size_t k = 0; k < dim; k++) {
						const long N = std::lround(m.L[k] / size[0][k]);
						key2[k] = (std::lround((centre[cell_of[j]][k] - centre[cell_of[i]][k]) / size[0][k]) % N + N) % N;
					}
					key2[dim] = node_of[i];
					key2[dim + 1] = node_of[j];
					if (!ref.count(key2))
						ref[key2] = x.second;
					seen[key2]++;
					mc::check_close(x.second, ref[key2], 1e-9 * scale, key + ":translation", mc::cat("direction ", a, ": coupling of nodes ", i, " and ", j, " differs from that of another cell"));
				}
				for (auto& x : seen)
					if (!mc::check(x.second == centre.size(), key + ":translation", mc::cat("direction ", a, ": a coupling exists only in ", x.second, " of ", centre.size(), " cells")))
						break;
			}
			V s;
			for (auto& x : A)
				s.push_back(x.second);
			mc::state(s);
		}
		mc::trace();
	}
	Sparse whole() const {
		Sparse r;
		for (size_t a = 1; a < st->getQ(); a++)
			for (size_t b = 1; b < st->getQ(); b++)
				for (auto& x : block(a, b))
					r[ { (a - 1) * n + x.first.first, (b - 1) * n + x.first.second }] = x.second;
		return r;
	}
};
template<size_t dim> void explore(const std::vector<MeshSpec>& meshes, const std::vector<StencilType>& types) {
	for (size_t mi = 0; mi < meshes.size(); mi++)
		for (auto t : types)
			for (size_t order = 1; order <= (dim == 2 ? mc::tier(4, 6) : mc::tier(2, 3)); order++)
				for (bool central : { false, true })
					for (double scaling : mc::tier(V { 1.0, 2.5 }, V { 1.0, 2.5, std::sqrt(3.0), 30.0 })) {
						const auto& m = meshes[mi];
						const size_t Q = cl::make(t, 1.0)->getQ();
						if (!mc::thorough() && scaling != 1.0 && order != 2)
							continue;
						if (dim == 3 && Q > 30 && (order > 1 || scaling != 1.0 || mi))
							continue;
						if (dim == 3 && order * (mi + 1) > 3 && Q > 20 && !mc::thorough())
							continue;
						std::string name;
						for (auto& s : cl::stencils())
							if (s.type == t)
								name = s.name;
						mc::run_case(mc::cat(dim, "d-", m.name, "-", name, "-p", order, central ? "-central" : "-upwind", "-s", scaling), [&]() {
							Run<dim> r(m, order, t, scaling, central);
							r.op->setDeltaT(0.01);
							r.op->reassemble();
							r.check(mc::cat(central ? "central:" : "upwind:", name), central);
							mc::outcome(mc::cat(dim, "d:", m.name, central ? ":central" : ":upwind", ":p", order));
						});
						if (order == (dim == 2 ? 2 : 1) && scaling == 1.0 && (Q == 9 || Q == 15) && mi < 3)
							mc::run_case(mc::cat("history-", dim, "d-", m.name, "-", name, central ? "-central" : "-upwind"), [&]() {
								Run<dim> f(m, order, t, scaling, central);
								f.op->setDeltaT(0.01);
								f.op->reassemble();
								const Sparse ref = f.whole();
								mc::sequences(4, mc::tier(3, 4), [&](const std::vector<size_t>& ops) {
									Run<dim> r(m, order, t, scaling, central);
									std::string h;
									for (size_t o : ops) {
										if (o == 0)
											r.op->reassemble();
										else if (o == 3)
											r.op->setupDoFs();
										else
											r.op->setDeltaT(o == 1 ? 0.01 : 0.3);
										h += (char) ('a' + o);
										mc::transition();
									}
									r.op->reassemble();
									const Sparse w = r.whole();
									bool same = w.size() == ref.size();
									double e = 0;
									for (auto& x : ref) {
										auto it = w.find(x.first);
										e = std::max(e, it == w.end() ? 1e300 : std::fabs(it->second - x.second));
									}
									mc::check(same && e < 1e-10, "history:operator", mc::cat("operator after the history ", h, " (a: assemble, b/c: set time step, d: set up) differs by ", e));
									for (size_t a = 1; a < r.st->getQ(); a++)
										for (size_t i = 0; i < r.n; i++)
											mc::check(r.op->getSystemVector().block(a - 1)(i) == 0, "history:vector", "source term after " + h);
									mc::state(h);
								});
								if (!central)
									for (double dt : V { 0.0, 0.01, 1.0 }) {
										// the short constructor: upwind fluxes, whatever the time step
										Run<dim> r(m, order, t, scaling, false);
										r.op = boost::make_shared<SEDGMinLee<dim> >(r.problem, order, r.st, dt);
										r.op->setupDoFs();
										r.op->reassemble();
										const Sparse w = r.whole();
										double e = w.size() == ref.size() ? 0 : 1e300;
										for (auto& x : ref) {
											auto it = w.find(x.first);
											e = std::max(e, it == w.end() ? 1e300 : std::fabs(it->second - x.second));
										}
										mc::check(e < 1e-10, "constructor:operator", mc::cat("operator of the short constructor with time step ", dt, " differs by ", e));
										mc::check(r.op->getDeltaT() == dt, "constructor:dt", mc::cat("time step of the short constructor: ", r.op->getDeltaT(), " instead of ", dt));
									}
								mc::outcome("history");
							});
					}
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	mc::init(argc, argv);
	std::vector<MeshSpec> m2 = { { "3x3", { 1, 1 }, { 3, 3 }, 0, 0 }, { "4x2", { 2, 0.6 }, { 2, 1 }, 1, 0 }, { "2x2", { 1, 1 }, { 1, 1 }, 1, 0 }, { "stretched", { 1, 2 }, { 1, 1 }, 2, 1 }, { "wavy", { 1, 1 }, { 4, 4 },
			0, 2 } };
	std::vector<MeshSpec> m3 = { { "2x2x2", { 1, 1, 1 }, { 1, 1, 1 }, 1, 0 }, { "3x3x3", { 1, 1.5, 0.7 }, { 3, 3, 3 }, 0, 0 }, { "wavy", { 1, 1, 1 }, { 3, 3, 3 }, 0, 2 }, { "stretched", { 1, 1, 2 }, { 3, 3, 3 }, 0, 1 } };
	std::vector<StencilType> t2 = { Stencil_D2Q9, Stencil_D2Q19H, Stencil_D2Q19V, Stencil_D2Q25H };
	std::vector<StencilType> t3 = { Stencil_D3Q13, Stencil_D3Q15, Stencil_D3Q19, Stencil_D3Q21, Stencil_D3Q27, Stencil_D3Q45 };
	if (mc::thorough()) {
		m2.push_back( { "8x8", { 1, 1 }, { 1, 1 }, 3, 0 });
		m2.push_back( { "5x3", { 1, 3 }, { 5, 3 }, 0, 0 });
	}
	explore<2>(m2, t2);
	explore<3>(m3, t3);
	mc::finish();
}
