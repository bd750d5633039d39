// S18: filters damp exactly the modes they name
#include "mc.h"
#include "deal.II/dofs/dof_handler.h"
#include "deal.II/grid/grid_generator.h"
#include "deal.II/grid/tria.h"
#include "natrium/advection/AdvectionTools.h"
#include "natrium/smoothing/ExponentialFilter.h"
#include "natrium/smoothing/NewFilter.h"
using namespace natrium;
typedef std::vector<double> V;

static double legendre(size_t n, double x) { // on [0,1]
	const double t = 2 * x - 1;
	double a = 1, b = t;
	if (n == 0)
		return a;
	for (size_t k = 1; k < n; k++) {
		const double c = ((2 * k + 1) * t * b - k * a) / (k + 1);
		a = b;
		b = c;
	}
	return b;
}
struct Par {
	std::string id;
	bool fresh; // NewFilter
	double alpha, s;
	size_t Nc;
	bool sum;
};
static std::vector<Par> parameters(size_t dim, size_t p) {
	std::vector<Par> r;
	for (double alpha : mc::thorough() ? V { 0, 0.3, 10, 36 } : V { 0.3, 10 })
		for (double s : mc::thorough() ? V { 0, 1, 2.5, 8, 20 } : V { 1, 8 }) {
			for (int sum = 0; sum < 2; sum++)
				for (size_t Nc = 0; Nc <= (sum ? dim * p : p); Nc++)
					r.push_back(Par { mc::cat("exp(a=", alpha, ",s=", s, ",Nc=", Nc, sum ? ",sum)" : ",max)"), false, alpha, s, Nc, (bool) sum });
			r.push_back(Par { mc::cat("new(a=", alpha, ",s=", s, ")"), true, alpha, s, 0, true });
		}
	return r;
}
static double sigma(const Par& q, size_t dim, size_t p, const std::vector<size_t>& m) {
	size_t mx = 0, sum = 0;
	for (size_t k : m) {
		mx = std::max(mx, k);
		sum += k;
	}
	if (q.fresh)
		return std::exp(-q.alpha * std::pow((double) sum / (dim * p), q.s));
	const double d = q.sum ? sum : mx, top = q.sum ? dim * p : p;
	if (d < q.Nc)
		return 1;
	return std::exp(-q.alpha * std::pow((d + 1 - q.Nc) / (top + 1 - q.Nc), q.s));
}

template<size_t dim> void explore() {
	for (SupportPointsName points : { GAUSS_LOBATTO_POINTS, GAUSS_CHEBYSHEV_POINTS, EQUIDISTANT_POINTS, GAUSS_LOBATTO_CHEBYSHEV_POINTS })
		for (QuadratureName quad : { QGAUSS_LOBATTO, QGAUSS })
			for (size_t p = 1; p <= (dim == 3 ? mc::tier<size_t>(2, 4) : mc::tier<size_t>(4, 8)); p++)
				for (int mesh = 0; mesh < 2; mesh++)
					mc::run_case(mc::cat(dim, "d/points=", points, "/quad=", quad, "/p=", p, "/mesh=", mesh), [&] {
						if (dim == 3 && !mc::thorough() && (points != GAUSS_LOBATTO_POINTS && p == 2 && mesh == 1))
							return;
						auto fe = AdvectionTools::make_fe_by_name<dim>(points, p, true);
						auto qf = AdvectionTools::make_quadrature_by_name<dim>(quad, p + 1);
						dealii::Triangulation<dim> tria;
						if (mesh == 0)
							dealii::GridGenerator::hyper_cube(tria, 0.0, 1.0);
						else {
							dealii::Point<dim> a, b;
							std::vector<unsigned int> n;
							for (size_t x = 0; x < dim; x++) {
								a(x) = -0.5;
								b(x) = 1 + 3.0 * x;
								n.push_back(x + 1);
							}
							dealii::GridGenerator::subdivided_hyper_rectangle(tria, n, a, b);
							tria.begin_active()->set_refine_flag();
							tria.execute_coarsening_and_refinement();
						}
						dealii::DoFHandler<dim> dh(tria);
						dh.distribute_dofs(*fe);
						const size_t n = fe->dofs_per_cell, cells = tria.n_active_cells();
						const auto& sp = fe->get_unit_support_points();
						// all modes as nodal values
						std::vector<std::vector<size_t> > modes;
						mc::product(std::vector<size_t>(dim, p + 1), [&](const std::vector<size_t>& m) {modes.push_back(m);});
						std::vector<V> nodal;
						for (auto& m : modes) {
							V v(n);
							for (size_t i = 0; i < n; i++) {
								v[i] = 1;
								for (size_t x = 0; x < dim; x++)
									v[i] *= legendre(m[x], sp[i](x));
							}
							nodal.push_back(v);
						}
						std::vector<dealii::types::global_dof_index> idx(n);
						distributed_vector f(dealii::complete_index_set(dh.n_dofs()), MPI_COMM_WORLD);
						for (auto& par : parameters(dim, p)) {
							boost::shared_ptr<Filter<dim> > filter;
							if (par.fresh)
								filter = boost::make_shared<NewFilter<dim> >(par.alpha, par.s, *qf, *fe);
							else
								filter = boost::make_shared<ExponentialFilter<dim> >(par.alpha, par.s, par.Nc, par.sum, *qf, *fe);
							const std::string key = mc::cat(dim, "d:", par.fresh ? "new" : par.sum ? "exponential-sum" : "exponential-max");
							// round k: cell c holds mode c + k; in the last round sums of all modes with different weights
							for (size_t k = 0; k <= modes.size(); k++) {
								std::vector<V> want, amp;
								size_t c = 0;
								for (auto cell = dh.begin_active(); cell != dh.end(); ++cell, ++c) {
									cell->get_dof_indices(idx);
									V a(modes.size(), 0.0);
									if (k < modes.size())
										a[(c + k) % modes.size()] = 1 + 0.1 * c;
									else
										for (size_t m = 0; m < a.size(); m++)
											a[m] = 1 + 0.3 * ((m * 5 + c) % 7);
									for (size_t i = 0; i < n; i++) {
										double x = 0;
										for (size_t m = 0; m < a.size(); m++)
											x += a[m] * nodal[m][i];
										f(idx[i]) = x;
									}
									amp.push_back(a);
								}
								for (int times = 1; times <= 2; times++) {
									filter->applyFilter(dh, f);
									mc::transition();
									c = 0;
									for (auto cell = dh.begin_active(); cell != dh.end(); ++cell, ++c) {
										cell->get_dof_indices(idx);
										V got(n);
										double scale = 0, err = 0;
										for (size_t m = 0; m < modes.size(); m++) {
											amp[c][m] *= sigma(par, dim, p, modes[m]);
										}
										for (size_t i = 0; i < n; i++) {
											double x = 0;
											for (size_t m = 0; m < modes.size(); m++)
												x += amp[c][m] * nodal[m][i];
											got[i] = f(idx[i]);
											scale = std::max(scale, std::fabs(x));
											err = std::isfinite(got[i]) ? std::max(err, std::fabs(x - got[i])) : 1e300;
										}
										std::string which = "all modes";
										if (k < modes.size()) {
											which = "mode";
											for (size_t x : modes[(c + k) % modes.size()])
												which += mc::cat(" ", x);
										}
										mc::check(err < 1e-9 * (1 + scale) * n, key, mc::cat("filter ", par.id, ", ", which, " in cell ", c, ", application ", times, ": off by ", err));
										mc::state(got);
									}
								}
							}
							mc::outcome(key + (par.Nc == 0 ? " Nc=0" : par.Nc == p ? " Nc=p" : ""));
						}
						mc::note("cells", cells);
					});
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	explore<1>();
	explore<2>();
	explore<3>();
	mc::finish();
}
