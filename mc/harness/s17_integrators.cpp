// S17: time integrators apply their own scheme, step after step, independent of history
#include "mc.h"
#include "natrium/timeintegration/DealIIWrapper.h"
#include "natrium/timeintegration/ExponentialTimeIntegrator.h"
#include "natrium/timeintegration/RungeKutta5LowStorage.h"
#include "natrium/timeintegration/ThetaMethod.h"
#include "natrium/utilities/CFDSolverUtilities.h"
#include "deal.II/lac/block_sparsity_pattern.h"
#include "deal.II/lac/dynamic_sparsity_pattern.h"
using namespace natrium;
typedef std::vector<double> V;
typedef std::vector<V> M;

// ---- dense reference --------------------------------------------------------------------
static V mul(const M& A, const V& x) {
	V y(x.size(), 0.0);
	for (size_t i = 0; i < x.size(); i++)
		for (size_t j = 0; j < x.size(); j++)
			y[i] += A[i][j] * x[j];
	return y;
}
static V axpy(V x, double a, const V& y) {
	for (size_t i = 0; i < x.size(); i++)
		x[i] += a * y[i];
	return x;
}
static double norm(const V& x) {
	double s = 0;
	for (double a : x)
		s += a * a;
	return std::sqrt(s);
}
static double inf(const M& A) {
	double m = 0;
	for (auto& r : A) {
		double s = 0;
		for (double a : r)
			s += std::fabs(a);
		m = std::max(m, s);
	}
	return m;
}
static V solve(M A, V b) {
	const size_t n = b.size();
	for (size_t k = 0; k < n; k++) {
		size_t p = k;
		for (size_t i = k + 1; i < n; i++)
			if (std::fabs(A[i][k]) > std::fabs(A[p][k]))
				p = i;
		std::swap(A[k], A[p]);
		std::swap(b[k], b[p]);
		for (size_t i = k + 1; i < n; i++) {
			const double f = A[i][k] / A[k][k];
			for (size_t j = k; j < n; j++)
				A[i][j] -= f * A[k][j];
			b[i] -= f * b[k];
		}
	}
	for (size_t k = n; k-- > 0;) {
		for (size_t j = k + 1; j < n; j++)
			b[k] -= A[k][j] * b[j];
		b[k] /= A[k][k];
	}
	return b;
}
struct Sys {
	std::string id;
	size_t blocks, m; // blocks of size m
	M A;
	V b, f0;
	bool keep_zeros; // zero entries belong to the sparsity pattern
	size_t n() const {
		return blocks * m;
	}
	V rhs(const V& f) const {
		return axpy(mul(A, f), 1, b);
	}
};
// exact solution by scaled Taylor series of y' = Ay + b over many substeps
static V exact(const Sys& s, V f, double dt) {
	const size_t k = 4 + (size_t) std::ceil(4 * dt * (inf(s.A) + 1));
	const double h = dt / k;
	for (size_t i = 0; i < k; i++) {
		V t = s.rhs(f), y = axpy(f, h, t);
		double c = h;
		for (size_t j = 2; j < 24; j++) {
			t = mul(s.A, t);
			c *= h / j;
			y = axpy(y, c, t);
		}
		f = y;
	}
	return f;
}
// exact result of the Krylov approximation with m directions: V phi_1(H) e_1 with the correction of phiv
struct Tab {
	M a;
	V b;
};
static V rk(const Sys& s, const V& f, double dt, const Tab& t) {
	std::vector<V> k;
	for (size_t i = 0; i < t.b.size(); i++) {
		V y = f;
		for (size_t j = 0; j < i; j++)
			y = axpy(y, dt * t.a[i][j], k[j]);
		if (i < t.a[i].size() && t.a[i][i] != 0) { // diagonally implicit stage
			M B(s.n(), V(s.n(), 0.0));
			for (size_t p = 0; p < s.n(); p++)
				for (size_t q = 0; q < s.n(); q++)
					B[p][q] = (p == q ? 1 : 0) - dt * t.a[i][i] * s.A[p][q];
			k.push_back(solve(B, s.rhs(y)));
		} else
			k.push_back(s.rhs(y));
	}
	V y = f;
	for (size_t i = 0; i < t.b.size(); i++)
		y = axpy(y, dt * t.b[i], k[i]);
	return y;
}
static V rk5(const Sys& s, V f, double dt) {
	static const double a[] = { 0, -567301805773.0 / 1357537059087.0, -2404267990393.0 / 2016746695238.0, -3550918686646.0 / 2091501179385.0,
			-1275806237668.0 / 842570457699.0 };
	static const double b[] = { 1432997174477.0 / 9575080441755.0, 5161836677717.0 / 13612068292357.0, 1720146321549.0 / 2090206949498.0,
			3134564353537.0 / 4481467310338.0, 2277821191437.0 / 14882151754819.0 };
	V d(f.size(), 0.0);
	for (int i = 0; i < 5; i++) {
		V k = s.rhs(f);
		for (size_t j = 0; j < d.size(); j++)
			d[j] = a[i] * d[j] + dt * k[j];
		f = axpy(f, b[i], d);
	}
	return f;
}
static V theta(const Sys& s, const V& f, double dt, double th) {
	M B(s.n(), V(s.n(), 0.0));
	for (size_t p = 0; p < s.n(); p++)
		for (size_t q = 0; q < s.n(); q++)
			B[p][q] = (p == q ? 1 : 0) - th * dt * s.A[p][q];
	V r = axpy(mul(B, f), dt, s.rhs(f));
	return solve(B, r);
}
static Tab tableau(DealIntegratorName n) {
	const double g = 1. - 1. / std::sqrt(2.);
	switch (n) {
	case FORWARD_EULER:
		return Tab { { { } }, { 1 } };
	case RK_THIRD_ORDER:
		return Tab { { { }, { .5 }, { -1, 2 } }, { 1. / 6, 2. / 3, 1. / 6 } };
	case RK_CLASSIC_FOURTH_ORDER:
		return Tab { { { }, { .5 }, { 0, .5 }, { 0, 0, 1 } }, { 1. / 6, 1. / 3, 1. / 3, 1. / 6 } };
	case BACKWARD_EULER:
		return Tab { { { 1 } }, { 1 } };
	case IMPLICIT_MIDPOINT:
		return Tab { { { .5 } }, { 1 } };
	case CRANK_NICOLSON:
		return Tab { { { 0 }, { .5, .5 } }, { .5, .5 } };
	case SDIRK_TWO_STAGES:
		return Tab { { { g }, { 1 - g, g } }, { 1 - g, g } };
	case HEUN_EULER:
		return Tab { { { }, { 1 } }, { .5, .5 } };
	case BOGACKI_SHAMPINE:
		return Tab { { { }, { .5 }, { 0, .75 }, { 2. / 9, 1. / 3, 4. / 9 } }, { 2. / 9, 1. / 3, 4. / 9, 0 } };
	case DOPRI:
		return Tab { { { }, { 1. / 5 }, { 3. / 40, 9. / 40 }, { 44. / 45, -56. / 15, 32. / 9 }, { 19372. / 6561, -25360. / 2187, 64448. / 6561, -212. / 729 }, {
				9017. / 3168, -355. / 33, 46732. / 5247, 49. / 176, -5103. / 18656 }, { 35. / 384, 0, 500. / 1113, 125. / 192, -2187. / 6784, 11. / 84 } }, {
				35. / 384, 0, 500. / 1113, 125. / 192, -2187. / 6784, 11. / 84, 0 } };
	case FEHLBERG:
		return Tab { { { }, { .25 }, { 3. / 32, 9. / 32 }, { 1932. / 2197, -7200. / 2197, 7296. / 2197 }, { 439. / 216, -8, 3680. / 513, -845. / 4104 }, {
				-8. / 27, 2, -3544. / 2565, 1859. / 4104, -11. / 40 } }, { 16. / 135, 0, 6656. / 12825, 28561. / 56430, -9. / 50, 2. / 55 } };
	case CASH_KARP:
		return Tab { { { }, { .2 }, { 3. / 40, 9. / 40 }, { .3, -.9, 1.2 }, { -11. / 54, 2.5, -70. / 27, 35. / 27 }, { 1631. / 55296, 175. / 512, 575. / 13824,
				44275. / 110592, 253. / 4096 } }, { 37. / 378, 0, 250. / 621, 125. / 594, 0, 512. / 1771 } };
	default:
		throw std::runtime_error("tableau");
	}
}

// ---- the four pairs of types -----------------------------------------------------------------
template<class MAT, class VEC> struct Store;
static bool in_pattern(const Sys& s, size_t i, size_t j) {
	return i == j || s.keep_zeros || s.A[i][j] != 0;
}
template<> struct Store<sparse_matrix, numeric_vector> {
	dealii::SparsityPattern sp;
	sparse_matrix A;
	numeric_vector b, f;
	static const char* name() {
		return "sparse";
	}
	static bool blocked() {
		return false;
	}
	Store(const Sys& s) :
			b(s.n()), f(s.n()) {
		dealii::DynamicSparsityPattern d(s.n(), s.n());
		for (size_t i = 0; i < s.n(); i++)
			for (size_t j = 0; j < s.n(); j++)
				if (in_pattern(s, i, j))
					d.add(i, j);
		sp.copy_from(d);
		A.reinit(sp);
		for (size_t i = 0; i < s.n(); i++)
			for (size_t j = 0; j < s.n(); j++)
				if (in_pattern(s, i, j))
					A.set(i, j, s.A[i][j]);
		for (size_t i = 0; i < s.n(); i++) {
			b(i) = s.b[i];
			f(i) = s.f0[i];
		}
	}
};
template<> struct Store<distributed_sparse_matrix, distributed_vector> {
	distributed_sparse_matrix A;
	distributed_vector b, f;
	static const char* name() {
		return "distributed";
	}
	static bool blocked() {
		return false;
	}
	Store(const Sys& s) {
		const dealii::IndexSet is = dealii::complete_index_set(s.n());
		dealii::TrilinosWrappers::SparsityPattern sp(is, MPI_COMM_WORLD);
		for (size_t i = 0; i < s.n(); i++)
			for (size_t j = 0; j < s.n(); j++)
				if (in_pattern(s, i, j))
					sp.add(i, j);
		sp.compress();
		A.reinit(sp);
		b.reinit(is, MPI_COMM_WORLD);
		f.reinit(is, MPI_COMM_WORLD);
		for (size_t i = 0; i < s.n(); i++) {
			for (size_t j = 0; j < s.n(); j++)
				if (in_pattern(s, i, j))
					A.set(i, j, s.A[i][j]);
			b(i) = s.b[i];
			f(i) = s.f0[i];
		}
		A.compress(dealii::VectorOperation::insert);
	}
};
template<> struct Store<sparse_block_matrix, block_vector> {
	dealii::BlockSparsityPattern sp;
	sparse_block_matrix A;
	block_vector b, f;
	static const char* name() {
		return "block";
	}
	static bool blocked() {
		return true;
	}
	Store(const Sys& s) :
			sp(s.blocks, s.blocks), b(s.blocks, s.m), f(s.blocks, s.m) {
		dealii::BlockDynamicSparsityPattern d(s.blocks, s.blocks);
		for (size_t I = 0; I < s.blocks; I++)
			for (size_t J = 0; J < s.blocks; J++)
				d.block(I, J).reinit(s.m, s.m);
		d.collect_sizes();
		for (size_t i = 0; i < s.n(); i++)
			for (size_t j = 0; j < s.n(); j++)
				if (in_pattern(s, i, j))
					d.add(i, j);
		sp.copy_from(d);
		A.reinit(sp);
		for (size_t i = 0; i < s.n(); i++)
			for (size_t j = 0; j < s.n(); j++)
				if (in_pattern(s, i, j))
					A.set(i, j, s.A[i][j]);
		for (size_t i = 0; i < s.n(); i++) {
			b(i) = s.b[i];
			f(i) = s.f0[i];
		}
	}
};
template<> struct Store<distributed_sparse_block_matrix, distributed_block_vector> {
	distributed_sparse_block_matrix A;
	distributed_block_vector b, f;
	static const char* name() {
		return "distributed-block";
	}
	static bool blocked() {
		return true;
	}
	Store(const Sys& s) :
			b(s.blocks), f(s.blocks) {
		const dealii::IndexSet is = dealii::complete_index_set(s.m);
		A.reinit(s.blocks, s.blocks);
		for (size_t I = 0; I < s.blocks; I++) {
			for (size_t J = 0; J < s.blocks; J++) {
				dealii::TrilinosWrappers::SparsityPattern sp(is, MPI_COMM_WORLD);
				for (size_t i = 0; i < s.m; i++)
					for (size_t j = 0; j < s.m; j++)
						if (in_pattern(s, I * s.m + i, J * s.m + j) || i == j)
							sp.add(i, j);
				sp.compress();
				A.block(I, J).reinit(sp);
			}
			b.block(I).reinit(is, MPI_COMM_WORLD);
			f.block(I).reinit(is, MPI_COMM_WORLD);
		}
		A.collect_sizes();
		b.collect_sizes();
		f.collect_sizes();
		for (size_t i = 0; i < s.n(); i++) {
			for (size_t j = 0; j < s.n(); j++)
				if (in_pattern(s, i, j))
					A.set(i, j, s.A[i][j]);
			b(i) = s.b[i];
			f(i) = s.f0[i];
		}
		A.compress(dealii::VectorOperation::insert);
	}
};
template<class VEC> V get(const VEC& f) {
	V r;
	for (size_t i = 0; i < f.size(); i++)
		r.push_back(f(i));
	return r;
}

// ---- the integrators ---------------------------------------------------------------------------
struct Method {
	std::string id;
	int kind; // 0 rk5, 1 theta, 2 exponential, 3 deal.II
	double th;
	DealIntegratorName deal;
	DealSolverName solver;
	double rel; // accuracy of the linear solver
};
static std::vector<Method> methods() {
	std::vector<Method> r;
	r.push_back(Method { "rk5", 0, 0, NONE, BICGSTAB, 1e-12 });
	for (double t : mc::thorough() ? V { 0, 0.25, 0.5, 0.75, 1 } : V { 0, 0.5, 1 })
		r.push_back(Method { mc::cat("theta=", t), 1, t, NONE, BICGSTAB, 1e-5 });
	r.push_back(Method { "exponential", 2, 0, NONE, BICGSTAB, 1e-10 });
	for (int n = 0; n < 12; n++)
		r.push_back(Method { CFDSolverUtilities::get_integrator_name(OTHER, (DealIntegratorName) n), 3, 0, (DealIntegratorName) n, GMRES, n >= 3 && n < 7 ? 1e-4 : 1e-12 });
	return r;
}
template<class MAT, class VEC> boost::shared_ptr<TimeIntegrator<MAT, VEC> > create(const Method& m, double dt, const VEC& f, size_t blocks);
template<class MAT, class VEC> boost::shared_ptr<TimeIntegrator<MAT, VEC> > exponential(double dt, size_t blocks, bool blocked);
#define MAKE_EXP(MAT, VEC, ARGS) \
template<> boost::shared_ptr<TimeIntegrator<MAT, VEC> > exponential<MAT, VEC>(double dt, size_t blocks, bool) { \
	return boost::shared_ptr<TimeIntegrator<MAT, VEC> >(new ExponentialTimeIntegrator<MAT, VEC> ARGS); }
MAKE_EXP(sparse_matrix, numeric_vector, (dt))
MAKE_EXP(distributed_sparse_matrix, distributed_vector, (dt))
MAKE_EXP(sparse_block_matrix, block_vector, (dt, blocks))
MAKE_EXP(distributed_sparse_block_matrix, distributed_block_vector, (dt, blocks))
template<class MAT, class VEC> boost::shared_ptr<TimeIntegrator<MAT, VEC> > create(const Method& m, double dt, const VEC& f, size_t blocks, bool blocked) {
	typedef boost::shared_ptr<TimeIntegrator<MAT, VEC> > P;
	if (m.kind == 0)
		return P(new RungeKutta5LowStorage<MAT, VEC>(dt, f));
	if (m.kind == 1)
		return P(new ThetaMethod<MAT, VEC>(dt, f, m.th));
	if (m.kind == 2)
		return exponential<MAT, VEC>(dt, blocks, blocked);
	if (m.deal >= 7) // every step is accepted at once
		return P(new DealIIWrapper<MAT, VEC>(dt, m.deal, m.solver, 1.2, 0.8, 1e-8, 10, 1e8, 1e8));
	return P(new DealIIWrapper<MAT, VEC>(dt, m.deal, m.solver));
}
static V reference(const Method& m, const Sys& s, const V& f, double dt) {
	if (m.kind == 0)
		return rk5(s, f, dt);
	if (m.kind == 1)
		return theta(s, f, dt, m.th);
	if (m.kind == 2)
		return exact(s, f, dt);
	return rk(s, f, dt, tableau(m.deal));
}
// accuracy to expect: for the exponential integrator also that of six Krylov directions
static double tolerance(const Method& m, const Sys& s, const V& f, double dt) {
	const double scale = norm(f) + dt * norm(s.rhs(f)) + 1e-300;
	double t = m.rel * scale;
	if (m.kind == 2) {
		const double q = dt * inf(s.A);
		double e = 1;
		for (int k = 1; k <= 7; k++)
			e *= q / k;
		t += 4 * e * std::exp(q) * scale + 1e-10 * scale;
	}
	return t;
}
static std::string classify(const Sys& s) {
	return s.id.substr(0, s.id.find('#'));
}

/// one step from f with the integrator, compared with the reference
template<class MAT, class VEC> V step(TimeIntegrator<MAT, VEC>& ti, const Method& m, const Sys& s, Store<MAT, VEC>& st, double dt, bool pass_dt, const std::string& key,
		const std::string& where) {
	const V before = get(st.f);
	const V want = reference(m, s, before, dt);
	const double tol = tolerance(m, s, before, dt);
	double t1 = 0;
	try {
		t1 = ti.step(st.f, st.A, st.b, 0.75, pass_dt ? dt : 0.0);
	} catch (std::exception& e) {
		mc::violation(key + ":throws", where + ": " + std::string(e.what()).substr(0, 300));
		return before;
	}
	mc::transition();
	const V after = get(st.f);
	double err = 0;
	for (size_t i = 0; i < after.size(); i++)
		err = std::isfinite(after[i]) ? std::max(err, std::fabs(after[i] - want[i])) : 1e300;
	mc::check(err <= tol, key, mc::cat(where, ": deviates from the scheme by ", err, " (tolerance ", tol, ")"));
	mc::check_close(t1, 0.75 + dt, 1e-14, key + ":time", where + ": returned time");
	mc::check_close(ti.getTimeStepSize(), dt, 0, key + ":dt", where + ": step size afterwards");
	mc::state(after);
	return after;
}

// systems
static M dense(size_t n, const std::function<double(size_t, size_t)>& f) {
	M A(n, V(n, 0.0));
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j < n; j++)
			A[i][j] = f(i, j);
	return A;
}
static Sys make(const std::string& id, size_t blocks, size_t m, M A, bool source, bool keep) {
	Sys s { id, blocks, m, A, V(), V(), keep };
	for (size_t i = 0; i < blocks * m; i++) {
		s.b.push_back(source ? 0.3 * ((double) (i % 3) - 0.8) : 0.0);
		s.f0.push_back(1 + 0.5 * ((i * 7) % 5) - 0.9 * (i % 2));
	}
	return s;
}
static std::vector<Sys> systems() {
	std::vector<Sys> r;
	// all 2x2 matrices over {-1,0,1}
	mc::product( { 3, 3, 3, 3 }, [&](const std::vector<size_t>& x) {
		M A = {{(double)x[0] - 1, (double)x[1] - 1}, {(double)x[2] - 1, (double)x[3] - 1}};
		for (int src = 0; src < 2; src++)
			r.push_back(make(mc::cat("2x2#", x[0], x[1], x[2], x[3], src ? "+b" : ""), 2, 1, A, src, false));
	});
	// structured matrices: nilpotent, diagonal, advection, rotation, triangular; several sizes and blockings
	struct F {
		const char* id;
		std::function<double(size_t, size_t, size_t)> f;
	};
	const std::vector<F> fs = { { "zero", [](size_t, size_t, size_t) {return 0.0;} }, { "nilpotent", [](size_t i, size_t j, size_t) {
		return j == i + 1 ? 1.5 : 0.0;} }, { "diagonal", [](size_t i, size_t j, size_t) {return i == j ? -0.4 * (i + 1.) : 0.0;} }, { "identity",
			[](size_t i, size_t j, size_t) {return i == j ? 0.7 : 0.0;} }, { "upwind", [](size_t i, size_t j, size_t n) {
		return i == j ? -2. : (i + n - 1) % n == j ? 2. : 0.;} }, { "central", [](size_t i, size_t j, size_t n) {
		return (i + 1) % n == j ? 1. : (i + n - 1) % n == j ? -1. : 0.;} }, { "full", [](size_t i, size_t j, size_t) {
		return 0.2 * std::cos(1. + 3. * i + 5. * j * j);} } };
	const std::vector<std::pair<size_t, size_t> > sizes = mc::thorough() ? std::vector<std::pair<size_t, size_t> > { { 1, 1 }, { 1, 3 }, { 3, 1 }, { 2, 3 }, { 3, 4 }, { 4, 5 }, { 8, 2 } } :
			std::vector<std::pair<size_t, size_t> > { { 1, 1 }, { 3, 1 }, { 2, 3 }, { 3, 4 } };
	for (auto& f : fs)
		for (auto& z : sizes)
			for (int src = 0; src < 2; src++)
				for (int keep = 0; keep < 2; keep++) {
					const size_t n = z.first * z.second;
					r.push_back(make(mc::cat(f.id, "#", z.first, "x", z.second, src ? "+b" : "", keep ? "+zeros" : ""), z.first, z.second, dense(n, [&](size_t i, size_t j) {
						return f.f(i, j, n);}), src, keep));
				}
	return r;
}

template<class MAT, class VEC> void explore() {
	typedef Store<MAT, VEC> S;
	const std::vector<Sys> all = systems();
	for (auto& m : methods()) {
		const std::string base = m.id + "/" + S::name();
		// (1) one step on every system, every step size
		mc::run_case(base + "/systems", [&] {
			for (auto& s : all)
				for (double dt : mc::thorough() ? V {1e-3, 0.02, 0.1, 0.5, 1.0} : V {0.02, 0.3}) {
					if (m.kind == 2 && dt * inf(s.A) > 0.8)
						continue; // beyond the accuracy of six Krylov directions
					S st(s);
					auto ti = create<MAT, VEC>(m, dt, st.f, s.blocks, S::blocked());
					step<MAT, VEC>(*ti, m, s, st, dt, false, mc::cat(m.id, ":", S::name(), ":", classify(s)), mc::cat(m.id, " ", S::name(), " system ", s.id, " dt=", dt));
					mc::outcome(m.id + " " + classify(s));
				}
			});
		// (2) every sequence of systems and step sizes with one integrator
		for (double scale : {1.0, 1e-5}) // time scale: stiff systems take small steps
		mc::run_case(base + mc::cat("/history/", scale), [&] {
			const size_t n = 9;
			auto adv = [&](size_t i, size_t j) {return i == j ? -2. : (i + n - 1) % n == j ? 2. : 0.;};
			auto rev = [&](size_t i, size_t j) {return i == j ? -1. : (i + 1) % n == j ? 1.5 : 0.;};
			auto full = [&](size_t i, size_t j) {return 0.2 * std::cos(1. + 3. * i + 5. * j * j);};
			// the first two have the same number of entries at other places; the last ones have other blocks or another size
			std::vector<Sys> h;
			h.push_back(make("A#", 3, 3, dense(n, adv), true, false));
			h.push_back(make("B#", 3, 3, dense(n, rev), false, false));
			h.push_back(make("C#", 3, 3, dense(n, full), true, true));
			h.push_back(make("D#", 9, 1, dense(n, full), true, true));
			h.push_back(make("E#", 2, 6, dense(12, [&](size_t i, size_t j) {return i == j ? -1. : (i + 5) % 12 == j ? .5 : 0.;}), true, false));
			for (auto& s : h) {
				for (auto& row : s.A)
					for (double& x : row)
						x /= scale;
				for (double& x : s.b)
					x /= scale;
			}
			// 0: keep; the third differs little from the second
			const V dts {0.0, 0.05 * scale, 0.05000005 * scale, 0.11 * scale};
			const size_t depth = mc::tier<size_t>(2, 3);
			std::vector<std::unique_ptr<S> > st;
			for (auto& s : h)
				st.emplace_back(new S(s));
			mc::sequences(h.size() * dts.size(), depth, [&](const std::vector<size_t>& q) {
				if (q.size() != depth)
					return;
				double dt = 0.07 * scale;
				for (size_t k = 0; k < h.size(); k++)
					for (size_t i = 0; i < h[k].n(); i++)
						st[k]->f(i) = h[k].f0[i];
				auto ti = create<MAT, VEC>(m, dt, st[0]->f, h[0].blocks, S::blocked());
				std::string where = m.id + " " + S::name();
				for (size_t k : q) {
					const size_t a = k / dts.size();
					const double d = dts[k % dts.size()];
					if (d != 0)
						dt = d;
					where += mc::cat(" ", h[a].id, "dt", d);
					step<MAT, VEC>(*ti, m, h[a], *st[a], dt, d != 0, mc::cat(m.id, ":", S::name(), ":history"), where);
				}
				mc::trace();
			});
		});
	}
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	explore<sparse_matrix, numeric_vector>();
	explore<distributed_sparse_matrix, distributed_vector>();
	explore<sparse_block_matrix, block_vector>();
	explore<distributed_sparse_block_matrix, distributed_block_vector>();
	// names and numbers
	mc::run_case("names", [&] {
		const char* names[] = {"FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES",
			"HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP"};
		std::set<std::string> seen;
		for (size_t id = 1; id <= 15; id++) {
			TimeIntegratorName t = OTHER;
			DealIntegratorName d = CASH_KARP;
			std::string n;
			CFDSolverUtilities::get_integrator_by_id(id, t, d, n);
			const TimeIntegratorName wt = id == 1 ? RUNGE_KUTTA_5STAGE : id == 2 ? THETA_METHOD : id == 3 ? EXPONENTIAL : OTHER;
			const std::string wn = id == 1 ? "RUNGE_KUTTA_5STAGE" : id == 2 ? "THETA_METHOD" : id == 3 ? "EXPONENTIAL" : names[id - 4];
			mc::check(t == wt, mc::cat("names:integrator:", id), mc::cat("integrator number ", id));
			mc::check(d == (id < 4 ? NONE : (DealIntegratorName) (id - 4)), mc::cat("names:deal:", id), mc::cat("deal.II integrator number ", id));
			mc::check(n == wn, mc::cat("names:name:", id), mc::cat("name of integrator ", id, " is ", n));
			mc::check(seen.insert(n).second, mc::cat("names:unique:", id), "name " + n + " occurs twice");
			mc::check(CFDSolverUtilities::get_integrator_name(t, d) == wn, mc::cat("names:inverse:", id), "get_integrator_name");
			mc::transition();
			mc::outcome(wn);
		}
	});
	mc::finish();
}
