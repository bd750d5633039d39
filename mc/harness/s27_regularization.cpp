// S27: regularization is the projection on the conserved moments, and every run uses the scheme that was chosen
#include "flow.h"
#include "natrium/dataprocessors/PseudoEntropicStabilizer.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D3Q19.h"
using namespace fl;
typedef std::vector<V> M;

static M solve(M a, M b) { // a x = b, Gauss with pivoting
	const size_t n = a.size();
	for (size_t c = 0; c < n; c++) {
		size_t p = c;
		for (size_t r = c; r < n; r++)
			if (std::fabs(a[r][c]) > std::fabs(a[p][c]))
				p = r;
		std::swap(a[c], a[p]);
		std::swap(b[c], b[p]);
		for (size_t r = 0; r < n; r++) {
			if (r == c)
				continue;
			const double q = a[r][c] / a[c][c];
			for (size_t k = 0; k < n; k++)
				a[r][k] -= q * a[c][k];
			for (size_t k = 0; k < b[r].size(); k++)
				b[r][k] -= q * b[c][k];
		}
	}
	for (size_t r = 0; r < n; r++)
		for (double& x : b[r])
			x /= a[r][r];
	return b;
}
/// W Mt (M W Mt)^-1 M : populations with the same moments M that are closest to (a multiple of) the weights
static M projection(const Stencil& s, bool deviatoric) {
	const size_t Q = s.getQ(), D = s.getD();
	std::vector<std::function<double(const V&)> > m = { [](const V&) {return 1.;} };
	for (size_t a = 0; a < D; a++)
		m.push_back([=](const V& e) {return e[a];});
	for (size_t a = 0; a < D; a++)
		for (size_t b = a; b < D; b++) {
			if (deviatoric && a == b) {
				if (a + 1 < D)
					m.push_back([=](const V& e) {return e[a] * e[a] - e[a + 1] * e[a + 1];});
			} else
				m.push_back([=](const V& e) {return e[a] * e[b];});
		}
	M mm(m.size(), V(Q)), mw(m.size(), V(Q)), g(m.size(), V(m.size(), 0.));
	for (size_t k = 0; k < m.size(); k++)
		for (size_t i = 0; i < Q; i++) {
			V e(D);
			for (size_t a = 0; a < D; a++)
				e[a] = s.getDirections().at(i)[a] / s.getScaling();
			mm[k][i] = m[k](e);
			mw[k][i] = mm[k][i] * s.getWeights().at(i);
		}
	for (size_t k = 0; k < m.size(); k++)
		for (size_t l = 0; l < m.size(); l++)
			for (size_t i = 0; i < Q; i++)
				g[k][l] += mm[k][i] * mw[l][i];
	const M x = solve(g, mm);
	M p(Q, V(Q, 0.));
	for (size_t i = 0; i < Q; i++)
		for (size_t j = 0; j < Q; j++)
			for (size_t k = 0; k < m.size(); k++)
				p[i][j] += mw[k][i] * x[k][j];
	return p;
}
static V times(const M& p, const V& f) {
	V r(p.size(), 0.);
	for (size_t i = 0; i < p.size(); i++)
		for (size_t j = 0; j < f.size(); j++)
			r[i] += p[i][j] * f[j];
	return r;
}
template<size_t Q> static void pointwise(const Stencil& s) {
	const M p = projection(s, false);
	auto one = [&](const V& f, const std::string& what) {
		std::array<double, Q> in, out;
		for (size_t i = 0; i < Q; i++) {
			in[i] = f[i];
			out[i] = 777;
		}
		applyStabilizer<Q>(in, out);
		mc::transition();
		const V r = times(p, f);
		for (size_t i = 0; i < Q; i++)
			mc::check_close(out[i], r[i], 1e-13, mc::cat("pointwise:", Q), mc::cat("population ", i, " of ", what));
		mc::state(V(out.begin(), out.end()));
		std::array<double, Q> again;
		applyStabilizer<Q>(out, again);
		for (size_t i = 0; i < Q; i++)
			mc::check_close(again[i], out[i], 1e-13, mc::cat("pointwise-twice:", Q), mc::cat("population ", i, " of ", what));
		mc::outcome(mc::cat("pointwise ", Q));
	};
	for (size_t j = 0; j < Q; j++) {
		V f(Q, 0.);
		f[j] = 1;
		one(f, mc::cat("unit vector ", j));
	}
	one(V(s.getWeights().begin(), s.getWeights().end()), "the weights");
}

struct Choice {
	const char* name;
	StencilType type;
	size_t d;
};
static const std::vector<Choice> STENCILS = { { "D2Q9", Stencil_D2Q9, 2 }, { "D2Q19H", Stencil_D2Q19H, 2 }, { "D2Q19V", Stencil_D2Q19V, 2 }, { "D2Q25H", Stencil_D2Q25H, 2 }, { "D3Q13",
		Stencil_D3Q13, 3 }, { "D3Q15", Stencil_D3Q15, 3 }, { "D3Q19", Stencil_D3Q19, 3 }, { "D3Q21", Stencil_D3Q21, 3 }, { "D3Q27", Stencil_D3Q27, 3 }, {
		"D3V27", Stencil_D3V27, 3 }, { "D3Q45", Stencil_D3Q45, 3 }, { "D3Q77", Stencil_D3Q77, 3 } };
static const char* REG[] = { "none", "pseudo-entropy", "zero-high-order", "entropy", "pseudo-entropy-with-e" };

struct Variant {
	std::string name;
	Setup set;
	size_t level = 1;
	Side wall;
};
static std::vector<Variant> variants(size_t D) {
	std::vector<Variant> r;
	for (int sl = 1; sl >= 0; sl--)
		for (size_t p = 1; p <= (D == 2 ? mc::tier<size_t>(3, 5) : mc::tier<size_t>(1, 2)); p++) {
			Variant v;
			v.name = mc::cat(sl ? "sl" : "dg", p);
			v.set = [=](SolverConfiguration& c) {
				c.setAdvectionScheme(sl ? SEMI_LAGRANGIAN : SEDG);
				c.setSedgOrderOfFiniteElement(p);
				c.setCFL(sl ? 1.3 : 0.4);
			};
			r.push_back(v);
			if (p != 1 + (D == 2))
				continue;
			Variant w = v;
			auto s = v.set;
			w.name += "-scaled";
			w.set = [=](SolverConfiguration& c) {
				s(c);
				c.setStencilScaling(2.5);
			};
			r.push_back(w);
			w = v;
			w.name += "-walls";
			w.wall.kind = 'n';
			w.wall.u = {0.02, 0, 0};
			r.push_back(w);
			w = v;
			w.name += "-filter";
			w.set = [=](SolverConfiguration& c) {
				s(c);
				c.setFiltering(true);
				c.setFilterInterval(2);
				c.setFilteringScheme(EXPONENTIAL_FILTER);
				c.setExponentialFilterAlpha(4);
				c.setExponentialFilterS(2);
				c.setExponentialFilterNc(1);
			};
			r.push_back(w);
			w = v;
			w.name += "-fine";
			w.level = 2;
			if (D == 2)
				r.push_back(w);
		}
	return r;
}
template<size_t dim> static boost::shared_ptr<CFDSolver<dim> > make(const Choice& c, const Variant& v, RegularizationSchemeName reg, size_t steps, bool compressible = false) {
	auto cfg = config([&](SolverConfiguration& x) {
		x.setStencil(c.type);
		x.setNumberOfTimeSteps(steps);
		v.set(x);
		if (c.type != Stencil_D2Q9 && c.type != Stencil_D3Q19)
			x.setEquilibriumScheme(c.d == 2 ? QUARTIC_EQUILIBRIUM : BGK_EQUILIBRIUM);
		if (compressible)
			x.setEquilibriumScheme(QUARTIC_EQUILIBRIUM);
		x.setRegularizationScheme(reg);
	});
	Spec s;
	s.level = v.level;
	for (size_t a = 0; a < 3; a++)
		s.cells[a] = 1;
	general(s, 0.1);
	if (v.wall.kind != 'p')
		s.side[2] = s.side[3] = v.wall;
	auto f = boost::make_shared<Flow<dim> >(s);
	if (compressible)
		return boost::make_shared<CompressibleCFDSolver<dim> >(cfg, f);
	return boost::make_shared<CFDSolver<dim> >(cfg, f);
}
/// replaces the populations of all nodes by p f
template<size_t dim> static void reference(CFDSolver<dim>& s, const M& p) {
	const size_t Q = s.getStencil()->getQ();
	for (auto i : s.getAdvectionOperator()->getLocallyOwnedDofs()) {
		V f(Q);
		for (size_t q = 0; q < Q; q++)
			f[q] = s.getF().at(q)(i);
		f = times(p, f);
		for (size_t q = 0; q < Q; q++)
			s.getF().at(q)(i) = f[q];
	}
	s.getF().updateGhosted();
}
/// the data processor on a basis of all node states
template<size_t dim> static void processor(const Choice& c, const Variant& v, bool e) {
	auto s = make<dim>(c, v, NO_REGULARIZATION, 1);
	const M p = projection(*s->getStencil(), e);
	const size_t Q = s->getStencil()->getQ();
	const std::string key = mc::cat("processor:", c.name, e ? ":e" : "");
	PseudoEntropicStabilizer<dim> st(*s, e);
	auto& f = s->getF();
	const auto owned = s->getAdvectionOperator()->getLocallyOwnedDofs();
	for (size_t round = 0; round < Q; round++) {
		std::map<size_t, V> want;
		size_t k = 0;
		for (auto i : owned) {
			V in(Q, 0.);
			in[(round + k) % Q] = 1 + 0.001 * k;
			k++;
			for (size_t q = 0; q < Q; q++)
				f.at(q)(i) = in[q];
			want[i] = times(p, in);
		}
		f.updateGhosted();
		for (int again = 0; again < 2; again++) {
			st.apply();
			mc::transition();
			for (auto& w : want)
				for (size_t q = 0; q < Q; q++) {
					mc::check_close(f.at(q)(w.first), w.second[q], 1e-12, key + (again ? ":twice" : ""), mc::cat("population ", q, " of node ", w.first, " in round ", round));
					if (!s->getF().isDg() && again)
						continue;
					mc::check_close(f.atGhosted(q)(w.first), w.second[q], 1e-12, key + ":ghosted", mc::cat("ghosted population ", q, " of node ", w.first));
				}
		}
	}
	mc::outcome(mc::cat("processor ", c.name));
	snapshot<dim>(*s).hash();
}
/// a run with regularization is: relax; (stream, filter, relax, project)*
template<size_t dim> static void run(const Choice& c, const Variant& v, bool e, size_t N) {
	const std::string where = mc::cat(c.name, " ", v.name, e ? " e" : ""), key = mc::cat("run:", c.name, e ? ":e" : "");
	auto a = make<dim>(c, v, e ? PSEUDO_ENTROPY_MAXIMIZATION_WITH_E : PSEUDO_ENTROPY_MAXIMIZATION, N);
	auto b = make<dim>(c, v, NO_REGULARIZATION, N);
	auto plain = make<dim>(c, v, NO_REGULARIZATION, N);
	const M p = projection(*b->getStencil(), e);
	const size_t Q = b->getStencil()->getQ();
	auto rec = boost::make_shared<Recorder<dim> >(*a);
	a->appendDataProcessor(rec);
	a->run();
	struct Project: public DataProcessor<dim> {
		const M& p;
		Recorder<dim> r;
		Project(CFDSolver<dim>& s, const M& p) :
				DataProcessor<dim>(s), p(p), r(s) {
		}
		virtual void apply() {
			reference<dim>(this->m_solver, p);
			r.apply();
		}
	};
	auto pr = boost::make_shared<Project>(*b, p);
	b->appendDataProcessor(pr);
	b->run();
	plain->run();
	mc::check(rec->seen.size() == N && pr->r.seen.size() == N, key + ":steps", where);
	for (auto& x : rec->seen) {
		mc::check(x.second.distance(pr->r.seen[x.first]) <= 1e-11, key, mc::cat(where, ": step ", x.first, " differs from relaxing and projecting by ", x.second.distance(pr->r.seen[x.first])));
		x.second.hash();
		// conserved by the projection: the fields are the moments of the populations
		for (auto& n : x.second.n) {
			double rho = 0;
			V j(dim, 0.);
			for (size_t q = 0; q < Q; q++) {
				rho += n.second.f[q];
				for (size_t d = 0; d < dim; d++)
					j[d] += n.second.f[q] * a->getStencil()->getDirections().at(q)[d];
			}
			mc::check_close(n.second.m[0], rho, 1e-11, key + ":density", where);
			for (size_t d = 0; d < dim; d++)
				mc::check_close(n.second.m[1 + d], j[d] / rho, 1e-10, key + ":velocity", where);
		}
	}
	const double effect = snapshot<dim>(*a).distance(snapshot<dim>(*plain), true, false);
	mc::check(effect > 1e-9, key + ":no-effect", where + ": the run does not differ from one without regularization");
	mc::trace();
	mc::outcome(mc::cat("run ", c.name, e ? " e" : ""));
}
/// the scheme that was chosen is used, or the solver refuses it
template<size_t dim> static void choice(const Choice& c, const Variant& v, int reg, bool compressible) {
	const std::string where = mc::cat(c.name, " ", REG[reg], compressible ? " compressible" : ""), key = mc::cat("choice:", REG[reg], compressible ? ":compressible:" : ":", c.name);
	const bool known = reg == NO_REGULARIZATION || (reg == PSEUDO_ENTROPY_MAXIMIZATION && (c.type == Stencil_D2Q9 || c.type == Stencil_D3Q19))
			|| (reg == PSEUDO_ENTROPY_MAXIMIZATION_WITH_E && c.type == Stencil_D2Q9);
	boost::shared_ptr<CFDSolver<dim> > s, t;
	bool refused = false;
	try {
		s = make<dim>(c, v, (RegularizationSchemeName) reg, 2, compressible);
		s->run();
	} catch (NATriuMException& e) {
		refused = true;
	}
	mc::state(where);
	if (refused) {
		mc::outcome("refused");
		mc::check(!known || compressible, key + ":refused", where + ": refused");
		return;
	}
	mc::outcome("runs");
	t = make<dim>(c, v, NO_REGULARIZATION, 2, compressible);
	t->run();
	const double effect = snapshot<dim>(*s).distance(snapshot<dim>(*t), true, false);
	if (reg == NO_REGULARIZATION)
		mc::check(effect == 0, key, where + ": two runs without regularization differ");
	else {
		mc::check(effect > 1e-9, key + ":ignored", where + ": accepted, but the run is the one without regularization");
		mc::check(known, key + ":other", where + ": accepted, but there is no such regularization of this velocity set");
	}
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	mc::run_case("pointwise/9", [] {pointwise<9>(D2Q9(1));});
	mc::run_case("pointwise/19", [] {pointwise<19>(D3Q19(1));});
	const Choice &d2 = STENCILS[0], &d3 = STENCILS[6];
	for (auto& v : variants(2))
		for (bool e : { false, true }) {
			mc::run_case(mc::cat("processor/D2Q9/", v.name, e ? "/e" : ""), [&] {processor<2>(d2, v, e);});
			mc::run_case(mc::cat("run/D2Q9/", v.name, e ? "/e" : ""), [&] {run<2>(d2, v, e, mc::tier<size_t>(4, 8));});
		}
	for (auto& v : variants(3)) {
		mc::run_case(mc::cat("processor/D3Q19/", v.name), [&] {processor<3>(d3, v, false);});
		mc::run_case(mc::cat("run/D3Q19/", v.name), [&] {run<3>(d3, v, false, mc::tier<size_t>(3, 6));});
	}
	Variant v = variants(2)[0];
	for (auto& c : STENCILS)
		for (int reg = NO_REGULARIZATION; reg <= PSEUDO_ENTROPY_MAXIMIZATION_WITH_E; reg++)
			for (bool comp : { false, true }) {
				if (comp && (c.type == Stencil_D2Q9 || c.type == Stencil_D3Q13 || c.type == Stencil_D3Q15 || c.type == Stencil_D3Q21 || c.type == Stencil_D3Q19 || c.type == Stencil_D3Q27))
					continue;
				mc::run_case(mc::cat("choice/", c.name, "/", REG[reg], comp ? "/compressible" : ""), [&] {
					if (c.d == 2)
						choice<2>(c, v, reg, comp);
					else
						choice<3>(c, v, reg, comp);
				});
			}
	mc::finish();
}
