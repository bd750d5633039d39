// S20: the population container behaves like an array of independent fields
#include "mc.h"
#include "natrium/solver/DistributionFunctions.h"
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D3Q15.h"
using namespace natrium;
typedef std::vector<double> V;
typedef std::vector<V> M; // M[i][j]: direction i, node j

struct Obj {
	boost::shared_ptr<DistributionFunctions> f;
	M ref;
	bool fresh; // ghosted view is up to date by the documentation
};
static dealii::IndexSet owned(size_t n) {
	return dealii::complete_index_set(n);
}
static double value(size_t tag, size_t i, size_t j) {
	return 1 + 100. * tag + i + 0.01 * j;
}
static void fill(Obj& o, size_t Q, size_t n, size_t tag) {
	o.ref.assign(Q, V(n));
	for (size_t i = 0; i < Q; i++)
		for (size_t j = 0; j < n; j++) {
			o.ref[i][j] = value(tag, i, j);
			o.f->at(i)(j) = o.ref[i][j];
		}
	o.f->updateGhosted();
	o.fresh = true;
}
static void verify(Obj& o, const std::string& key, const std::string& where) {
	const DistributionFunctions& c = *o.f;
	const size_t Q = o.ref.size(), n = o.ref[0].size();
	bool ok = c.size() == Q && c.getQ() == Q && c.getFStream().n_blocks() == Q - 1;
	mc::check(ok, key + ":size", where + ": number of directions");
	if (!ok)
		return;
	V flat;
	for (size_t i = 0; i < Q; i++)
		for (size_t j = 0; j < n; j++) {
			const double w = o.ref[i][j];
			const double t = 1e-12 * (1 + std::fabs(w));
			flat.push_back(w);
			const std::string at = mc::cat(where, ": direction ", i, " node ", j);
			mc::check_close(o.f->at(i)(j), w, t, key + ":at", at);
			mc::check_close(c.at(i)(j), w, t, key + ":at-const", at);
			mc::check_close(i == 0 ? c.getF0()(j) : c.getFStream().block(i - 1)(j), w, t, key + ":block", at);
			mc::check_close(i == 0 ? o.f->getF0()(j) : o.f->getFStream()((i - 1) * n + j), w, t, key + ":flat", at);
			if (o.fresh) {
				mc::check_close(o.f->atGhosted(i)(j), w, t, key + ":ghosted", at);
				mc::check_close(c.atGhosted(i)(j), w, t, key + ":ghosted-const", at);
				mc::check_close(i == 0 ? o.f->getF0Ghosted()(j) : c.getFStreamGhosted().block(i - 1)(j), w, t, key + ":ghosted-block", at);
			}
		}
	mc::state(flat);
}
static bool same(const M& a, const M& b, double t) {
	if (a.size() != b.size())
		return false;
	for (size_t i = 0; i < a.size(); i++)
		for (size_t j = 0; j < a[i].size(); j++)
			if (std::fabs(a[i][j] - b[i][j]) > t)
				return false;
	return true;
}

struct World {
	size_t Q, n;
	bool dg;
	Obj a, b;
	boost::shared_ptr<Stencil> s1, s2;
	dealii::FullMatrix<double> T;
	size_t tag = 3;
};
typedef std::function<void(World&)> Op;
struct Named {
	std::string id;
	Op op;
};
static std::vector<Named> operations(size_t Q) {
	std::vector<Named> r;
	for (size_t i : { (size_t) 0, (size_t) 1, Q - 1 })
		r.push_back(Named { mc::cat("a.at(", i, ")="), [i](World& w) {
			const double x = value(w.tag++, i, 0);
			w.a.f->at(i)(w.n - 1) = x;
			w.a.ref[i][w.n - 1] = x;
			w.a.fresh = w.dg;
		} });
	r.push_back(Named { "a.getF0()=", [](World& w) {
		const double x = value(w.tag++, 0, 0);
		w.a.f->getF0()(0) = x;
		w.a.ref[0][0] = x;
		w.a.fresh = w.dg;
	} });
	r.push_back(Named { "a.getFStream().block(1)*=", [](World& w) {
		w.a.f->getFStream().block(1) *= -1.5;
		for (double& x : w.a.ref[2])
			x *= -1.5;
		w.a.fresh = w.dg;
	} });
	r.push_back(Named { "a.getFStream()+=", [](World& w) {
		w.a.f->getFStream().add(0.5, w.b.f->getFStream());
		for (size_t i = 1; i < w.Q; i++)
			for (size_t j = 0; j < w.n; j++)
				w.a.ref[i][j] += 0.5 * w.b.ref[i][j];
		w.a.fresh = w.dg;
	} });
	r.push_back(Named { "a.setF0(b)", [](World& w) {
		w.a.f->setF0(w.b.f->getF0());
		w.a.ref[0] = w.b.ref[0];
		w.a.fresh = w.dg;
	} });
	r.push_back(Named { "a.setFStream(b)", [](World& w) {
		w.a.f->setFStream(w.b.f->getFStream());
		for (size_t i = 1; i < w.Q; i++)
			w.a.ref[i] = w.b.ref[i];
		w.a.fresh = w.dg;
	} });
	r.push_back(Named { "a=b", [](World& w) {
		*w.a.f = *w.b.f;
		w.a.ref = w.b.ref;
		w.a.fresh = true;
	} });
	r.push_back(Named { "b=copy(a)", [](World& w) {
		w.b.f = boost::make_shared<DistributionFunctions>(*w.a.f);
		w.b.ref = w.a.ref;
		w.b.fresh = w.a.fresh;
	} });
	r.push_back(Named { "swap", [](World& w) {
		std::swap(w.a, w.b);
	} });
	r.push_back(Named { "a.scaleF", [](World& w) {
		w.a.f->scaleF(0.25, owned(w.n));
		for (auto& v : w.a.ref)
			for (double& x : v)
				x *= 0.25;
		w.a.fresh = true;
	} });
	r.push_back(Named { "a.updateGhosted", [](World& w) {
		w.a.f->updateGhosted();
		w.a.fresh = true;
	} });
	r.push_back(Named { "a.compress", [](World& w) {
		w.a.f->compress(dealii::VectorOperation::insert);
		w.a.fresh = true;
	} });
	r.push_back(Named { "a.transfer", [](World& w) {
		w.a.f->transferFromOtherScaling(*w.s1, *w.s2, owned(w.n));
		M old = w.a.ref;
		for (size_t j = 0; j < w.n; j++)
			for (size_t i = 0; i < w.Q; i++) {
				double x = 0;
				for (size_t k = 0; k < w.Q; k++)
					x += w.T(i, k) * old[k][j];
				w.a.ref[i][j] = x;
			}
		w.a.fresh = true;
	} });
	r.push_back(Named { "a.transfer(same)", [](World& w) {
		w.a.f->transferFromOtherScaling(*w.s2, *w.s2, owned(w.n));
		w.a.f->updateGhosted();
		w.a.fresh = true;
	} });
	r.push_back(Named { "a.reinit", [](World& w) {
		if (w.dg)
			w.a.f->reinit(w.Q, owned(w.n), MPI_COMM_WORLD);
		else
			w.a.f->reinit(w.Q, owned(w.n), owned(w.n), MPI_COMM_WORLD, false);
		w.a.ref.assign(w.Q, V(w.n, 0.0));
		w.a.fresh = true;
	} });
	r.push_back(Named { "a=DistributionFunctions(vectors)", [](World& w) {
		if (!w.dg)
			return;
		std::vector<distributed_vector> v;
		for (size_t i = 0; i < w.Q; i++)
			v.push_back(w.b.f->at(i));
		w.a.f = boost::make_shared<DistributionFunctions>(v);
		for (auto& x : v)
			x = 77.;
		w.a.ref = w.b.ref;
		w.a.fresh = true;
	} });
	return r;
}
static World world(bool dg, bool three) {
	World w;
	w.n = 2;
	w.dg = dg;
	if (three) {
		w.s1 = boost::make_shared<D3Q15>(1.0);
		w.s2 = boost::make_shared<D3Q15>(1.7);
	} else {
		w.s1 = boost::make_shared<D2Q9>(1.0);
		w.s2 = boost::make_shared<D2Q9>(1.7);
	}
	w.Q = w.s1->getQ();
	// the transfer keeps the moments
	dealii::FullMatrix<double> A(w.Q), B(w.Q);
	w.T.reinit(w.Q, w.Q);
	w.s1->getMomentBasis(A);
	w.s2->getMomentBasis(B);
	B.gauss_jordan();
	B.mmult(w.T, A);
	size_t tag = 1;
	for (Obj* o : { &w.a, &w.b }) {
		o->f = boost::make_shared<DistributionFunctions>(dg);
		if (dg)
			o->f->reinit(w.Q, owned(w.n), MPI_COMM_WORLD);
		else
			o->f->reinit(w.Q, owned(w.n), owned(w.n), MPI_COMM_WORLD, false);
		fill(*o, w.Q, w.n, tag++);
	}
	return w;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	for (int three = 0; three < 2; three++)
		for (int dg = 0; dg < 2; dg++) {
			const std::string kind = mc::cat(dg ? "dg" : "ghosted", three ? "/D3Q15" : "/D2Q9");
			const std::vector<Named> ops = operations(three ? 15 : 9);
			const size_t depth = three ? mc::tier<size_t>(2, 3) : mc::tier<size_t>(3, 4);
			// one case per first operation
			for (size_t first = 0; first < ops.size(); first++)
				mc::run_case(kind + "/" + ops[first].id, [&] {
					mc::product(std::vector<size_t>(depth - 1, ops.size()), [&](const std::vector<size_t>& rest) {
						World w = world(dg, three);
						std::string where = kind + ": " + ops[first].id;
						ops[first].op(w);
						mc::transition();
						for (size_t k : rest) {
							where += "; " + ops[k].id;
							ops[k].op(w);
							mc::transition();
						}
						const std::string key = ops[rest.empty() ? first : rest.back()].id + (dg ? "" : ":ghosted");
						verify(w.a, key, where + " [a]");
						verify(w.b, key, where + " [b]");
						for (double t : {1e-8, 0.5}) {
							mc::check(w.a.f->equals(*w.b.f, t) == same(w.a.ref, w.b.ref, t), "equals", where + ": equals()");
							mc::check(w.b.f->equals(*w.a.f, t) == same(w.a.ref, w.b.ref, t), "equals", where + ": equals() the other way round");
						}
						mc::check(w.a.f->isDg() == (bool) dg && w.b.f->isDg() == (bool) dg, "isDg", where);
						mc::outcome(mc::cat(kind, " ", same(w.a.ref, w.b.ref, 1e-8) ? "equal" : "different", w.a.fresh ? "" : " stale ghosts"));
						mc::trace();
					});
				});
			// changing number of directions and nodes
			mc::run_case(kind + "/sizes", [&] {
				mc::sequences(9, mc::tier<size_t>(3, 4), [&](const std::vector<size_t>& q) {
					if (q.empty())
						return;
					Obj o;
					o.f = boost::make_shared<DistributionFunctions>((bool) dg);
					for (size_t k : q) {
						const size_t Q = 2 + k % 3 * 3, n = 1 + k / 3 * 2;
						if (dg)
							o.f->reinit(Q, owned(n), MPI_COMM_WORLD);
						else
							o.f->reinit(Q, owned(n), owned(n), MPI_COMM_WORLD, false);
						o.ref.assign(Q, V(n, 0.0));
						o.fresh = true;
						verify(o, kind + ":reinit", mc::cat(kind, ": reinit to ", Q, " x ", n));
						fill(o, Q, n, k + 1);
						verify(o, kind + ":reinit", mc::cat(kind, ": filled ", Q, " x ", n));
						mc::transition();
					}
					mc::trace();
				});
			});
		}
	mc::finish();
}
