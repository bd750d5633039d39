// S15: periodic boundaries: partners of all boundary faces for every box, labelling, order of creation and
// refinement; refusals; all bounded histories of a boundary collection; operators do not depend on labels
#include "flow.h"
#include "collide.h"
#include "natrium/advection/SEDGMinLee.h"
#include "natrium/advection/SemiLagrangian.h"
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/fe/fe_q.h>
using namespace natrium;
using namespace fl;

typedef std::vector<size_t> I;
template<size_t dim> boost::shared_ptr<Mesh<dim> > box(const std::vector<unsigned>& cells, const V& L) {
	auto m = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
	dealii::Point<dim> a, b;
	for (size_t k = 0; k < dim; k++) {
		a[k] = -0.25 * (k + 1);
		b[k] = a[k] + L[k];
	}
	dealii::GridGenerator::subdivided_hyper_rectangle(*m, std::vector<unsigned>(cells.begin(), cells.begin() + dim), a, b, true);
	return m;
}
/// label[f]: boundary id of the faces whose local number is f
template<size_t dim> void relabel(Mesh<dim>& m, const I& label) {
	for (auto c = m.begin_active(); c != m.end(); ++c)
		for (size_t f = 0; f < 2 * dim; f++)
			if (c->face(f)->at_boundary())
				c->face(f)->set_boundary_id(label[f]);
}
typedef std::array<long, 3> Key;
template<size_t dim> Key key_of(const dealii::Point<dim>& p) {
	Key k = { 0, 0, 0 };
	for (size_t a = 0; a < dim; a++)
		k[a] = std::lround(p[a] * 1e7);
	return k;
}
struct PB {
	size_t axis;
	bool swapped; // created as (upper, lower)
};
/// all partners of one periodic boundary
template<size_t dim> void partners(const std::string& key, PeriodicBoundary<dim>& pb, const dealii::DoFHandler<dim>& dh, size_t axis, size_t lo, size_t hi,
		double period) {
	std::set<std::pair<Key, size_t> > targets;
	size_t faces = 0;
	std::set<Key> cells;
	for (auto c = dh.begin_active(); c != dh.end(); ++c) {
		for (size_t f = 0; f < 2 * dim; f++) {
			const bool at = c->face(f)->at_boundary();
			const size_t id = at ? c->face(f)->boundary_id() : 999;
			const bool mine = at && (id == lo || id == hi);
			mc::check(pb.isFaceInBoundary(c, f) == mine, key + ":isFaceInBoundary", mc::cat("face ", f, " with id ", id));
			mc::transition();
			if (!mine)
				continue;
			faces++;
			cells.insert(key_of<dim>(c->center()));
			const bool lower = (f == 2 * axis);
			mc::check(id == (lower ? lo : hi), key + ":side", "boundary id on the wrong side");
			dealii::Tensor<1, dim> shift;
			shift[axis] = lower ? period : -period;
			typename dealii::DoFHandler<dim>::cell_iterator nb;
			size_t f2 = pb.getOppositeCellAtPeriodicBoundary(c, nb, f);
			mc::check(f2 == (lower ? 2 * axis + 1 : 2 * axis), key + ":opposite-face", mc::cat("partner of face ", f, " is face ", f2));
			if (f2 >= 2 * dim)
				continue;
			mc::check(!nb->has_children() && nb->level() == c->level(), key + ":level", "partner on another level");
			mc::check(nb->face(f2)->at_boundary() && nb->face(f2)->boundary_id() == (lower ? hi : lo), key + ":partner-id", "partner is not on the other side");
			for (size_t v = 0; v < dealii::GeometryInfo<dim>::vertices_per_face; v++)
				mc::check(nb->face(f2)->vertex(v).distance(c->face(f)->vertex(v) + shift) < 1e-12, key + ":position",
						"vertices of partners differ by something else than the period");
			targets.insert( { key_of<dim>(nb->center()), f2 });
			// back again
			typename dealii::DoFHandler<dim>::active_cell_iterator n2 = nb;
			typename dealii::DoFHandler<dim>::cell_iterator back;
			size_t f3 = pb.getOppositeCellAtPeriodicBoundary(n2, back, f2);
			mc::check(f3 == f && key_of<dim>(back->center()) == key_of<dim>(c->center()), key + ":back", "the partner of the partner is another face");
			// coordinates
			std::vector<dealii::Point<dim> > pts;
			for (size_t v = 0; v < dealii::GeometryInfo<dim>::vertices_per_face; v++)
				pts.push_back(c->face(f)->vertex(v));
			pts.push_back(c->center());
			dealii::Point<dim> beyond = c->face(f)->center();
			beyond[axis] += lower ? -0.37 : 0.37;
			pts.push_back(beyond);
			for (auto& p : pts) {
				auto q = pb.coordinatesAcrossPeriodicBoundary(p, c, f);
				mc::check(q.distance(p + shift) < 1e-11, key + ":coordinates", mc::cat("point ", p, " on face ", f, " becomes ", q));
				auto r = pb.coordinatesAcrossPeriodicBoundary(q, n2, f2);
				mc::check(r.distance(p) < 1e-11, key + ":coordinates-back", mc::cat("point ", p, " comes back as ", r));
				mc::transition(2);
			}
		}
	}
	mc::check(targets.size() == faces, key + ":one-to-one", mc::cat(faces, " faces have ", targets.size(), " partners"));
	mc::check(pb.getCellMap().size() == cells.size(), key + ":map-size", mc::cat("cell map has ", pb.getCellMap().size(), " entries for ", cells.size(), " cells"));
	// cells that are not at the boundary have no partner
	for (auto c = dh.begin_active(); c != dh.end(); ++c)
		if (!cells.count(key_of<dim>(c->center()))) {
			bool refused = false;
			typename dealii::DoFHandler<dim>::cell_iterator nb;
			try {
				pb.getOppositeCellAtPeriodicBoundary(c, nb);
			} catch (PeriodicBoundaryNotPossible&) {
				refused = true;
			}
			mc::check(refused, key + ":inner", "a cell that is not at the boundary has a partner");
		}
	mc::state(mc::cat(key, faces));
}
template<size_t dim> void geometry(const std::string& name, const std::vector<unsigned>& cells, const V& L, const I& label, const std::vector<PB>& order,
		const std::vector<int>& refine, int map) {
	auto mesh = box<dim>(cells, L);
	relabel<dim>(*mesh, label);
	std::vector<boost::shared_ptr<PeriodicBoundary<dim> > > pb;
	BoundaryCollection<dim> bc;
	for (auto& o : order) {
		size_t a = label[2 * o.axis], b = label[2 * o.axis + 1];
		if (o.swapped)
			std::swap(a, b);
		pb.push_back(boost::make_shared<PeriodicBoundary<dim> >(a, b, o.axis, mesh));
		mc::check(pb.back()->getBoundaryIndicator1() == a && pb.back()->getBoundaryIndicator2() == b && pb.back()->getDirection() == o.axis && pb.back()->isPeriodic(),
				"getters", "getters of a periodic boundary");
		bc.addBoundary(pb.back());
	}
	mc::check(bc.numberOfBoundaries() == 2 * order.size() && bc.numberOfPeriodicBoundaries() == 2 * order.size(), "collection-size", "number of boundaries");
	for (size_t k = 0; k < order.size(); k++)
		for (size_t s = 0; s < 2; s++) {
			size_t id = label[2 * order[k].axis + s];
			mc::check(bc.hasID(id) && bc.isPeriodic(id) && bc.getPeriodicBoundary(id) == pb[k] && bc.getBoundary(id) == pb[k], "collection", "lookup");
		}
	// refine: -1 globally; k >= 0: mark the k-th coarse corner/edge cell and all its periodic images
	for (int r : refine) {
		if (r < 0)
			mesh->refine_global(1);
		else {
			// refine the cells next to the lower and the upper sides of axis r, on the first half of the other axes
			for (auto c = mesh->begin_active(); c != mesh->end(); ++c) {
				bool at = false, first = true;
				for (size_t f = 2 * (size_t) r; f < 2 * (size_t) r + 2; f++)
					at = at || c->face(f)->at_boundary();
				for (size_t a = 0; a < dim; a++)
					if (a != (size_t) r)
						first = first && c->center()[a] < -0.25 * (a + 1) + 0.5 * L[a];
				if (at && first)
					c->set_refine_flag();
			}
			mesh->execute_coarsening_and_refinement();
		}
		// partners after each refinement: the map is made anew
		for (int dg = 0; dg < 2; dg++) {
			dealii::DoFHandler<dim> dh(*mesh);
			boost::shared_ptr<dealii::FiniteElement<dim> > fe;
			if (dg)
				fe = boost::make_shared<dealii::FE_DGQ<dim> >(1);
			else
				fe = boost::make_shared<dealii::FE_Q<dim> >(2);
			dh.distribute_dofs(*fe);
			for (size_t k = 0; k < pb.size(); k++) {
				const size_t ax = order[k].axis;
				pb[k]->createCellMap(dh);
				if (dg)
					pb[k]->createCellMap(dh);
				partners<dim>(mc::cat(name, "/axis", ax), *pb[k], dh, ax, label[2 * ax], label[2 * ax + 1], L[ax]);
			}
			if (map && dg && r == refine.back()) {
				V len = L;
				dealii::GridTools::transform([len](const dealii::Point<dim>& p) {
					dealii::Point<dim> q = p;
					for (size_t a = 0; a < dim; a++) {
						double o = -0.25 * (a + 1), x = p[a] - o;
						q[a] = o + x + 0.3 * x * (len[a] - x) / len[a];
					}
					return q;
				}, *mesh);
				for (size_t k = 0; k < pb.size(); k++) {
					const size_t ax = order[k].axis;
					pb[k]->createCellMap(dh);
					partners<dim>(mc::cat(name, "/mapped/axis", ax), *pb[k], dh, ax, label[2 * ax], label[2 * ax + 1], L[ax]);
				}
			}
			for (auto& p : pb) // the map must not outlive the dof handler
				(void) p;
		}
		mc::trace();
	}
	mc::outcome("matched");
}
/// what: body is refused with a NATriuM error or any exception before the mesh is used
template<class F> bool refused(const F& f) {
	try {
		f();
	} catch (std::exception&) {
		return true;
	}
	return false;
}
template<size_t dim> void refusals(const std::string& name) {
	const V L = { 1, 1, 1 };
	auto expect = [&](const std::string& what, const std::function<void(boost::shared_ptr<Mesh<dim> >)>& prepare, size_t a, size_t b, size_t dir, bool still = true) {
		mc::run_case(name + "/refuse/" + what, [&]() {
			auto m = box<dim>( { 2, 2, 2 }, L);
			prepare(m);
			mc::check(refused([&]() {PeriodicBoundary<dim> p(a, b, dir, m);}), "refuse:" + what, "a periodic boundary that does not match is accepted: " + what);
			mc::transition();
			mc::state(what);
			mc::outcome("refused");
			if (!still)
				return;
			// the refusal left the mesh as it was: the right boundaries can be created
			for (size_t ax = 0; ax < dim; ax++)
				mc::check(!refused([&]() {PeriodicBoundary<dim> p(2 * ax, 2 * ax + 1, ax, m);}), "after-refusal:" + what, "a refused boundary prevents another");
		});
	};
	auto none = [](boost::shared_ptr<Mesh<dim> >) {};
	for (size_t a = 0; a < 2 * dim; a++)
		for (size_t b = 0; b < 2 * dim; b++)
			for (size_t d = 0; d < dim; d++)
				if (a / 2 != b / 2 || a == b || d != a / 2)
					expect(mc::cat("sides-", a, "-", b, "-direction-", d), none, a, b, d);
	for (size_t a = 0; a < 2 * dim; a++) {
		expect(mc::cat("no-such-id-", a), none, a, 17, a / 2);
		expect(mc::cat("no-such-id-first-", a), none, 17, a, a / 2);
	}
	expect("no-such-ids", none, 17, 18, 0);
	for (size_t ax = 0; ax < dim; ax++) {
		expect(mc::cat("direction-out-of-range-", ax), none, 2 * ax, 2 * ax + 1, dim);
		expect(mc::cat("refined-", ax), [](boost::shared_ptr<Mesh<dim> > m) {m->refine_global(1);}, 2 * ax, 2 * ax + 1, ax, false);
		expect(mc::cat("locally-refined-", ax), [](boost::shared_ptr<Mesh<dim> > m) {
			m->begin_active()->set_refine_flag();
			m->execute_coarsening_and_refinement();
		}, 2 * ax, 2 * ax + 1, ax, false);
		for (size_t side = 0; side < 2; side++)
			for (size_t k = 0; k < (1u << (dim - 1)); k++)
				for (size_t other = 0; other < 2; other++) {
					// one face of one side belongs to another boundary (a boundary of its own, or the opposite one)
					expect(mc::cat("one-face-missing-", ax, "-", side, "-", k, "-", other), [=](boost::shared_ptr<Mesh<dim> > m) {
						size_t n = 0;
						for (auto c = m->begin_active(); c != m->end(); ++c)
							if (c->face(2 * ax + side)->at_boundary() && n++ == k)
								c->face(2 * ax + side)->set_boundary_id(other ? 2 * ax + 1 - side : 9);
					}, 2 * ax, 2 * ax + 1, ax, false);
				}
		expect(mc::cat("twice-", ax), [ax](boost::shared_ptr<Mesh<dim> > m) {PeriodicBoundary<dim> p(2 * ax, 2 * ax + 1, ax, m);}, 2 * ax, 2 * ax + 1, ax, false);
		expect(mc::cat("twice-swapped-", ax), [ax](boost::shared_ptr<Mesh<dim> > m) {PeriodicBoundary<dim> p(2 * ax, 2 * ax + 1, ax, m);}, 2 * ax + 1, 2 * ax, ax,
				false);
		expect(mc::cat("other-shape-", ax), [ax](boost::shared_ptr<Mesh<dim> > m) {
			// move one vertex of the upper side
			for (auto c = m->begin_active(); c != m->end(); ++c)
				if (c->face(2 * ax + 1)->at_boundary()) {
					c->face(2 * ax + 1)->vertex(0)[(ax + 1) % dim] += 0.1;
					break;
				}
		}, 2 * ax, 2 * ax + 1, ax, false);
	}
	// one side refined, the other not
	for (size_t ax = 0; ax < dim; ax++)
		for (size_t side = 0; side < 2; side++)
			for (size_t k = 0; k < (1u << (dim - 1)); k++)
				for (size_t dg = 0; dg < 2; dg++)
					mc::run_case(mc::cat(name, "/refuse/one-sided-refinement-", ax, "-", side, "-", k, "-", dg), [&]() {
						// three cells along the axis, so that the refinement does not touch the other side
						std::vector<unsigned> n(3, 2);
						n[ax] = 3;
						auto m = box<dim>(n, L);
						PeriodicBoundary<dim> p(2 * ax, 2 * ax + 1, ax, m);
						size_t i = 0;
						for (auto c = m->begin_active(); c != m->end(); ++c)
							if (c->face(2 * ax + side)->at_boundary() && i++ == k)
								c->set_refine_flag();
						m->execute_coarsening_and_refinement();
						dealii::DoFHandler<dim> dh(*m);
						dealii::FE_DGQ<dim> f1(1);
						dealii::FE_Q<dim> f2(1);
						if (dg)
							dh.distribute_dofs(f1);
						else
							dh.distribute_dofs(f2);
						mc::check(refused([&]() {p.createCellMap(dh);}), "refuse:one-sided-refinement", "opposite cells with different refinement levels are accepted");
						mc::transition();
						mc::outcome("refused");
					});
}
/// all sequences of additions to a collection, against a model
template<size_t dim> void histories(const std::string& name) {
	// operations: periodic boundaries (lower/upper of each axis, either order), walls on each side, a wall with id 9
	struct Op {
		int axis; // >= 0: periodic
		bool swapped;
		size_t id;
		int kind; // wall: 0 bounce back, 1 nonequilibrium bounce back, 2 equilibrium
	};
	std::vector<Op> ops;
	for (int a = 0; a < 2; a++)
		for (int s = 0; s < 2; s++)
			ops.push_back( { a, s == 1, 0, 0 });
	for (size_t id : I { 0, 1, 2, 3, 9 })
		ops.push_back( { -1, false, id, (int) (id % 3) });
	const size_t depth = mc::tier<size_t>(3, 5);
	std::vector<size_t> seq;
	std::function<void()> rec = [&]() {
		if (seq.size() == depth) {
			mc::run_case(mc::cat(name, "/history/", [&]() {std::string s; for (size_t k : seq) s += (char) ('a' + k); return s;}()), [&]() {
				auto m = box<dim>( { 1, 2, 1 }, { 1, 1, 1 });
				BoundaryCollection<dim> bc;
				std::map<size_t, boost::shared_ptr<Boundary<dim> > > model;
				std::map<size_t, boost::shared_ptr<PeriodicBoundary<dim> > > mp;
				std::set<int> made;
				for (size_t k : seq) {
					const Op& o = ops[k];
					mc::transition();
					if (o.axis >= 0) {
						boost::shared_ptr<PeriodicBoundary<dim> > p;
						size_t a = 2 * o.axis + (o.swapped ? 1 : 0), b = 2 * o.axis + (o.swapped ? 0 : 1);
						bool ref = refused([&]() {p = boost::make_shared<PeriodicBoundary<dim> >(a, b, o.axis, m);});
						mc::check(ref == (made.count(o.axis) == 1), "history:create", "creation of a periodic boundary accepted twice, or refused the first time");
						if (ref)
							continue;
						made.insert(o.axis);
						bool legal = !model.count(a) && !model.count(b);
						ref = refused([&]() {bc.addBoundary(p);});
						mc::check(ref == !legal, "history:add-periodic", mc::cat("periodic boundary ", a, ",", b, legal ? " refused" : " accepted although an id is taken"));
						if (legal) {
							model[a] = model[b] = p;
							mp[a] = mp[b] = p;
						}
					} else {
						boost::shared_ptr<Boundary<dim> > w;
						dealii::Vector<double> v(dim);
						if (o.kind == 0)
							w = boost::make_shared<SLFirstOrderBounceBack<dim> >(o.id);
						else if (o.kind == 1)
							w = boost::make_shared<VelocityNeqBounceBack<dim> >(o.id, v);
						else
							w = boost::make_shared<SLEquilibriumBoundary<dim> >(o.id, v);
						bool legal = !model.count(o.id);
						bool ref = refused([&]() {bc.addBoundary(w);});
						mc::check(ref == !legal, "history:add-wall", mc::cat("wall ", o.id, legal ? " refused" : " accepted although the id is taken"));
						if (legal)
							model[o.id] = w;
					}
					// every view of the collection
					mc::check(bc.numberOfBoundaries() == model.size() && bc.numberOfPeriodicBoundaries() == mp.size(), "history:size",
							mc::cat(bc.numberOfBoundaries(), " boundaries (", bc.numberOfPeriodicBoundaries(), " periodic) instead of ", model.size(), " (", mp.size(), ")"));
					mc::check(bc.getBoundaries() == model && bc.getPeriodicBoundaries() == mp, "history:contents", "contents of the collection");
					for (size_t id : I { 0, 1, 2, 3, 4, 5, 9, 10 }) {
						mc::check(bc.hasID(id) == (model.count(id) == 1), "history:hasID", "hasID");
						bool r = refused([&]() {
							if (bc.getBoundary(id) != (model.count(id) ? model[id] : nullptr))
								mc::violation("history:getBoundary", "another boundary");
							if (bc.isPeriodic(id) != (mp.count(id) == 1))
								mc::violation("history:isPeriodic", "isPeriodic");
						});
						if (r != (model.count(id) == 0))
							mc::violation("history:unknown", "access to an unknown id");
						if (mp.count(id))
							mc::check(bc.getPeriodicBoundary(id) == mp[id], "history:getPeriodic", "getPeriodicBoundary");
						else
							mc::check(refused([&]() {bc.getPeriodicBoundary(id);}), "history:getPeriodic-refused", "getPeriodicBoundary for another id");
					}
					std::string st;
					for (auto& x : model)
						st += mc::cat(x.first, mp.count(x.first) ? "p" : "w");
					for (int a : made)
						st += mc::cat("/", a);
					mc::state(st);
				}
				mc::trace();
				mc::outcome(mc::cat("collection of ", model.size()));
			});
			return;
		}
		for (size_t k = 0; k < ops.size(); k++) {
			seq.push_back(k);
			rec();
			seq.pop_back();
		}
	};
	rec();
}
/// the streaming operators do not depend on the labels of the sides or the order in which they were made periodic
template<size_t dim> class Labelled: public ProblemDescription<dim> {
public:
	Labelled(const std::vector<unsigned>& cells, const V& L, const I& label, const std::vector<PB>& order) :
			ProblemDescription<dim>(box<dim>(cells, L), 0.1, 1.0) {
		relabel<dim>(*this->getMesh(), label);
		auto bc = boost::make_shared<BoundaryCollection<dim> >();
		for (auto& o : order) {
			size_t a = label[2 * o.axis], b = label[2 * o.axis + 1];
			if (o.swapped)
				std::swap(a, b);
			bc->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(a, b, o.axis, this->getMesh()));
		}
		this->setBoundaries(bc);
	}
	size_t level = 0;
	virtual void refine(Mesh<dim>& m) {
		if (level)
			m.refine_global(level);
	}
	virtual void transform(Mesh<dim>&) {
	}
	virtual bool isCartesian() {
		return true;
	}
};
template<size_t dim> std::map<std::array<size_t, 4>, double> operator_of(Labelled<dim>& p, bool dg, size_t order) {
	p.refineAndTransform();
	auto st = cl::make(dim == 2 ? Stencil_D2Q9 : Stencil_D3Q15, 1.0);
	boost::shared_ptr<AdvectionOperator<dim> > op;
	if (dg)
		op = boost::make_shared<SEDGMinLee<dim> >(p, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, false);
	else
		op = boost::make_shared<SemiLagrangian<dim> >(p, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, 0.31);
	op->setupDoFs();
	if (!dg) {
		op->setDeltaT(0.31);
		op->reassemble();
	}
	std::map<std::array<size_t, 4>, double> r;
	const auto& M = op->getSystemMatrix();
	for (size_t a = 0; a < M.n_block_rows(); a++)
		for (size_t b = 0; b < M.n_block_cols(); b++)
			if (M.block(a, b).n_nonzero_elements())
				for (auto it = M.block(a, b).begin(); it != M.block(a, b).end(); ++it)
					if (std::fabs(it->value()) > 1e-12)
						r[ { a, b, it->row(), it->column() }] += it->value();
	return r;
}
template<size_t dim> void labels(const std::string& name, const std::vector<I>& labellings, const std::vector<std::vector<PB> >& orders) {
	const V L = { 1, 1.5, 0.7 };
	for (auto& cells : std::vector<std::vector<unsigned> > { { 1, 1, 1 }, { 2, 1, 1 }, { 1, 3, 2 }, { 3, 2, 1 } })
		for (size_t level = 0; level < mc::tier<size_t>(2, dim == 2 ? 3 : 2); level++)
			for (int dg = 0; dg < 2; dg++)
				for (size_t p = 1; p <= mc::tier<size_t>(1, 2); p++)
					for (size_t l = 0; l < labellings.size(); l++)
						for (size_t o = 0; o < orders.size(); o++)
							mc::run_case(mc::cat(name, "/labels/", cells[0], "x", cells[1], "x", cells[2], "/level", level, dg ? "/dg" : "/sl", "/p", p, "/", l, "/", o), [&]() {
								const I standard = { 0, 1, 2, 3, 4, 5 };
								Labelled<dim> a(cells, L, standard, orders[0]), b(cells, L, labellings[l], orders[o]);
								a.level = b.level = level;
								auto x = operator_of<dim>(a, dg, p), y = operator_of<dim>(b, dg, p);
								bool same = x.size() == y.size();
								if (same) {
									auto j = y.begin();
									for (auto& i : x) {
										same = same && i.first == j->first && std::fabs(i.second - j->second) < 1e-9 * (1 + std::fabs(i.second));
										++j;
									}
								}
								mc::check(same, mc::cat("labels:", dg ? "dg" : "sl"), "the streaming operator depends on the labels of the sides");
								// constants: rows of the operator sum to zero (dg) or one (sl)
								std::map<std::pair<size_t, size_t>, double> rows;
								for (auto& i : y)
									rows[ { i.first[0], i.first[2] }] += i.second;
								for (auto& i : rows)
									mc::check_close(i.second, dg ? 0 : 1, dg ? 1e-9 : 1e-9, mc::cat("labels:constant:", dg ? "dg" : "sl"), "a uniform field does not stay uniform");
								mc::transition(x.size());
								mc::state(mc::cat(cells[0], cells[1], cells[2], level, dg, p, l, o));
								mc::outcome(dg ? "dg operator" : "sl operator");
							});
}
/// a column of two cells along an axis, whose vertices are numbered in the order of rotated cells
typedef std::array<unsigned, 8> Rot; // vertex v of the cell is the corner r[v]
std::vector<Rot> rotations() {
	std::vector<Rot> all;
	for (int p = 0; p < 6; p++) {
		int perm[3] = { p % 3, 0, 0 };
		perm[1] = (perm[0] + 1 + p / 3) % 3;
		perm[2] = 3 - perm[0] - perm[1];
		for (unsigned flip = 0; flip < 8; flip++) {
			// unit coordinate a of the cell runs along +-perm[a]
			int sign = p / 3 ? -1 : 1;
			for (int a = 0; a < 3; a++)
				if (flip >> a & 1)
					sign = -sign;
			if (sign < 0)
				continue; // mirrored
			Rot r;
			for (unsigned v = 0; v < 8; v++) {
				unsigned c = 0;
				for (int a = 0; a < 3; a++)
					c |= (((v >> a & 1) ^ (flip >> a & 1)) << perm[a]);
				r[v] = c;
			}
			all.push_back(r);
		}
	}
	return all;
}
const V COLUMN = { 1, 1.5, 0.7 };
boost::shared_ptr<Mesh<3> > column(size_t axis, const std::vector<Rot>& rot) {
	auto m = boost::make_shared<Mesh<3> >(MPI_COMM_WORLD);
	const size_t n = rot.size();
	unsigned N[3] = { 2, 2, 2 };
	N[axis] = n + 1;
	std::vector<dealii::Point<3> > pts;
	for (unsigned k = 0; k < N[2]; k++)
		for (unsigned j = 0; j < N[1]; j++)
			for (unsigned i = 0; i < N[0]; i++)
				pts.push_back(dealii::Point<3>(COLUMN[0] * i / (N[0] - 1), COLUMN[1] * j / (N[1] - 1), COLUMN[2] * k / (N[2] - 1)));
	std::vector<dealii::CellData<3> > cells(n);
	for (unsigned c = 0; c < n; c++)
		for (unsigned v = 0; v < 8; v++) {
			unsigned q = rot[c][v], x[3] = { q & 1, q >> 1 & 1, q >> 2 & 1 };
			x[axis] += c;
			cells[c].vertices[v] = (x[2] * N[1] + x[1]) * N[0] + x[0];
		}
	m->create_triangulation(pts, cells, dealii::SubCellData());
	for (auto c = m->begin_active(); c != m->end(); ++c)
		for (size_t f = 0; f < 6; f++)
			if (c->face(f)->at_boundary())
				for (size_t a = 0; a < 3; a++) {
					if (std::fabs(c->face(f)->center()[a]) < 1e-12)
						c->face(f)->set_boundary_id(2 * a);
					if (std::fabs(c->face(f)->center()[a] - COLUMN[a]) < 1e-12)
						c->face(f)->set_boundary_id(2 * a + 1);
				}
	return m;
}
class Column: public ProblemDescription<3> {
public:
	size_t level = 0;
	std::vector<boost::shared_ptr<PeriodicBoundary<3> > > pb;
	Column(size_t axis, const std::vector<Rot>& rot, bool swapped) :
			ProblemDescription<3>(column(axis, rot), 0.1, 1.0) {
		auto bc = boost::make_shared<BoundaryCollection<3> >();
		for (size_t a = 0; a < 3; a++) {
			pb.push_back(boost::make_shared<PeriodicBoundary<3> >(2 * a + swapped, 2 * a + !swapped, a, this->getMesh()));
			bc->addBoundary(pb.back());
		}
		this->setBoundaries(bc);
	}
	virtual void refine(Mesh<3>& m) {
		if (level)
			m.refine_global(level);
	}
	virtual void transform(Mesh<3>&) {
	}
	virtual bool isCartesian() {
		return false; // cells are rotated
	}
};
typedef std::pair<std::array<size_t, 2>, std::pair<Key, Key> > Entry;
/// entries of the streaming operator by the positions of the support points; discontinuous elements: by cell as well
std::map<std::pair<Entry, std::pair<Key, Key> >, double> operator_at(Column& p, bool dg, size_t order) {
	p.refineAndTransform();
	auto st = cl::make(Stencil_D3Q15, 1.0);
	boost::shared_ptr<AdvectionOperator<3> > op;
	if (dg)
		op = boost::make_shared<SEDGMinLee<3> >(p, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, false);
	else
		op = boost::make_shared<SemiLagrangian<3> >(p, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, st, 0.21);
	op->setupDoFs();
	if (!dg) {
		op->setDeltaT(0.21);
		op->reassemble();
	}
	const auto& dh = *op->getDoFHandler();
	std::vector<dealii::Point<3> > x(dh.n_dofs());
	std::vector<Key> cell(dh.n_dofs(), Key { 0, 0, 0 });
	dealii::DoFTools::map_dofs_to_support_points(op->getMapping(), dh, x);
	std::vector<dealii::types::global_dof_index> dofs(dh.get_fe().dofs_per_cell);
	if (dg)
		for (auto c = dh.begin_active(); c != dh.end(); ++c) {
			c->get_dof_indices(dofs);
			for (auto d : dofs)
				cell[d] = key_of<3>(c->center());
		}
	std::map<std::pair<Entry, std::pair<Key, Key> >, double> r;
	const auto& M = op->getSystemMatrix();
	for (size_t a = 0; a < M.n_block_rows(); a++)
		for (size_t b = 0; b < M.n_block_cols(); b++)
			if (M.block(a, b).n_nonzero_elements())
				for (auto it = M.block(a, b).begin(); it != M.block(a, b).end(); ++it)
					if (std::fabs(it->value()) > 1e-12)
						r[ { Entry( { a, b }, { key_of<3>(x[it->row()]), cell[it->row()] }), { key_of<3>(x[it->column()]), cell[it->column()] } }] += it->value();
	return r;
}
void oriented_partners(const std::string& key, PeriodicBoundary<3>& pb, const dealii::DoFHandler<3>& dh, size_t axis) {
	for (auto c = dh.begin_active(); c != dh.end(); ++c)
		for (size_t f = 0; f < 6; f++) {
			if (!c->face(f)->at_boundary() || c->face(f)->boundary_id() / 2 != axis)
				continue;
			const bool lower = c->face(f)->boundary_id() % 2 == 0;
			dealii::Tensor<1, 3> shift;
			shift[axis] = lower ? COLUMN[axis] : -COLUMN[axis];
			typename dealii::DoFHandler<3>::cell_iterator nb;
			size_t f2 = pb.getOppositeCellAtPeriodicBoundary(c, nb, f);
			mc::check(f2 < 6 && nb->face(f2)->center().distance(c->face(f)->center() + shift) < 1e-12, key + ":position",
					"centers of partners differ by something else than the period");
			if (f2 >= 6)
				continue;
			typename dealii::DoFHandler<3>::active_cell_iterator n2 = nb;
			std::vector<dealii::Point<3> > pts;
			for (size_t v = 0; v < 4; v++)
				pts.push_back(c->face(f)->vertex(v));
			pts.push_back(c->center());
			dealii::Point<3> beyond = c->face(f)->center();
			beyond[axis] += lower ? -0.37 : 0.37;
			pts.push_back(beyond);
			for (auto& p : pts) {
				auto q = pb.coordinatesAcrossPeriodicBoundary(p, c, f);
				mc::check(q.distance(p + shift) < 1e-11, key + ":coordinates", mc::cat("point ", p, " on face ", f, " becomes ", q));
				auto r = pb.coordinatesAcrossPeriodicBoundary(q, n2, f2);
				mc::check(r.distance(p) < 1e-11, key + ":coordinates-back", mc::cat("point ", p, " comes back as ", r));
				mc::transition(2);
			}
		}
}
/// cells may be rotated against each other: partners, coordinates and operators do not depend on it
void orientations() {
	auto rot = rotations();
	std::map<std::string, std::map<std::pair<Entry, std::pair<Key, Key> >, double> > reference;
	for (size_t axis = 0; axis < 3; axis++)
		for (size_t r1 = 0; r1 < mc::tier<size_t>(axis == 0 ? 3 : 1, rot.size()); r1++)
			for (size_t r2 = 0; r2 < rot.size(); r2++)
				for (size_t cells = 1; cells < 3; cells++) {
					if (cells == 1 && r1)
						continue;
					mc::run_case(mc::cat("3D/orientation/axis", axis, "/cells", cells, "/", r1, "-", r2), [&]() {
						std::vector<Rot> rs = { rot[r2] };
						if (cells == 2)
							rs.push_back(rot[r1]);
						for (int swapped = 0; swapped < 2; swapped++)
							for (size_t level = 0; level < 2; level++) {
								Column p(axis, rs, swapped);
								p.level = level;
								p.refineAndTransform();
								dealii::DoFHandler<3> dh(*p.getMesh());
								dealii::FE_DGQ<3> fe(1);
								dh.distribute_dofs(fe);
								for (size_t a = 0; a < 3; a++) {
									p.pb[a]->createCellMap(dh);
									oriented_partners("orientation", *p.pb[a], dh, a);
								}
							}
						for (int dg = 0; dg < 2; dg++) {
							const std::string k = mc::cat(axis, cells, dg);
							Column a(axis, std::vector<Rot>(cells, rot[0]), false), b(axis, rs, false);
							if (!reference.count(k))
								reference[k] = operator_at(a, dg, 2);
							auto y = operator_at(b, dg, 2);
							size_t differ = 0;
							for (auto& i : reference[k])
								if (!y.count(i.first) || std::fabs(y[i.first] - i.second) > 1e-9 * (1 + std::fabs(i.second)))
									if (y.count(i.first) || std::fabs(i.second) > 1e-9)
										differ++;
							for (auto& i : y)
								if (!reference[k].count(i.first) && std::fabs(i.second) > 1e-9)
									differ++;
							mc::check(differ == 0, mc::cat("orientation:", dg ? "dg" : "sl"), mc::cat("the streaming operator depends on the orientation of the cells: ", differ, " of ", y.size(), " entries"));
							mc::transition(y.size());
						}
						mc::state(mc::cat("orientation", axis, cells, r1, "-", r2));
						mc::outcome("rotated cells");
					});
				}
}
template<size_t dim> std::vector<std::vector<PB> > orders(bool subsets) {
	std::vector<std::vector<PB> > r;
	std::vector<size_t> perm;
	std::function<void()> rec = [&]() {
		if (perm.size() == dim || (subsets && perm.size()))
			for (size_t m = 0; m < (1u << perm.size()); m++) {
				std::vector<PB> o;
				for (size_t k = 0; k < perm.size(); k++)
					o.push_back( { perm[k], (m >> k & 1) == 1 });
				r.push_back(o);
			}
		for (size_t a = 0; a < dim; a++)
			if (std::find(perm.begin(), perm.end(), a) == perm.end()) {
				perm.push_back(a);
				rec();
				perm.pop_back();
			}
	};
	rec();
	return r;
}
template<size_t dim> void explore(const std::string& name) {
	std::vector<I> labellings = { { 0, 1, 2, 3, 4, 5 }, { 1, 0, 3, 2, 5, 4 }, { 3, 5, 0, 4, 1, 2 }, { 10, 20, 30, 40, 50, 60 } };
	std::vector<V> lengths = { { 1, 1, 1 }, { 0.7, 2.5, 1.3 }, { 40, 0.03, 2 } };
	const unsigned N = mc::tier<unsigned>(dim == 2 ? 3 : 2, 3);
	std::vector<std::vector<int> > refinements = { { -1 }, { -1, -1 }, { 0 }, { -1, 1 }, { 0, 1 }, { 1, 0 } };
	if (mc::thorough()) {
		refinements.push_back( { -1, -1, -1 });
		refinements.push_back( { 0, 0 });
		refinements.push_back( { -1, 0, 1, 0 });
		if (dim == 3)
			refinements.push_back( { 2, 0, 1 });
	}
	auto os = orders<dim>(true);
	for (unsigned a = 1; a <= N; a++)
		for (unsigned b = 1; b <= N; b++)
			for (unsigned c = 1; c <= (dim == 3 ? N : 1u); c++)
				for (size_t l = 0; l < labellings.size(); l++)
					for (size_t g = 0; g < lengths.size(); g++)
						for (size_t o = 0; o < os.size(); o++) {
							if (dim == 3 && !mc::thorough() && (o + l + g + a + b + c) % 6)
								continue;
							for (size_t r = 0; r < refinements.size(); r++) {
								if (dim == 3 && !mc::thorough() && r > 3 )
									continue;
								// local refinement is consistent only if both sides of all periodic axes are refined alike
								bool ok = true;
								for (int x : refinements[r])
									if (x >= 0)
										for (auto& p : os[o])
											ok = ok && ((int) p.axis == x);
								if (!ok)
									continue;
								for (int map = 0; map < 2; map++)
									mc::run_case(mc::cat(name, "/", a, "x", b, "x", c, "/labels", l, "/L", g, "/order", o, "/refinement", r, "/map", map), [&]() {
										geometry<dim>(mc::cat(name, "/refinement", r), { a, b, c }, lengths[g], labellings[l], os[o], refinements[r], map);
									});
							}
						}
	refusals<dim>(name);
	histories<dim>(name);
	labels<dim>(name, labellings, orders<dim>(false));
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance(argc, argv);
	{
		explore<2>("2D");
		explore<3>("3D");
		orientations();
	}
	mc::finish();
}
