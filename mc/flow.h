// Small flow problems and solvers for exploration: boxes with periodic sides or walls, any initial
// state, any configuration; snapshots of the complete state that do not depend on the numbering
#pragma once
#include "mc.h"
#include <array>
#include <memory>
#include "natrium/solver/CFDSolver.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/problemdescription/ProblemDescription.h"
#include "natrium/problemdescription/ConstantExternalForce.h"
#include "natrium/boundaries/PeriodicBoundary.h"
#include "natrium/boundaries/VelocityNeqBounceBack.h"
#include "natrium/boundaries/SLEquilibriumBoundary.h"
#include "natrium/boundaries/SLFirstOrderBounceBack.h"
#include "natrium/boundaries/DoNothingBoundary.h"
#include "natrium/dataprocessors/DataProcessor.h"
#include "natrium/utilities/CFDSolverUtilities.h"
#include "natrium/utilities/MPIGuard.h"
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/base/function.h>
#include <boost/filesystem.hpp>

namespace fl {
using namespace natrium;
typedef std::vector<double> V;
typedef std::function<double(const V&)> Scalar;
typedef std::function<double(const V&, size_t)> Vector;

template<size_t dim> class Fun: public dealii::Function<dim> {
	Vector m_f;
public:
	Fun(const Vector& f, size_t n) :
			dealii::Function<dim>(n), m_f(f) {
	}
	virtual double value(const dealii::Point<dim>& p, const unsigned int c = 0) const {
		V x(dim);
		for (size_t a = 0; a < dim; a++)
			x[a] = p[a];
		return m_f(x, c);
	}
};
/// walls: velocity of the wall; kind "n": nonequilibrium bounce back, "b": bounce back, "e": equilibrium, "d": do nothing
struct Side {
	char kind = 'p';
	V u;
};
struct Spec {
	size_t level = 1;
	V length = { 1, 1, 1 };
	std::vector<unsigned> cells = { 1, 1, 1 };
	std::array<Side, 6> side; // 2*axis, 2*axis+1
	Scalar rho;
	Vector u;
	Scalar T;
	V force;
	double visc = 0.1;
	std::function<V(const V&)> map; // transformation of the refined grid
	bool cartesian = true;
};
template<size_t dim> class Flow: public ProblemDescription<dim> {
	Spec m_s;
	static boost::shared_ptr<Mesh<dim> > grid(const Spec& s) {
		auto m = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
		dealii::Point<dim> a, b;
		std::vector<unsigned> rep(s.cells.begin(), s.cells.begin() + dim);
		for (size_t k = 0; k < dim; k++)
			b[k] = s.length[k];
		dealii::GridGenerator::subdivided_hyper_rectangle(*m, rep, a, b, true);
		return m;
	}
public:
	Flow(const Spec& s) :
			ProblemDescription<dim>(grid(s), s.visc, 1.0), m_s(s) {
		auto bc = boost::make_shared<BoundaryCollection<dim> >();
		for (size_t a = 0; a < dim; a++) {
			if (s.side[2 * a].kind == 'p') {
				bc->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(2 * a, 2 * a + 1, a, this->getMesh()));
				continue;
			}
			for (size_t k = 2 * a; k < 2 * a + 2; k++) {
				dealii::Vector<double> v(dim);
				for (size_t c = 0; c < s.side[k].u.size() && c < dim; c++)
					v(c) = s.side[k].u[c];
				boost::shared_ptr<Boundary<dim> > b;
				switch (s.side[k].kind) {
				case 'n':
					b = boost::make_shared<VelocityNeqBounceBack<dim> >(k, v);
					break;
				case 'b':
					b = boost::make_shared<SLFirstOrderBounceBack<dim> >(k);
					break;
				case 'e':
					b = boost::make_shared<SLEquilibriumBoundary<dim> >(k, v);
					break;
				case 'd':
					b = boost::make_shared<DoNothingBoundary<dim> >(k);
					break;
				}
				bc->addBoundary(b);
			}
		}
		this->setBoundaries(bc);
		if (s.rho) {
			auto f = s.rho;
			this->setInitialRho(boost::make_shared<Fun<dim> >([f](const V& x, size_t) {return f(x);}, 1));
		}
		if (s.T) {
			auto f = s.T;
			this->setInitialT(boost::make_shared<Fun<dim> >([f](const V& x, size_t) {return f(x);}, 1));
		}
		if (s.u)
			this->setInitialU(boost::make_shared<Fun<dim> >(s.u, dim));
		if (s.force.size()) {
			dealii::Tensor<1, dim> t;
			for (size_t a = 0; a < dim; a++)
				t[a] = s.force[a];
			this->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(t));
		}
	}
	virtual void refine(Mesh<dim>& mesh) {
		if (m_s.level)
			mesh.refine_global(m_s.level);
	}
	virtual void transform(Mesh<dim>& mesh) {
		if (!m_s.map)
			return;
		auto f = m_s.map;
		dealii::GridTools::transform([f](const dealii::Point<dim>& p) {
			V x(dim);
			for (size_t a = 0; a < dim; a++)
				x[a] = p[a];
			x = f(x);
			dealii::Point<dim> r;
			for (size_t a = 0; a < dim; a++)
				r[a] = x[a];
			return r;
		}, mesh);
	}
	virtual bool isCartesian() {
		return m_s.cartesian;
	}
};

/// smooth but general initial state: no symmetry, all components different
inline void general(Spec& s, double amp = 0.05) {
	const double two_pi = 2 * M_PI;
	V L = s.length;
	s.rho = [=](const V& x) {
		double r = 1;
		for (size_t a = 0; a < x.size(); a++)
			r += amp * (0.3 + 0.1 * a) * std::sin(two_pi * x[a] / L[a] + 0.4 + a);
		return r;
	};
	s.u = [=](const V& x, size_t c) {
		double r = amp * (0.2 + 0.1 * c);
		for (size_t a = 0; a < x.size(); a++)
			r += amp * (0.5 - 0.1 * a + 0.2 * c) * std::cos(two_pi * x[a] / L[a] + 0.7 * c + 0.3 * a);
		return r;
	};
	s.T = [=](const V& x) {
		double r = 1;
		for (size_t a = 0; a < x.size(); a++)
			r += amp * (0.2 + 0.1 * a) * std::cos(two_pi * x[a] / L[a] + 1.1 * a);
		return r;
	};
}
typedef std::function<void(SolverConfiguration&)> Setup;
inline boost::shared_ptr<SolverConfiguration> config(const Setup& s = nullptr) {
	auto c = boost::make_shared<SolverConfiguration>();
	c->setUserInteraction(false);
	c->setSwitchOutputOff(true);
	c->setCommandLineVerbosity(0);
	c->setConvergenceThreshold(-1);
	c->setOutputSolutionInterval(1000000000);
	c->setOutputTableInterval(1000000000);
	c->setOutputCheckpointInterval(1000000000);
	if (s)
		s(*c);
	return c;
}
struct Node {
	V x, f, m; // position, populations, density and velocity
};
/// key: cell and node in the cell
typedef std::map<std::array<long, 4>, Node> Nodes;
struct Snapshot {
	size_t i = 0;
	double t = 0;
	Nodes n;
	/// largest relative difference; -1: different nodes
	double distance(const Snapshot& o, bool populations = true, bool fields = true) const {
		double d = 0;
		if (n.size() != o.n.size())
			return 1e300;
		auto b = o.n.begin();
		for (auto& a : n) {
			if (a.first != b->first)
				return 1e300;
			auto cmp = [&](const V& p, const V& q) {
				if (p.size() != q.size())
					d = 1e300;
				else
					for (size_t k = 0; k < p.size(); k++) {
						const double e = std::fabs(p[k] - q[k]);
						if (!(e <= d))
							d = std::isnan(e) ? 1e300 : e;
					}
			};
			if (populations)
				cmp(a.second.f, b->second.f);
			if (fields)
				cmp(a.second.m, b->second.m);
			++b;
		}
		return d;
	}
	void hash() const {
		V v;
		v.push_back(t);
		for (auto& a : n)
			v.insert(v.end(), a.second.f.begin(), a.second.f.end());
		mc::state(v);
	}
};
template<size_t dim> Snapshot snapshot(const CFDSolver<dim>& s) {
	Snapshot r;
	r.i = s.getIteration();
	r.t = s.getTime();
	auto& adv = *s.getAdvectionOperator();
	const auto& dh = *adv.getDoFHandler();
	const auto& points = s.getSupportPoints();
	const size_t Q = s.getStencil()->getQ();
	std::vector<dealii::types::global_dof_index> dofs(adv.getFe()->dofs_per_cell);
	for (auto cell = dh.begin_active(); cell != dh.end(); ++cell) {
		if (!cell->is_locally_owned())
			continue;
		cell->get_dof_indices(dofs);
		std::array<long, 4> key;
		key.fill(0);
		for (size_t a = 0; a < dim; a++)
			key[a] = std::lround(cell->center()[a] * 1e6);
		for (size_t k = 0; k < dofs.size(); k++) {
			if (!adv.getLocallyOwnedDofs().is_element(dofs[k]))
				continue;
			key[3] = k;
			Node n;
			for (size_t a = 0; a < dim; a++)
				n.x.push_back(points.at(dofs[k])[a]);
			for (size_t q = 0; q < Q; q++)
				n.f.push_back(s.getF().at(q)(dofs[k]));
			n.m.push_back(s.getDensity()(dofs[k]));
			for (size_t a = 0; a < dim; a++)
				n.m.push_back(s.getVelocity().at(a)(dofs[k]));
			r.n[key] = n;
		}
	}
	return r;
}
template<size_t dim> class Recorder: public DataProcessor<dim> {
public:
	std::map<size_t, Snapshot> seen;
	std::vector<size_t> order;
	bool keep;
	Recorder(CFDSolver<dim>& s, bool k = true) :
			DataProcessor<dim>(s), keep(k) {
	}
	virtual void apply() {
		order.push_back(this->m_solver.getIteration());
		if (keep)
			seen[this->m_solver.getIteration()] = snapshot<dim>(this->m_solver);
		mc::transition();
	}
};
inline std::string fresh(const std::string& name) {
	const boost::filesystem::path p = boost::filesystem::path(mc::G().scratch) / name;
	boost::filesystem::remove_all(p);
	boost::filesystem::create_directories(p);
	return p.string();
}
} // namespace fl
