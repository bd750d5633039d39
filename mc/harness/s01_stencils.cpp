// S01: every velocity set x scaling x moment tuple
#include "mc.h"
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D2Q19H.h"
#include "natrium/stencils/D2Q19V.h"
#include "natrium/stencils/D2Q25H.h"
#include "natrium/stencils/D2Q777.h"
#include "natrium/stencils/D3Q13.h"
#include "natrium/stencils/D3Q15.h"
#include "natrium/stencils/D3Q19.h"
#include "natrium/stencils/D3Q21.h"
#include "natrium/stencils/D3Q27.h"
#include "natrium/stencils/D3Q45.h"
#include "natrium/stencils/D3Q77.h"
#include "natrium/stencils/D3V27.h"
#include "natrium/stencils/RD3Q27.h"
#include "natrium/utilities/CFDSolverUtilities.h"

using namespace natrium;

struct Entry {
	const char* name;
	std::function<boost::shared_ptr<Stencil>(double)> make;
	size_t d, q;
	StencilType type;
	int degree;      // highest degree of exactly reproduced Gaussian moments
	double cs2;      // speed of sound squared at scaling 1
	double umax;     // nominal largest speed at scaling 1
	double tol;      // accuracy the weights are tabulated with
};
template<class S> boost::shared_ptr<Stencil> mk(double s) {
	return boost::make_shared<S>(s);
}

static double gauss1d(int n, double cs2) { // E[x^n], variance cs2
	if (n % 2)
		return 0;
	double r = 1;
	for (int k = n - 1; k > 0; k -= 2)
		r *= k * cs2;
	return r;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	const double r2 = std::sqrt(2.), r3 = std::sqrt(3.);
	std::vector<Entry> all = {
		{ "D2Q9", mk<D2Q9>, 2, 9, Stencil_D2Q9, 5, 1. / 3, r2, 1e-9 },
		{ "D2Q19H", mk<D2Q19H>, 2, 19, Stencil_D2Q19H, 9, 1. / 3, r2, 1e-9 },
		{ "D2Q19V", mk<D2Q19V>, 2, 19, Stencil_D2Q19V, 9, 1. / 3, r2, 1e-9 },
		{ "D2Q25H", mk<D2Q25H>, 2, 25, Stencil_D2Q25H, 9, 1. / 3, r2, 1e-9 },
		{ "D2Q777", mk<D2Q777>, 2, 777, Stencil_D2Q777, 9, 1. / 3, r2, 1e-4 },
		{ "D3Q13", mk<D3Q13>, 3, 13, Stencil_D3Q13, 5, 1. / 3, r2, 1e-9 },
		{ "D3Q15", mk<D3Q15>, 3, 15, Stencil_D3Q15, 5, 1. / 3, r3, 1e-9 },
		{ "D3Q19", mk<D3Q19>, 3, 19, Stencil_D3Q19, 5, 1. / 3, r2, 1e-9 },
		{ "D3Q21", mk<D3Q21>, 3, 21, Stencil_D3Q21, 5, 1. / 3, r2, 1e-9 },
		{ "D3Q27", mk<D3Q27>, 3, 27, Stencil_D3Q27, 5, 1. / 3, r2, 1e-9 },
		{ "D3Q45", mk<D3Q45>, 3, 45, Stencil_D3Q45, 9, 1. / 3, r2, 1e-9 },
		{ "D3Q77", mk<D3Q77>, 3, 77, Stencil_D3Q77, 9, 1. / 3, r2, 1e-9 },
		{ "D3V27", mk<D3V27>, 3, 27, Stencil_D3V27, 7, 1. / 3, r2, 1e-9 },
		{ "RD3Q27", mk<RD3Q27>, 3, 27, Stencil_RD3Q27, 5, 1. / 5, r2, 1e-9 },
	};
	std::vector<double> scalings = { 1.0, 0.25, 2.0, 10.0, 1.0 / 3.0, 3.14159265358979, 57.7350269 };
	if (mc::thorough()) {
		for (int k = -12; k <= 12; k++) {
			scalings.push_back(std::pow(2., k));
			scalings.push_back(std::pow(1.7, k));
		}
	}
	for (auto& e : all)
		for (double s : scalings) {
			if (e.q > 100 && s != 1.0 && s != 0.25 && s != 10.0 && !mc::thorough())
				continue;
			std::string N = e.name;
			mc::run_case(mc::cat("stencil/", e.name, "/s=", s), [&] {
				boost::shared_ptr<Stencil> st = e.make(s);
				const Stencil& S = *st;
				mc::transition();
				mc::check(S.getD() == e.d && S.getQ() == e.q, N + ":size", "dimension or number of directions");
				mc::check(S.getStencilType() == e.type, N + ":type", "type");
				mc::check_close(S.getScaling(), s, 1e-14 * s, N + ":scaling", "reported scaling");
				mc::check_close(S.getSpeedOfSoundSquare(), e.cs2 * s * s, 1e-9 * s * s, N + ":cs2", "speed of sound squared");
				mc::check_close(S.getSpeedOfSound() * S.getSpeedOfSound(), S.getSpeedOfSoundSquare(), 1e-12 * s * s, N + ":cs", "speed of sound");
				mc::check_close(S.getMaxParticleVelocityMagnitude(), e.umax * s, 1e-9 * s, N + ":umax", "nominal largest speed");
				const size_t Q = e.q, D = e.d;
				if (!mc::check(S.getDirections().size() == Q && S.getWeights().size() == Q, N + ":vectors", "sizes of directions/weights"))
					return;
				double sum = 0;
				std::set<size_t> opp;
				std::vector<double> img;
				for (size_t i = 0; i < Q; i++) {
					const double w = S.getWeight(i);
					mc::check(w > 0, N + ":positive", mc::cat("weight ", i, " is ", w));
					mc::check(w == S.getWeights()[i], N + ":weight-access", mc::cat("weight ", i));
					sum += w;
					img.push_back(w);
					mc::check(S.getDirection(i).size() == D, N + ":dirsize", mc::cat("direction ", i));
					for (size_t a = 0; a < D; a++) {
						img.push_back(S.getDirection(i)(a));
						mc::check(S.getDirection(i)(a) == S.getDirections()[i](a), N + ":direction-access", mc::cat("direction ", i));
					}
					const size_t o = S.getIndexOfOppositeDirection(i);
					if (!mc::check(o < Q, N + ":opposite-range", mc::cat("opposite of ", i, " is ", o)))
						continue;
					opp.insert(o);
					mc::check(S.getIndexOfOppositeDirection(o) == i, N + ":opposite-involution", mc::cat("opposite of opposite of ", i));
					mc::check_close(S.getWeight(o), w, 1e-12, N + ":opposite-weight", mc::cat("weight of opposite of ", i));
					for (size_t a = 0; a < D; a++)
						mc::check_close(S.getDirection(o)(a), -S.getDirection(i)(a), 1e-12 * s, N + ":opposite-direction",
								mc::cat("component ", a, " of the opposite of ", i));
					// directions are pairwise different
					for (size_t j = 0; j < i; j++) {
						double dist = 0;
						for (size_t a = 0; a < D; a++)
							dist += std::fabs(S.getDirection(i)(a) - S.getDirection(j)(a));
						mc::check(dist > 1e-6 * s, N + ":distinct", mc::cat("directions ", i, " and ", j, " coincide"));
					}
				}
				double z = 0;
				for (size_t a = 0; a < D; a++)
					z += std::fabs(S.getDirection(0)(a));
				mc::check(z == 0, N + ":rest", "direction 0 is not the rest direction");
				mc::state(img);
				mc::check(opp.size() == Q, N + ":opposite-bijective", "opposite map is not one to one");
				mc::check_close(sum, 1.0, 1e-7, N + ":sum", "sum of weights");
				// all moment tuples up to degree
				int highest = -1;
				for (int deg = 0; deg <= 12; deg++) {
					bool ok = true;
					std::string worst;
					for (int i = 0; i <= deg; i++)
						for (int j = 0; i + j <= deg; j++) {
							const int k = deg - i - j;
							if (D == 2 && k > 0)
								continue;
							double m = 0;
							for (size_t x = 0; x < Q; x++)
								m += S.getWeight(x) * std::pow(S.getDirection(x)(0) / s, i) * std::pow(S.getDirection(x)(1) / s, j)
										* (D == 3 ? std::pow(S.getDirection(x)(2) / s, k) : 1.);
							mc::transition();
							const double r = gauss1d(i, e.cs2) * gauss1d(j, e.cs2) * gauss1d(k, e.cs2);
							if (!(std::fabs(m - r) <= e.tol * std::max(1., std::fabs(r)))) {
								ok = false;
								worst = mc::cat("moment (", i, ",", j, ",", k, ") is ", m, " instead of ", r);
							}
							mc::outcome(mc::cat(e.name, " deg ", deg, (std::fabs(m - r) <= e.tol * std::max(1., std::fabs(r))) ? " exact" : " inexact"));
						}
					if (deg <= e.degree)
						mc::check(ok, N + ":moments", worst);
					if (!ok)
						break;
					highest = deg;
				}
				mc::note(mc::cat("degree ", e.name, "=", highest));
				// moment basis
				numeric_matrix M, I;
				S.getMomentBasis(M);
				S.getInverseMomentBasis(I);
				if (mc::check(M.m() == Q && M.n() == Q && I.m() == Q && I.n() == Q, N + ":basis-size", "moment basis size")) {
					double mx = 0;
					for (size_t i = 0; i < Q; i++)
						for (size_t j = 0; j < Q; j++) {
							double x = 0, mag = 1;
							for (size_t k = 0; k < Q; k++) {
								x += M(i, k) * I(k, j);
								mag += std::fabs(M(i, k) * I(k, j));
							}
							const double dev = std::fabs(x - (i == j)) / mag;
							if (!(dev <= mx))
								mx = dev;
						}
					mc::check(mx < 1e-6, N + ":basis-inverse", mc::cat("moment basis times its inverse deviates from one by ", mx));
				}
				mc::trace();
			});
		}
	// selection by dimension and number of directions
	for (size_t d = 0; d <= 4; d++)
		for (size_t q = 0; q <= 80; q++)
			for (double s : { 1.0, 2.0, 2.5, 0.5 })
				mc::run_case(mc::cat("make_stencil/d=", d, "/q=", q, "/s=", s), [&] {
					boost::shared_ptr<Stencil> st;
					try {
						st = CFDSolverUtilities::make_stencil(d, q, s);
					} catch (std::exception&) {
						mc::outcome("refused");
						mc::transition();
						mc::state(mc::cat("no", d, q));
						// the sets every configuration relies on are available
						static const std::set<std::pair<size_t, size_t>> must = { { 2, 9 }, { 2, 25 }, { 3, 15 }, { 3, 19 }, { 3, 27 }, { 3, 45 }, { 3, 13 }, { 3, 21 } };
						mc::check(must.count( { d, q }) == 0, "make_stencil:refuses", mc::cat("d=", d, " q=", q));
						return;
					}
					mc::transition();
					if (!mc::check(bool(st), "make_stencil:null", mc::cat("d=", d, " q=", q)))
						return;
					mc::outcome("made");
					mc::check(st->getD() == d && st->getQ() == q, "make_stencil:other-set", mc::cat("d=", d, " q=", q, " gives D", st->getD(), "Q", st->getQ()));
					mc::check_close(st->getScaling(), s, 1e-14, "make_stencil:scaling", mc::cat("scaling of d=", d, " q=", q));
					mc::state(mc::cat(d, ",", q, ",", st->getScaling()));
					mc::trace();
				});
	mc::finish();
}
