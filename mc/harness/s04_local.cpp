// S04: all sequences of node states up to the depth bound, for every accepted scheme, with and without force
#include "collide.h"
using namespace cl;

static bool same(const V& a, const V& b, double m) {
	for (size_t i = 0; i < a.size(); i++)
		if (!(std::fabs(a[i] - b[i]) <= 1e-14 * m))
			return false;
	return true;
}

/// cyclic sequence over 0..k-1 that contains every word of length n exactly once
static std::vector<size_t> de_bruijn(size_t k, size_t n) {
	std::vector<size_t> a(k * n, 0), r;
	std::function<void(size_t, size_t)> db = [&](size_t t, size_t p) {
		if (t > n) {
			if (n % p == 0)
				r.insert(r.end(), a.begin() + 1, a.begin() + p + 1);
			return;
		}
		a[t] = a[t - p];
		db(t + 1, p);
		for (size_t j = a[t - p] + 1; j < k; j++) {
			a[t] = j;
			db(t + 1, t);
		}
	};
	db(1, 1);
	for (size_t i = 0; i + 1 < n; i++)
		r.push_back(r[i]);
	return r;
}
/// states that agree exactly in part of what a collision may compute: density, single velocity
/// components, momentum, stress. All populations are dyadic, so that sums are exact.
static std::vector<V> twins(const Stencil& st, const Lat& L) {
	V b(L.Q);
	for (size_t i = 0; i < L.Q; i++)
		b[i] = (std::floor(L.w[i] * 4096) + 1) / 4096;
	std::vector<V> r;
	r.push_back(b);
	V dbl = b;
	for (double& x : dbl)
		x *= 2;
	r.push_back(dbl); // same velocity, twice the density
	const size_t step = L.Q > 100 ? 97 : L.Q > 30 ? 5 : 1;
	for (size_t i = 1; i < L.Q; i += step) {
		const size_t o = st.getIndexOfOppositeDirection(i);
		const double d = 1. / 8192;
		V x = b;
		x[i] += d;
		x[o] -= d;
		r.push_back(x); // same density, other velocity along one direction
		if (i > o)
			continue;
		x = b;
		x[i] += d;
		x[o] += d;
		x[0] -= 2 * d;
		r.push_back(x); // same density and momentum, other stress
	}
	// single velocity components
	for (size_t c = 0; c < L.D; c++)
		for (size_t i = 1; i < L.Q; i++) {
			bool axis = true;
			for (size_t d = 0; d < L.D; d++)
				axis &= d == c ? L.e[i][d] > 0 : L.e[i][d] == 0;
			if (!axis)
				continue;
			V x = b;
			x[i] += 1. / 4096;
			x[st.getIndexOfOppositeDirection(i)] -= 1. / 4096;
			r.push_back(x);
			break;
		}
	return r;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	std::vector<Accepted> acc = accepted();
	for (auto& a : acc)
		for (int forced = 0; forced < 3; forced++)
			mc::run_case(mc::cat(a.id, forced == 0 ? "" : forced == 1 ? "/shifting" : "/exact-difference"), [&] {
				const double sc = 2.3;
				auto st = make(a.st.type, sc);
				const Lat L(*st);
				Scheme s = a.s;
				s.visc = 0.11;
				s.dt = 0.2;
				if (forced) {
					s.forcing = forced == 1 ? SHIFTING_VELOCITY : EXACT_DIFFERENCE;
					s.F = L.D == 2 ? V { 0.02, -0.05 } : V { 0.02, -0.05, 0.03 };
				}
				// alphabet: rest, moving equilibria of different density, disturbed nodes, a strongly disturbed node
				std::vector<V> A;
				V u0(L.D, 0.0), u1(L.D, 0.05), u2(L.D, -0.1);
				u1[0] = -0.12;
				A.push_back(eq_ref(L, a.s.eq, 1.0, u0));
				A.push_back(eq_ref(L, a.s.eq, 1.7, u1));
				V h = eq_ref(L, a.s.eq, 0.6, u2);
				for (size_t i = 0; i < L.Q; i++)
					h[i] += L.w[i] * 0.13 * std::sin(1.0 + 3.1 * i);
				A.push_back(h);
				V g = eq_ref(L, a.s.eq, 1.0, u1);
				g[1] += 0.3 * L.w[1];
				g[L.Q - 1] -= 0.3 * L.w[L.Q - 1];
				A.push_back(g);
				if (mc::thorough()) {
					V k = eq_ref(L, a.s.eq, 30., u0);
					k[2] *= 2;
					A.push_back(k);
				}
				std::vector<Field> alone;
				for (auto& x : A)
					alone.push_back(collide(*st, s, { x }));
				const size_t depth = mc::tier<size_t>(L.Q > 30 ? 3 : 4, L.Q > 30 ? 4 : 6);
				mc::sequences(A.size(), depth, [&](const std::vector<size_t>& q) {
					if (q.empty())
						return;
					std::vector<V> in;
					for (size_t k : q)
						in.push_back(A[k]);
					Field r = collide(*st, s, in);
					mc::trace();
					for (size_t k = 0; k < q.size(); k++) {
						const Field& e = alone[q[k]];
						mc::check(same(r.f[k], e.f[0], magnitude(A[q[k]])) && std::fabs(r.rho[k] - e.rho[0]) <= 1e-14 * e.rho[0] && same(r.u[k], e.u[0], sc),
								a.id + ":neighbour", mc::cat("node ", k, " of ", q.size(), " (state ", q[k], ") depends on the other nodes"));
					}
					mc::state(q.data(), q.size() * sizeof(size_t));
				});
				// states that share part of what a collision computes: all pairs (triples) of neighbours
				{
					std::vector<V> T = twins(*st, L);
					std::vector<Field> single;
					for (auto& x : T)
						single.push_back(collide(*st, s, { x }));
					const size_t order = mc::thorough() && T.size() < 40 ? 3 : 2;
					const std::vector<size_t> q = de_bruijn(T.size(), order);
					std::vector<V> in;
					for (size_t k : q)
						in.push_back(T[k]);
					Field r = collide(*st, s, in);
					for (size_t k = 0; k < q.size(); k++) {
						const Field& e = single[q[k]];
						mc::check(same(r.f[k], e.f[0], magnitude(T[q[k]])) && std::fabs(r.rho[k] - e.rho[0]) <= 1e-14 * e.rho[0] && same(r.u[k], e.u[0], sc),
								a.id + ":neighbour", mc::cat("node ", k, " (state ", q[k], k ? mc::cat(" after state ", q[k - 1]) : std::string(), ") depends on the other nodes"));
					}
					mc::trace();
					mc::note("adjacent words of states", (long) (q.size() - order + 1));
					mc::outcome(mc::cat(a.st.name, " ", name(a.s.coll), " words of ", order));
				}
				// earlier calls: every other scheme variant first, then this one
				for (auto& b : acc) {
					if (b.st.d != a.st.d)
						continue;
					auto st2 = make(b.st.type, 1.0);
					const Lat L2(*st2);
					Scheme s2 = b.s;
					s2.visc = 0.9;
					collide(*st2, s2, { eq_ref(L2, b.s.eq, 2.0, V(L2.D, 0.1)) });
					Field r = collide(*st, s, A);
					for (size_t k = 0; k < A.size(); k++)
						mc::check(same(r.f[k], alone[k].f[0], magnitude(A[k])), a.id + ":earlier-call", "result depends on an earlier collision with " + b.id);
				}
				// twice in a row equals once and once again
				Field two = collide(*st, s, A, 2);
				for (size_t k = 0; k < A.size(); k++) {
					Field again = collide(*st, s, { alone[k].f[0] });
					mc::check(same(two.f[k], again.f[0], magnitude(A[k])), a.id + ":repeat", "second collision in a row differs");
				}
			});
	mc::finish();
}
