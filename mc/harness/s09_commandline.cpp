// S09: command line options change exactly what they document; all ordered pairs of options with
// all their values, conflicts, illegal values, a program's own arguments
#include "config_table.h"
#include "natrium/utilities/CommandLineParser.h"
#include "natrium/utilities/CFDSolverUtilities.h"

typedef std::vector<std::pair<std::string, std::string> > Effects; // option of the configuration, value as the getter shows it
struct Arg {
	std::string name;
	std::vector<std::string> text; // words on the command line
	Effects e;
	int rank = 0; // an option that stands for one variable wins over a preset of several
};
static std::vector<Arg> A;   // legal
static std::vector<Arg> BAD; // to be refused

static void add(const std::string& name, const std::string& value, const Effects& e, int rank = 1) {
	Arg a;
	a.name = name;
	a.text = {"--" + name};
	if (value.size())
		a.text.push_back(value);
	a.e = e;
	a.rank = rank;
	A.push_back(a);
}
static void bad(const std::string& name, const std::vector<std::string>& values) {
	for (auto& v : values) {
		Arg a;
		a.name = name;
		a.text = {"--" + name + "=" + v};
		BAD.push_back(a);
	}
}
template<class E> static void choice(const std::string& name, const std::string& option, const std::vector<std::pair<std::string, E> >& v) {
	for (auto& x : v)
		add(name, x.first, { { option, mc::cat((int) x.second) } });
	bad(name, { "nonsense", v[0].first + "x", "1000" });
}
static const std::string OFF = "output off";
static void arguments() {
	const double third = 1. / 3;
	const std::string fe = "order", cfl = "CFL", adv = "advection scheme", sp = "support points";
	add("standard-lbm", "", { { cfl, num(2 * std::sqrt(2.)) }, { fe, "2" }, { adv, mc::cat((int) SEMI_LAGRANGIAN) } }, 0);
	for (int n : { 1, 2, 3, 5 })
		add("standard-lbm-with", mc::cat(n), { { cfl, num(n * std::sqrt(2.)) }, { fe, mc::cat(n) }, { adv, mc::cat((int) SEMI_LAGRANGIAN) }, { sp, mc::cat(
				(int) EQUIDISTANT_POINTS) } }, 0);
	bad("standard-lbm-with", { "0", "-1", "two" });
	for (int n : { 1, 2, 3, 14 })
		add("order-fe", mc::cat(n), { { fe, mc::cat(n) } });
	bad("order-fe", { "0", "-1", "x", "2.5" });
	for (double v : { 0.4, third, 1e-3, 20. })
		add("cfl", num(v), { { cfl, num(v) } });
	bad("cfl", { "0", "-1", "x" });
	add("output-on", "", { { OFF, "false" } });
	add("verbose", "", { { OFF, "false" }, { "verbosity", mc::cat((int) ALL) } });
	choice<AdvectionSchemeName>("streaming", adv, { { "sedg", SEDG }, { "sl", SEMI_LAGRANGIAN } });
	choice<CollisionSchemeName>("collision", "collision scheme", { { "bgk", BGK_STANDARD }, { "bgkt", BGK_STANDARD_TRANSFORMED }, { "inc", BGK_INCOMPRESSIBLE }, { "pp",
			BGK_MULTIPHASE }, { "ss", BGK_STEADY_STATE }, { "mrt", MRT_STANDARD }, { "kbcs", KBC_STANDARD }, { "kbcc", KBC_CENTRAL }, { "reg", BGK_REGULARIZED }, { "am4",
			BGK_MULTI_AM4 }, { "bdf2", BGK_MULTI_BDF2 }, { "est", ENTROPIC_STABILIZED } });
	const std::vector<std::tuple<std::string, TimeIntegratorName, DealIntegratorName> > I = { { "rk4", RUNGE_KUTTA_5STAGE, NONE }, { "theta", THETA_METHOD, NONE }, { "exp",
			EXPONENTIAL, NONE }, { "ee", OTHER, FORWARD_EULER }, { "rk3", OTHER, RK_THIRD_ORDER }, { "rk4_2", OTHER, RK_CLASSIC_FOURTH_ORDER }, { "ie", OTHER,
			BACKWARD_EULER }, { "midpoint", OTHER, IMPLICIT_MIDPOINT }, { "cn", OTHER, CRANK_NICOLSON }, { "sdirk", OTHER, SDIRK_TWO_STAGES }, { "heun-euler", OTHER,
			HEUN_EULER }, { "bogacki", OTHER, BOGACKI_SHAMPINE }, { "dopri", OTHER, DOPRI }, { "fehlberg", OTHER, FEHLBERG }, { "cash-karp", OTHER, CASH_KARP } };
	for (size_t i = 0; i < I.size(); i++) {
		const Effects e = { { "time integrator", mc::cat((int) std::get<1>(I[i])) }, { "deal integrator", mc::cat((int) std::get<2>(I[i])) } };
		add("integrator", std::get<0>(I[i]), e);
		add("integrator-id", mc::cat(i + 1), e);
	}
	bad("integrator", { "nonsense", "rk4x", "1" });
	bad("integrator-id", { "0", "16", "-1", "100", "rk4" });
	for (double v : { 0.5, third, 30. })
		add("scaling", num(v), { { "stencil scaling", num(v) } });
	bad("scaling", { "0", "-1", "x" });
	choice<EquilibriumSchemeName>("equilibrium", "equilibrium", { { "bgk", BGK_EQUILIBRIUM }, { "quartic", QUARTIC_EQUILIBRIUM } });
	choice<RegularizationSchemeName>("regularization", "regularization", { { "no", NO_REGULARIZATION }, { "pem", PSEUDO_ENTROPY_MAXIMIZATION }, { "zero",
			ZERO_HIGH_ORDER_MOMENTS }, { "em", ENTROPY_MAXIMIZATION }, { "pemwe", PSEUDO_ENTROPY_MAXIMIZATION_WITH_E } });
	choice<SupportPointsName>("support-points", sp, { { "gll", GAUSS_LOBATTO_POINTS }, { "glc", GAUSS_LOBATTO_CHEBYSHEV_POINTS }, { "gc", GAUSS_CHEBYSHEV_POINTS }, { "equi",
			EQUIDISTANT_POINTS } });
	for (std::string d : { "/tmp/other", "somewhere", "a=b" })
		add("output-dir", d, { { OFF, "false" }, { "output directory", d } });
	for (auto& p : std::vector<std::pair<std::string, std::string> > { { "output-sol", "solution interval" }, { "output-chk", "checkpoint interval" }, { "output-tab",
			"table interval" } }) {
		for (int v : { 1, 7, 1234567 })
			add(p.first, mc::cat(v), { { OFF, "false" }, { p.second, mc::cat(v) } });
		bad(p.first, { "0", "-5", "x", "1.5" });
	}
	choice<StencilType>("stencil", "stencil", { { "d2q9", Stencil_D2Q9 }, { "d3q19", Stencil_D3Q19 }, { "d3q15", Stencil_D3Q15 }, { "d3q27", Stencil_D3Q27 }, { "d2q19v",
			Stencil_D2Q19V }, { "d2q19h", Stencil_D2Q19H }, { "d2q777", Stencil_D2Q777 }, { "d2q25h", Stencil_D2Q25H }, { "d3q45", Stencil_D3Q45 }, { "d3q77",
			Stencil_D3Q77 }, { "d3v27", Stencil_D3V27 }, { "d3q21", Stencil_D3Q21 }, { "d3q13", Stencil_D3Q13 }, { "rd3q27", Stencil_RD3Q27 } });
	for (double v : { 0.25, third, 1e6 })
		add("tmax", num(v), { { "end time", num(v) } });
	bad("tmax", { "-1", "later" });
	choice<InitializationSchemeName>("init", "initialization", { { "equi", EQUILIBRIUM }, { "iter", ITERATIVE } });
	for (int v : { 1, 99 })
		add("init-niter", mc::cat(v), { { "init iterations", mc::cat(v) } });
	bad("init-niter", { "0", "-1", "x" });
	for (double v : { 1e-9, third })
		add("init-res", num(v), { { "init residual", num(v) } });
	bad("init-res", { "0", "-1", "x" });
	choice<MomentBasis>("mrt-basis", "MRT basis", { { "dellar-d2q9", DELLAR_D2Q9 }, { "lallemand-d2q9", LALLEMAND_D2Q9 }, { "dhumieres-d3q19", DHUMIERES_D3Q19 } });
	choice<RelaxMode>("mrt-relax", "MRT relaxation", { { "full", RELAX_FULL }, { "dellar-only-N", DELLAR_RELAX_ONLY_N }, { "dhumieres-paper", RELAX_DHUMIERES_PAPER } });
}
/// why these options must not stand together ("" if they may)
static bool conflict(const std::vector<const Arg*>& v) {
	std::map<std::string, std::string> m;
	for (auto* a : v)
		m[a->name] = a->text.size() > 1 ? a->text[1] : "";
	if (m.count("integrator") && m.count("integrator-id"))
		return true;
	const bool s = m.count("standard-lbm"), w = m.count("standard-lbm-with");
	if (s && w)
		return true;
	if (!s && !w)
		return false;
	return m.count("cfl") || (m.count("order-fe") && m["order-fe"] != (s ? std::string("2") : m["standard-lbm-with"])) || (m.count("streaming") && m["streaming"] != "sl");
}
static Model start(C& c, int which) {
	Model m = defaults();
	if (which)
		for (size_t k = 0; k < O.size(); k++) {
			const size_t v = which == 1 ? O[k].good.size() - 1 : 0;
			O[k].good[v].second(c);
			m[k] = O[k].good[v].first;
		}
	return m;
}
struct Line {
	std::vector<std::string> w = { "program" };
	std::vector<char*> p;
	explicit Line(const std::vector<std::string>& words) {
		w.insert(w.end(), words.begin(), words.end());
		for (auto& s : w)
			p.push_back(&s[0]);
		p.push_back(nullptr);
	}
	int argc() {
		return w.size();
	}
	char** argv() {
		return p.data();
	}
	std::string str() const {
		std::string s;
		for (size_t i = 1; i < w.size(); i++)
			s += (i > 1 ? " " : "") + w[i];
		return s;
	}
};
static size_t find(const std::string& n) {
	for (size_t k = 0; k < O.size(); k++)
		if (O[k].name == n)
			return k;
	mc::violation("harness", "unknown option " + n);
	return 0;
}
static bool run(const std::vector<const Arg*>& v, const std::vector<std::string>& words, int which, const std::string& key, bool must_refuse = false) {
	Line l(words);
	C c;
	Model m = start(c, which);
	const std::string where = mc::cat(l.str(), " on configuration ", which);
	bool refused = false;
	std::string what;
	try {
		CommandLineParser p(l.argc(), l.argv());
		p.importOptions();
		p.applyToSolverConfiguration(c);
	} catch (std::exception& e) {
		refused = true;
		what = std::string(e.what()).substr(0, 150);
	}
	mc::transition();
	mc::trace();
	if (must_refuse || conflict(v)) {
		mc::outcome(refused ? "refused" : "accepted a conflict");
		return mc::check(refused, key + ":accepts", where + " is accepted");
	}
	if (!mc::check(!refused, key + ":refuses", where + " is refused: " + what))
		return false;
	for (int r = 0; r < 2; r++)
		for (auto* a : v)
			if (a->rank == r)
				for (auto& e : a->e)
					m[find(e.first)] = e.second;
	mc::outcome("applied");
	return compare(c, m, key, where);
}
static std::vector<std::string> words(const std::vector<const Arg*>& v) {
	std::vector<std::string> w;
	for (auto* a : v)
		w.insert(w.end(), a->text.begin(), a->text.end());
	return w;
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	options();
	arguments();
	for (auto& o : O)
		if (o.name == "CFL")
			o.tol = 1e-14; // products of square roots
	mc::run_case("none", [&] {
		for (int s = 0; s < 3; s++)
			run( { }, { }, s, "none");
		mc::note("options of the configuration", (long) O.size());
		mc::note("command line options and values", (long) A.size());
	});
	// all single options and ordered pairs
	for (auto& a : A)
		mc::run_case("with/" + words( { &a })[0] + "/" + a.text.back(), [&a] {
			for (int s = 0; s < 3; s++)
				run( { &a }, words( { &a }), s, "single:" + a.name);
			if (a.text.size() == 2)
				run( { &a }, { a.text[0] + "=" + a.text[1] }, 0, "single:" + a.name);
			for (auto& b : A) {
				if (b.name == a.name)
					continue;
				for (int s = 0; s < (mc::thorough() ? 3 : 2); s++)
					if (!run( { &a, &b }, words( { &a, &b }), s, "pair:" + a.name + "+" + b.name))
						return;
			}
			for (auto& b : BAD)
				if (b.name != a.name)
					run( { &a, &b }, words( { &a, &b }), 0, "illegal:" + b.name, true);
			mc::outcome(a.name);
		});
	// triples of one value each: presets and their variables meet everything else
	for (auto& a : A)
		mc::run_case("triples/" + words( { &a })[0] + "/" + a.text.back(), [&a] {
			if (!mc::thorough() && a.rank)
				return;
			for (size_t i = 0; i < A.size(); i++)
				for (size_t j = 0; j < A.size(); j++) {
					auto &b = A[i], &c = A[j];
					if (b.name == a.name || c.name == a.name || b.name == c.name)
						continue;
					// first value of each option (all values of the options that conflict with presets)
					auto first = [](size_t k) {return k == 0 || A[k - 1].name != A[k].name || A[k].name == "order-fe" || A[k].name == "streaming";};
					if (!first(i) || !first(j))
						continue;
					if (!run( { &b, &a, &c }, words( { &b, &a, &c }), 0, "triple:" + a.name + "+" + b.name + "+" + c.name))
						return;
				}
		});
	mc::run_case("refused", [&] {
		for (auto& b : BAD)
			for (int s = 0; s < 3; s++)
				run( { &b }, b.text, s, "illegal:" + b.name, true);
		for (auto& a : A)
			if (a.text.size() == 2)
				run( { &a }, { a.text[0] }, 0, "novalue:" + a.name, true);
		for (std::string w : { "--no-such-option", "stray", "-x" })
			run( { }, { w }, 0, "unknown", true);
		for (auto& a : A)
			if (a.text.size() == 2) {
				auto w = words( { &a, &a });
				run( { &a, &a }, w, 0, "twice:" + a.name, true);
			}
	});
	// a program's own arguments: with or without default, given or not, among other options
	for (int block = 0; block < 16; block++)
	mc::run_case(mc::cat("own/", block), [&, block] {
		for (int given = 4 * block; given < 4 * block + 4; given++)
			for (int positional = 0; positional < 3; positional++)
				for (size_t std_ = 0; std_ <= A.size(); std_ += mc::thorough() ? 1 : 5) {
					std::vector<std::string> w;
					std::vector<const Arg*> v;
					auto with = [&](int bit) {return (given >> bit) & 1;};
					if (positional >= 1)
						w.push_back("3.75");
					if (with(0))
						w.insert(w.end(), { "--level", "5" });
					if (with(1))
						w.insert(w.end(), { "--reynolds=0.125" });
					if (std_) {
						v.push_back(&A[std_ - 1]);
						for (auto& t : A[std_ - 1].text)
							w.push_back(t);
					}
					if (with(2))
						w.insert(w.end(), { "-g", "fine grid" });
					if (with(3))
						w.insert(w.end(), { "--cells", "-9" });
					if (with(4))
						w.push_back("--fast");
					if (with(5))
						w.insert(w.end(), { "--ma", "1e-3" });
					if (positional >= 2)
						w.push_back("-2");
					if (positional >= 2) {
						// a word that starts with a dash is not positional; use a number without a sign
						w.back() = "17";
					}
					Line l(w);
					CommandLineParser p(l.argc(), l.argv());
					p.setArgument<int>("level", "refinement", 3);
					p.setArgument<double>("reynolds", "Reynolds number", 1. / 3);
					p.setArgument<string>("grid,g", "name", "coarse");
					p.setArgument<int>("cells", "no default");
					p.setFlag("fast", "flag");
					p.setArgument<double>("ma", "Mach number");
					p.setPositionalArgument<double>("first", "first position");
					p.setArgument<int>("second", "second position");
					p.makePositional("second");
					bool early = false;
					try {
						p.hasArgument("level");
					} catch (CommandLineParserException&) {
						early = true;
					}
					mc::check(early, "own:early", l.str() + ": arguments can be read before importOptions");
					const std::string where = l.str();
					try {
						p.importOptions();
						mc::check(p.getArgument<int>("level") == (with(0) ? 5 : 3), "own:int-default", mc::cat(where, ": level is ", p.getArgument<int>("level")));
						mc::check(p.getArgument<double>("reynolds") == (with(1) ? 0.125 : 1. / 3), "own:double-default",
								mc::cat(where, ": reynolds is ", p.getArgument<double>("reynolds")));
						mc::check(p.getArgument<string>("grid") == (with(2) ? "fine grid" : "coarse"), "own:string-default",
								mc::cat(where, ": grid is ", p.getArgument<string>("grid")));
						mc::check(p.hasArgument("level") && p.hasArgument("reynolds") && p.hasArgument("grid"), "own:has-default", where);
						mc::check(p.hasArgument("cells") == (bool) with(3), "own:has-int", where);
						mc::check(p.hasArgument("fast") == (bool) with(4), "own:has-flag", where);
						mc::check(p.hasArgument("ma") == (bool) with(5), "own:has-double", where);
						mc::check(p.hasArgument("first") == (positional >= 1) && p.hasArgument("second") == (positional >= 2), "own:has-positional", where);
						if (with(3))
							mc::check(p.getArgument<int>("cells") == -9, "own:int", where);
						if (with(5))
							mc::check(p.getArgument<double>("ma") == 1e-3, "own:double", where);
						if (positional >= 1)
							mc::check(p.getArgument<double>("first") == 3.75, "own:positional", where);
						if (positional >= 2)
							mc::check(p.getArgument<int>("second") == 17, "own:positional-int", where);
						for (auto* n : { "cells", "ma", "first", "second", "unknown" })
							if (!p.hasArgument(n)) {
								bool thrown = false;
								try {
									p.getArgument<double>(n);
								} catch (std::exception&) {
									thrown = true;
								}
								mc::check(thrown, "own:missing", mc::cat(where, ": ", n, " has a value although it was not given"));
							}
						bool wrong = false, late = false, twice = false;
						try {
							p.getArgument<int>("reynolds");
						} catch (std::exception&) {
							wrong = true;
						}
						try {
							p.setArgument<int>("late", "too late", 1);
						} catch (CommandLineParserException&) {
							late = true;
						}
						mc::check(wrong, "own:type", where + ": a double is readable as an int");
						mc::check(late, "own:late", where + ": arguments can be defined after importOptions");
						(void) twice;
						C c;
						Model m = defaults();
						p.applyToSolverConfiguration(c);
						for (auto* a : v)
							for (auto& e : a->e)
								m[find(e.first)] = e.second;
						compare(c, m, "own", where);
					} catch (std::exception& e) {
						mc::violation("own:throws", where + ": " + std::string(e.what()).substr(0, 150));
					}
					mc::transition();
					mc::trace();
				}
		mc::outcome("own arguments");
	});
	mc::run_case("help", [&] {
		for (auto& a : A)
			for (std::string h : { "--help", "-h" })
				for (int o = 0; o < 2; o++) {
					auto w = words( { &a });
					w.insert(o ? w.begin() : w.end(), h);
					Line l(w);
					bool stop = false;
					try {
						CommandLineParser p(l.argc(), l.argv());
						p.importOptions();
					} catch (HelpMessageStop&) {
						stop = true;
					} catch (std::exception& e) {
					}
					mc::check(stop, "help", l.str() + " does not show the help message");
					mc::transition();
				}
		mc::outcome("help");
	});
	mc::finish();
}
