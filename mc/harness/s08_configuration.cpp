// S08: every option is an independent variable: all ordered pairs of assignments, invalid values
// in between, written to files and read back
#include "config_table.h"

static void write(C& c, const std::string& f, bool xml) {
	std::ofstream o(f);
	c.print_parameters(o, xml ? dealii::ParameterHandler::XML : dealii::ParameterHandler::Text);
}
static void read(C& c, const std::string& f, bool xml) {
	if (xml)
		c.readFromXMLFile(f);
	else
		c.readFromTextFile(f);
}
static void text_file(const std::string& f, const std::vector<std::pair<std::vector<std::string>, std::string> >& entries) {
	std::ofstream o(f);
	for (auto& e : entries) {
		for (size_t k = 0; k + 1 < e.first.size(); k++)
			o << "subsection " << e.first[k] << "\n";
		o << "set " << e.first.back() << " = " << e.second << "\n";
		for (size_t k = 0; k + 1 < e.first.size(); k++)
			o << "end\n";
	}
}
static void set(C& c, Model& m, size_t k, size_t v, const std::string& where) {
	try {
		O[k].good[v].second(c);
		m[k] = O[k].good[v].first;
	} catch (std::exception& e) {
		mc::violation("refuses-legal:" + O[k].name, mc::cat(where, ": setting ", O[k].name, " to ", O[k].good[v].first, " is refused: ", std::string(e.what()).substr(0, 200)));
	}
	mc::transition();
}

int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	options();
	mc::run_case("defaults", [&] {
		C c;
		compare(c, defaults(), "default", "fresh configuration");
		mc::note("options", (long) O.size());
	});
	// one option to every value, then every other option to every value, then a file in between
	for (size_t a = 0; a < O.size(); a++)
		for (size_t i = 0; i < O[a].good.size(); i++)
			mc::run_case(mc::cat("pairs/", O[a].name, "=", O[a].good[i].first), [&, a, i] {
				for (size_t b = 0; b < O.size(); b++)
					for (size_t j = 0; j < O[b].good.size(); j++) {
						if (!mc::thorough() && j && j + 1 < O[b].good.size())
							continue;
						C c;
						Model m = defaults();
						const std::string where = mc::cat(O[a].name, ":=", O[a].good[i].first, "; ", O[b].name, ":=", O[b].good[j].first);
						set(c, m, a, i, where);
						set(c, m, b, j, where);
						if (!compare(c, m, "pair", where))
							return;
						mc::trace();
						if (mc::thorough()) {
							// and every third assignment on top of the same object
							for (size_t d = 0; d < O.size(); d++)
								set(c, m, d, (i + j) % O[d].good.size(), where + "; all");
							set(c, m, a, i, where);
							compare(c, m, "pair", where + "; all; first again");
						}
					}
				mc::outcome(O[a].name);
			});
	// every legal value after every refused one; refused values leave everything as it was
	for (size_t a = 0; a < O.size(); a++)
		mc::run_case("refused/" + O[a].name, [&, a] {
			for (size_t i = 0; i < O[a].bad.size(); i++)
				for (size_t before = 0; before <= O[a].good.size(); before++) {
					C c;
					Model m = defaults();
					std::string where = O[a].name;
					for (size_t d = 0; d < O.size(); d++)
						if (d != a && before)
							set(c, m, d, before % O[d].good.size(), where);
					if (before)
						set(c, m, a, before - 1, where);
					bool refused = false;
					try {
						O[a].bad[i].second(c);
					} catch (std::exception& e) {
						refused = true;
					}
					mc::transition();
					where += mc::cat(before ? " at " + m[a] : std::string(), ", then to the illegal value ", O[a].bad[i].first);
					mc::check(refused, "accepts-illegal:" + O[a].name, where + " is accepted");
					if (!refused)
						continue;
					if (!compare(c, m, "refused:" + O[a].name, where))
						continue;
					// the object still works
					for (size_t d = 0; d < O.size(); d++)
						set(c, m, d, 0, where);
					compare(c, m, "refused:" + O[a].name, where + ", then other values");
					mc::outcome("refused " + O[a].name);
				}
		});
	// files: each value alone and among non-default values of all others, through both formats
	for (size_t a = 0; a < O.size(); a++)
		mc::run_case("files/" + O[a].name, [&, a] {
			for (size_t i = 0; i < O[a].good.size(); i++)
				for (int xml = 0; xml < 2; xml++)
					for (int others = 0; others < 2; others++)
						for (int start = 0; start < 2; start++) {
							C c;
							Model m = defaults();
							const std::string where = mc::cat(O[a].name, "=", O[a].good[i].first, xml ? " via xml" : " via text", others ? " with other options set" : "",
									start ? " into a configuration with other values" : "");
							if (others)
								for (size_t d = 0; d < O.size(); d++)
									set(c, m, d, i % O[d].good.size(), where);
							set(c, m, a, i, where);
							const std::string f = mc::G().scratch + "/config." + (xml ? "xml" : "prm");
							write(c, f, xml);
							C r;
							Model dummy = defaults();
							if (start)
								for (size_t d = 0; d < O.size(); d++)
									set(r, dummy, d, (i + 1) % O[d].good.size(), where);
							try {
								read(r, f, xml);
							} catch (std::exception& e) {
								mc::violation(mc::cat("file:", xml ? "xml" : "text", ":refused:", O[a].name), where + ": the file is refused: " + std::string(e.what()).substr(0, 300));
								continue;
							}
							mc::transition(2);
							mc::trace();
							compare(r, m, mc::cat("file:", xml ? "xml" : "text"), where);
							if (xml) {
								try {
									C r2(f);
									compare(r2, m, "file:constructor", where + " (constructor)");
								} catch (std::exception& e) {
									mc::violation("file:constructor", where + ": constructor from a parameter file fails: " + std::string(e.what()).substr(0, 300));
								}
							}
							// writing does not change the written object
							compare(c, m, "file:writing", where + " (writer afterwards)");
						}
			// the names in a file
			for (size_t i = 0; i < O[a].text.size(); i++) {
				if (O[a].text[i] == "" && O[a].name != "wall normal coordinates")
					continue;
				const std::string f = mc::G().scratch + "/names.prm";
				text_file(f, { { O[a].path, O[a].text[i] } });
				C c;
				Model m = defaults();
				m[a] = O[a].good[i].first;
				read(c, f, false);
				compare(c, m, "file:name:" + O[a].name, O[a].name + " = " + O[a].text[i] + " in a file");
				mc::transition();
			}
			for (auto& t : O[a].bad_text) {
				const std::string f = mc::G().scratch + "/names.prm";
				text_file(f, { { O[a].path, t } });
				C c;
				bool refused = false;
				try {
					read(c, f, false);
				} catch (std::exception& e) {
					refused = true;
				}
				mc::check(refused, "file:accepts-illegal:" + O[a].name, O[a].name + " = " + t + " in a file is accepted");
				mc::transition();
			}
			mc::outcome("file " + O[a].name);
		});
	mc::finish();
}
