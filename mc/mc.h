// Bounded-exhaustive exploration: cases, states, transitions, verdicts.
//
// A harness enumerates cases in a fixed order and calls mc::run_case(id, body)
// for each. Several processes share the work through a counter file; each case
// is run by exactly one of them. A violation names the case, so that
// `harness --only <id>` replays it alone.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
	std::string key, what, kase;
	long count;
};

struct Globals {
	bool thorough = false;
	std::string only, out, scratch;
	long index = 0, mine = 0;
	std::atomic<long>* counter = nullptr;
	char* cur = nullptr;
	long cases = 0, transitions = 0, traces = 0, evaluations = 0;
	std::unordered_set<uint64_t> states;
	std::map<std::string, long> outcomes;
	std::vector<std::string> samples;
	std::map<std::string, Violation> violations;
	std::map<std::string, long> notes; // named counters
	std::string kase;
	uint64_t kase_hash = 0;
	bool case_is_first = true;
	bool list = false;
	std::set<long> replay; // indices of the cases to run, when a history of cases is replayed
	bool has_replay = false;
	long part = 0, parts = 0; // static share of the cases (groups of MPI processes)
	int rank = 0, seq = -1;
};
inline Globals& G() {
	static Globals g;
	return g;
}
inline bool thorough() {
	return G().thorough;
}
/// q in the quick tier, t in the thorough tier
template<class T> T tier(T q, T t) {
	return G().thorough ? t : q;
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char* c = (const unsigned char*) p;
	for (size_t i = 0; i < n; i++) {
		h ^= c[i];
		h *= 1099511628211ull;
	}
	return h ^ (h >> 29);
}
inline uint64_t fnv(const std::string& s) {
	return fnv(s.data(), s.size());
}

/// cat(a, b, ...): all arguments as one string
template<class ... A> std::string cat(const A& ... a) {
	std::ostringstream o;
	o.precision(17);
	(o << ... << a);
	return o.str();
}

inline void init(int argc, char** argv) {
	Globals& g = G();
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() {return std::string(i + 1 < argc ? argv[++i] : "");};
		if (a == "--tier")
			g.thorough = (val() == "thorough");
		else if (a == "--only")
			g.only = val();
		else if (a == "--out")
			g.out = val();
		else if (a == "--scratch")
			g.scratch = val();
		else if (a == "--list")
			g.list = true;
		else if (a == "--part")
			std::sscanf(val().c_str(), "%ld/%ld", &g.part, &g.parts);
		else if (a == "--seq") {
			std::ifstream f(val());
			long k;
			while (f >> k)
				g.replay.insert(k);
			g.has_replay = true;
		}
		else if (a == "--ctr") {
			std::string f = val();
			int fd = open(f.c_str(), O_RDWR | O_CREAT, 0600);
			if (fd < 0 || ftruncate(fd, 4096) != 0) {
				perror("counter");
				_exit(3);
			}
			void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			g.counter = reinterpret_cast<std::atomic<long>*>(p);
			close(fd);
		}
	}
	const char* r = getenv("OMPI_COMM_WORLD_RANK");
	if (r && g.out != "") {
		g.rank = atoi(r);
		if (g.rank > 0)
			g.out += ".r" + std::string(r);
	}
	if (g.out != "")
		g.seq = open((g.out + ".seq").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (g.out != "") {
		int fd = open((g.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || ftruncate(fd, 4096) != 0)
			_exit(3);
		g.cur = (char*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
	}
	if (g.counter)
		g.mine = g.counter->fetch_add(1);
}

/// the property does not hold in the current case; key identifies what fails
inline void violation(const std::string& key, const std::string& what) {
	Globals& g = G();
	auto it = g.violations.find(key);
	if (it != g.violations.end()) {
		it->second.count++;
		return;
	}
	if (g.violations.size() < 4000)
		g.violations[key] = Violation { key, what, g.kase, 1 };
}
inline bool check(bool ok, const std::string& key, const std::string& what) {
	G().evaluations++;
	if (!ok)
		violation(key, what);
	return ok;
}
inline bool close_to(double a, double b, double tol) {
	return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol;
}
inline bool check_close(double a, double b, double tol, const std::string& key, const std::string& what) {
	G().evaluations++;
	if (close_to(a, b, tol))
		return true;
	violation(key, cat(what, ": ", a, " instead of ", b));
	return false;
}
inline void transition(long n = 1) {
	G().transitions += n;
}
inline void trace(long n = 1) {
	G().traces += n;
}
inline void state(const void* p, size_t n) {
	G().states.insert(fnv(p, n, 1469598103934665603ull ^ G().kase_hash));
}
inline void state(const std::vector<double>& v) {
	state(v.data(), v.size() * sizeof(double));
}
inline void state(const std::string& s) {
	state(s.data(), s.size());
}
inline void outcome(const std::string& s, long n = 1) {
	if (G().outcomes.size() < 5000 || G().outcomes.count(s))
		G().outcomes[s] += n;
}
inline void note(const std::string& s, long n = 1) {
	G().notes[s] += n;
}
inline void sample(const std::string& s) {
	if (G().samples.size() < 40)
		G().samples.push_back(s);
}

/// runs body if the case is this process's to run
inline void run_case(const std::string& id, const std::function<void()>& body) {
	Globals& g = G();
	long idx = g.index++;
	if (g.list) {
		std::cout << id << "\n";
		return;
	}
	if (g.only != "") {
		if (id != g.only)
			return;
	} else if (g.has_replay) {
		if (!g.replay.count(idx))
			return;
	} else if (g.parts) {
		if (idx % g.parts != g.part)
			return;
	} else if (g.counter) {
		if (idx != g.mine)
			return;
	}
	if (g.seq >= 0) {
		const std::string l = std::to_string(idx) + "\n";
		if (write(g.seq, l.data(), l.size())) {
		}
	}
	g.kase = id;
	g.kase_hash = fnv(id);
	if (g.cur) {
		std::strncpy(g.cur, id.c_str(), 4000);
		g.cur[4000] = 0;
	}
	g.cases++;
	try {
		body();
	} catch (std::exception& e) {
		violation("unexpected-exception:" + id, std::string("exception: ") + std::string(e.what()).substr(0, 600));
	} catch (...) {
		violation("unexpected-exception:" + id, "exception of unknown type");
	}
	if (g.samples.size() < 12)
		g.samples.push_back(id);
	if (g.cur)
		g.cur[0] = 0;
	if (g.only == "" && !g.has_replay && !g.parts && g.counter)
		g.mine = g.counter->fetch_add(1);
}

inline std::string esc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 32 || c > 126) {
			char b[8];
			snprintf(b, 8, "\\u%04x", c);
			o += b;
		} else
			o += c;
	}
	return o;
}

/// writes the result and leaves without running static destructors
inline void finish() {
	Globals& g = G();
	std::ostringstream o;
	o << "{\"total_cases\":" << g.index << ",\"cases\":" << g.cases << ",\"states\":" << g.states.size() << ",\"transitions\":" << g.transitions
			<< ",\"traces\":" << g.traces << ",\"evaluations\":" << g.evaluations << ",\n\"outcomes\":{";
	bool f = true;
	for (auto& x : g.outcomes) {
		o << (f ? "" : ",") << "\"" << esc(x.first) << "\":" << x.second;
		f = false;
	}
	o << "},\n\"notes\":{";
	f = true;
	for (auto& x : g.notes) {
		o << (f ? "" : ",") << "\"" << esc(x.first) << "\":" << x.second;
		f = false;
	}
	o << "},\n\"samples\":[";
	f = true;
	for (auto& x : g.samples) {
		o << (f ? "" : ",") << "\"" << esc(x) << "\"";
		f = false;
	}
	o << "],\n\"violations\":[";
	f = true;
	for (auto& x : g.violations) {
		o << (f ? "" : ",\n") << "{\"key\":\"" << esc(x.second.key) << "\",\"what\":\"" << esc(x.second.what) << "\",\"case\":\""
				<< esc(x.second.kase) << "\",\"count\":" << x.second.count << "}";
		f = false;
	}
	o << "]}\n";
	if (g.out != "") {
		std::ofstream of(g.out + ".tmp");
		of << o.str();
		of.close();
		rename((g.out + ".tmp").c_str(), g.out.c_str());
	} else if (!g.list)
		std::cout << o.str();
	std::cout.flush();
	std::cerr.flush();
	fflush(stdout);
	_exit(0);
}

/// all tuples (i_0..i_{n-1}) with 0 <= i_k < sizes[k], in lexicographic order
inline void product(const std::vector<size_t>& sizes, const std::function<void(const std::vector<size_t>&)>& f) {
	std::vector<size_t> x(sizes.size(), 0);
	for (size_t s : sizes)
		if (s == 0)
			return;
	while (true) {
		f(x);
		int k = (int) sizes.size() - 1;
		while (k >= 0 && ++x[k] == sizes[k])
			x[k--] = 0;
		if (k < 0)
			return;
	}
}
/// all sequences over an alphabet of size n with length 0..depth, shortest first
inline void sequences(size_t n, size_t depth, const std::function<void(const std::vector<size_t>&)>& f) {
	for (size_t d = 0; d <= depth; d++)
		product(std::vector<size_t>(d, n), f);
}

} // namespace mc
