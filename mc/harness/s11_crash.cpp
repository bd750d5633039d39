// S11: every crash point and torn write, and every failing file operation, while a checkpoint is written
//
// A child process (forked from a solver that is about to write a checkpoint) runs under ptrace. Its system
// calls that change files of the checkpoint directory are numbered; it is killed before each of them, inside
// each write after 0, 1, half and all but one byte, or one of the calls fails with "no space left on device".
// Afterwards another process restarts from what is on the disk.
#include "flow.h"
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <errno.h>
#include <signal.h>
using namespace fl;
namespace fs = boost::filesystem;

struct Op {
	std::string name, path;
	long bytes = -1; // of writes
};
struct Plan {
	long at = -1; // index of the operation
	long torn = -1; // bytes that are still written
	bool fail = false;
	bool all_later = false; // the disk stays full
};
struct Ran {
	std::vector<Op> ops;
	bool killed = false, success = false;
	bool bad = false;
};
static std::string text(pid_t pid, unsigned long addr) {
	std::string r;
	char c;
	iovec l { &c, 1 }, m { nullptr, 1 };
	while (r.size() < 4000) {
		m.iov_base = (void*) (addr + r.size());
		if (process_vm_readv(pid, &l, 1, &m, 1, 0) != 1 || !c)
			break;
		r += c;
	}
	return r;
}
static std::string of_fd(pid_t pid, long fd) {
	char b[4096];
	const ssize_t n = readlink(mc::cat("/proc/", pid, "/fd/", fd).c_str(), b, sizeof b);
	return n > 0 ? std::string(b, n) : "";
}
/// the operation the process is about to do, if it changes something in dir
static bool relevant(pid_t pid, const user_regs_struct& r, const std::string& dir, Op& o) {
	o = Op();
	auto at = [&](long fd, unsigned long a) {
		std::string p = text(pid, a);
		if (p.empty() || p[0] == '/')
			return p;
		char b[4096];
		std::string base;
		if ((int) fd == AT_FDCWD) {
			const ssize_t n = readlink(mc::cat("/proc/", pid, "/cwd").c_str(), b, sizeof b);
			base = std::string(b, n > 0 ? n : 0);
		} else
			base = of_fd(pid, fd);
		return base + "/" + p;
	};
	switch (r.orig_rax) {
	case SYS_open:
		if (!(r.rsi & (O_CREAT | O_TRUNC)))
			return false;
		o.name = "open";
		o.path = at(AT_FDCWD, r.rdi);
		break;
	case SYS_creat:
		o.name = "open";
		o.path = at(AT_FDCWD, r.rdi);
		break;
	case SYS_openat:
		if (!(r.rdx & (O_CREAT | O_TRUNC)))
			return false;
		o.name = "open";
		o.path = at(r.rdi, r.rsi);
		break;
	case SYS_write:
	case SYS_pwrite64:
		o.name = "write";
		o.bytes = r.rdx;
		o.path = of_fd(pid, r.rdi);
		break;
	case SYS_writev:
	case SYS_pwritev:
	case SYS_pwritev2:
		o.name = "writev";
		o.path = of_fd(pid, r.rdi);
		break;
	case SYS_ftruncate:
	case SYS_fallocate:
		o.name = "truncate";
		o.path = of_fd(pid, r.rdi);
		break;
	case SYS_truncate:
		o.name = "truncate";
		o.path = at(AT_FDCWD, r.rdi);
		break;
	case SYS_rename:
		o.name = "rename";
		o.path = at(AT_FDCWD, r.rsi);
		break;
	case SYS_renameat:
	case SYS_renameat2:
		o.name = "rename";
		o.path = at(r.rdx, r.r10);
		break;
	case SYS_link:
		o.name = "link";
		o.path = at(AT_FDCWD, r.rsi);
		break;
	case SYS_unlink:
	case SYS_rmdir:
		o.name = "unlink";
		o.path = at(AT_FDCWD, r.rdi);
		break;
	case SYS_unlinkat:
		o.name = "unlink";
		o.path = at(r.rdi, r.rsi);
		break;
	case SYS_mkdir:
		o.name = "mkdir";
		o.path = at(AT_FDCWD, r.rdi);
		break;
	default:
		return false;
	}
	return o.path.compare(0, dir.size(), dir) == 0;
}
static Ran drive(const std::function<void()>& body, const std::string& dir, const Plan& plan) {
	Ran res;
	const pid_t pid = fork();
	if (pid == 0) {
		setsid();
		if (ptrace(PTRACE_TRACEME, 0, 0, 0) != 0)
			_exit(97);
		raise(SIGSTOP);
		try {
			body();
		} catch (...) {
			_exit(3);
		}
		_exit(0);
	}
	int st;
	waitpid(pid, &st, 0);
	if (!WIFSTOPPED(st)) {
		res.bad = true;
		return res;
	}
	ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
	bool entry = true, kill_now = false, fail_now = false;
	int sig = 0;
	while (true) {
		if (ptrace(PTRACE_SYSCALL, pid, 0, sig) != 0)
			break;
		sig = 0;
		if (waitpid(pid, &st, 0) != pid)
			break;
		if (WIFEXITED(st) || WIFSIGNALED(st))
			break;
		if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
			sig = WSTOPSIG(st);
			continue;
		}
		user_regs_struct r;
		ptrace(PTRACE_GETREGS, pid, 0, &r);
		if (entry) {
			Op o;
			if (relevant(pid, r, dir, o)) {
				const long k = res.ops.size();
				res.ops.push_back(o);
				if (plan.at >= 0 && (k == plan.at || (plan.fail && plan.all_later && k > plan.at))) {
					if (plan.fail) {
						if (o.name != "unlink") {
							r.orig_rax = -1;
							ptrace(PTRACE_SETREGS, pid, 0, &r);
							fail_now = true;
						}
					} else if (plan.torn >= 0) {
						r.rdx = plan.torn;
						ptrace(PTRACE_SETREGS, pid, 0, &r);
						kill_now = true;
					} else {
						res.killed = true;
						kill(pid, SIGKILL);
						waitpid(pid, &st, 0);
						return res;
					}
				}
			}
		} else {
			if (kill_now) {
				res.killed = true;
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				return res;
			}
			if (fail_now) {
				fail_now = false;
				r.rax = -ENOSPC;
				ptrace(PTRACE_SETREGS, pid, 0, &r);
			}
		}
		entry = !entry;
	}
	res.success = WIFEXITED(st) && WEXITSTATUS(st) == 0;
	res.bad = WIFEXITED(st) && WEXITSTATUS(st) == 97;
	return res;
}
/// runs in another process what returns a text; "" if that process died
static std::string elsewhere(const std::function<std::string()>& body) {
	int p[2];
	if (pipe(p) != 0)
		return "?";
	const pid_t pid = fork();
	if (pid == 0) {
		setsid();
		close(p[0]);
		// what is left of a file may ask for any amount of memory
		const rlimit lim { 3ul << 30, 3ul << 30 };
		setrlimit(RLIMIT_AS, &lim);
		std::string s;
		try {
			s = body();
		} catch (std::exception& e) {
			s = std::string("refused: ") + e.what();
		}
		if (write(p[1], s.data(), s.size()) < 0)
			_exit(1);
		_exit(0);
	}
	close(p[1]);
	std::string s;
	char b[4096];
	ssize_t n;
	while ((n = read(p[0], b, sizeof b)) > 0)
		s.append(b, n);
	close(p[0]);
	int st;
	waitpid(pid, &st, 0);
	return s;
}
static void restore(const std::string& from, const std::string& to) {
	for (fs::directory_iterator i(to), e; i != e; ++i)
		fs::remove_all(i->path());
	for (fs::directory_iterator i(from), e; i != e; ++i)
		fs::copy_file(i->path(), fs::path(to) / i->path().filename());
}
static std::string content(const std::string& d) {
	std::map<std::string, std::string> m;
	for (fs::directory_iterator i(d), e; i != e; ++i) {
		std::ifstream f(i->path().string(), std::ios::binary);
		std::stringstream s;
		s << f.rdbuf();
		m[i->path().filename().string()] = s.str();
	}
	std::string r;
	for (auto& x : m)
		r += mc::cat(x.first, '\0', x.second.size(), '\0', x.second);
	return r;
}

struct Conf {
	std::string name;
	int dim;
	Spec spec;
	Setup setup;
};
template<size_t dim> static boost::shared_ptr<CFDSolver<dim> > solver(const Conf& c, const std::string& dir, size_t steps, size_t restart, bool other = false) {
	Spec sp = c.spec;
	if (other) {
		// another run
		auto rho = sp.rho;
		sp.rho = [rho](const V& x) {return rho(x) + 0.01;};
	}
	auto cfg = config(c.setup);
	cfg->setSwitchOutputOff(false);
	cfg->setOutputDirectory(dir);
	cfg->setNumberOfTimeSteps(steps);
	cfg->setOutputCheckpointInterval(1);
	cfg->setRestartAtIteration(restart);
	return boost::make_shared<CFDSolver<dim> >(cfg, boost::make_shared<Flow<dim> >(sp));
}
typedef std::map<std::string, Snapshot> Known; // name of the state -> state
template<size_t dim> static std::string read(const Conf& c, const std::string& dir, size_t at, const Known& known) {
	return elsewhere([&]() -> std::string {
		auto s = solver<dim>(c, dir, 10, at);
		const Snapshot a = snapshot<dim>(*s);
		for (auto& k : known)
			if (a.i == k.second.i && a.distance(k.second, true, false) <= 1e-13 && std::fabs(a.t - k.second.t) <= 1e-14)
				return k.first;
		return mc::cat("wrong state at iteration ", a.i);
	});
}
/// histories: what is in the directory and what is being written
template<size_t dim> static void history(const Conf& c, const std::string& h, bool faults) {
	const std::string where = c.name + "/" + h;
	Known known, own;
	{
		const std::string d = fresh("ref");
		auto s = solver<dim>(c, d, 4, 0);
		auto rec = boost::make_shared<Recorder<dim> >(*s);
		s->appendDataProcessor(rec);
		s->run();
		for (size_t i = 1; i <= 4; i++)
			known[mc::cat("own ", i)] = rec->seen[i];
		auto o = solver<dim>(c, fresh("ref"), 4, 0, true);
		auto orec = boost::make_shared<Recorder<dim> >(*o);
		o->appendDataProcessor(orec);
		o->run();
		for (size_t i = 1; i <= 4; i++)
			known[mc::cat("other ", i)] = orec->seen[i];
		fs::remove_all(d);
	}
	const std::string out = fresh("work"), dir = out + "/checkpoint", base = fresh("base");
	std::set<std::string> allowed; // latest after a crash
	std::string target, previous; // state that is being written; earlier one that must survive
	boost::shared_ptr<CFDSolver<dim> > s;
	size_t prev = 0;
	if (h == "first") {
		s = solver<dim>(c, out, 1, 0);
		target = "own 1";
		allowed = {"", target};
	} else if (h == "second") {
		solver<dim>(c, out, 2, 0)->run();
		s = solver<dim>(c, out, 3, 2);
		target = "own 3";
		previous = "own 2";
		allowed = {previous, target};
		prev = 2;
	} else if (h == "rewrite") {
		// resumed at 2 although there is a checkpoint 3
		solver<dim>(c, out, 3, 0)->run();
		s = solver<dim>(c, out, 3, 2);
		target = "own 3";
		previous = "own 2";
		allowed = {previous, target};
		prev = 2;
	} else if (h == "other") {
		// another flow had been calculated in the same directory
		solver<dim>(c, out, 3, 0, true)->run();
		for (const char* e : {".stat", ".data", ".data.info", ".data_fixed.data"})
			fs::remove(fs::path(dir) / (std::string("checkpoint_1") + e));
		solver<dim>(c, out, 2, 0)->run();
		s = solver<dim>(c, out, 3, 2);
		target = "own 3";
		previous = "own 2";
		allowed = {previous, target, "other 3"};
		prev = 2;
	} else {
		mc::violation("history", h);
		return;
	}
	if (!fs::is_directory(dir))
		fs::create_directories(dir);
	for (fs::directory_iterator i(dir), e; i != e; ++i)
		fs::copy_file(i->path(), fs::path(base) / i->path().filename());
	auto body = [&] {s->run();};
	std::map<std::string, std::string> seen; // content -> result
	// judges what is on the disk
	auto judge = [&](const std::string& how, bool must_be_target) {
		const std::string now = content(dir);
		mc::state(now);
		mc::trace();
		std::string r;
		if (seen.count(now))
			r = seen[now];
		else {
			r = read<dim>(c, out, 1, known);
			seen[now] = r;
			if (previous != "") {
				const std::string p = read<dim>(c, out, prev, known);
				mc::check(p == previous, "previous:" + h, mc::cat(where, ", ", how, ": restart at the earlier checkpoint ", prev, " gives '", p, "'"));
			}
			// and life goes on: the restarted run writes its checkpoint
			if (r == previous && r != "") {
				restore(dir, fresh("keep"));
				const std::string again = elsewhere([&]() -> std::string {solver<dim>(c, out, 3, prev)->run(); return "done";});
				const std::string q = read<dim>(c, out, 1, known);
				mc::check(again == "done" && q == target, "resume:" + h, mc::cat(where, ", ", how, ": the run that resumes afterwards leaves '", q, "'"));
				restore((fs::path(mc::G().scratch) / "keep").string(), dir);
				mc::transition();
			}
		}
		if (r.compare(0, 7, "refused") == 0)
			r = "";
		if (must_be_target)
			mc::check(r == target, "complete:" + h, mc::cat(where, ", ", how, ": latest checkpoint is '", r, "' instead of '", target, "'"));
		else
			mc::check(allowed.count(r), "latest:" + h, mc::cat(where, ", ", how, ": restart from the latest checkpoint gives '", r, "'"));
		mc::outcome(mc::cat(h, ": ", r == "" ? "none" : r));
	};
	// no fault
	restore(base, dir);
	const Ran full = drive(body, dir, Plan());
	if (!mc::check(full.success && !full.bad, "run:" + h, where + ": the run does not finish"))
		return;
	judge("no crash", true);
	mc::check(full.ops.size() > 3, "operations:" + h, mc::cat(where, ": only ", full.ops.size(), " file operations seen"));
	mc::note("file operations", full.ops.size());
	for (size_t k = 0; k < full.ops.size(); k++) {
		const Op& o = full.ops[k];
		const std::string what = mc::cat("operation ", k, " (", o.name, " ", fs::path(o.path).filename().string(), ")");
		if (!faults) {
			std::set<long> torn = {-1};
			if (o.bytes > 0)
				for (long b : {1L, o.bytes / 2, o.bytes - 1})
					if (b > 0)
						torn.insert(b);
			if (mc::thorough() && o.bytes > 0)
				for (long b = 8; b < o.bytes; b *= 2)
					torn.insert(b);
			for (long b : torn) {
				Plan p;
				p.at = k;
				p.torn = b;
				restore(base, dir);
				const Ran r = drive(body, dir, p);
				mc::check(r.killed, "replay:" + h, where + ": " + what + " does not come again");
				mc::transition();
				judge(mc::cat("killed in ", what, b >= 0 ? mc::cat(" after ", b, " bytes") : ""), false);
				// crash again at each point of the second attempt
				if (mc::thorough() && b == -1 && h == "second") {
					restore(dir, fresh("first_crash"));
					for (size_t j = 0; j < full.ops.size(); j++) {
						Plan p2;
						p2.at = j;
						restore((fs::path(mc::G().scratch) / "first_crash").string(), dir);
						drive(body, dir, p2);
						mc::transition();
						judge(mc::cat("killed in ", what, " and again in operation ", j), false);
					}
				}
			}
		} else if (fs::path(o.path).filename().string().find(".stat") != std::string::npos) {
			// the data files are written by deal.II, which does not report all failures
			for (int later = 0; later < 2; later++) {
				Plan p;
				p.at = k;
				p.fail = true;
				p.all_later = later;
				restore(base, dir);
				const Ran r = drive(body, dir, p);
				mc::transition();
				if (r.bad)
					mc::violation("replay:" + h, where);
				// a run that reports success has written its checkpoint
				judge(mc::cat("no space left in ", what, later ? " and later" : ""), r.success);
				mc::outcome(r.success ? "fault survived" : "fault reported");
			}
		}
	}
	fs::remove_all(out);
	fs::remove_all(base);
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	MPIGuard::getInstance();
	std::vector<Conf> confs;
	auto add = [&](const std::string& n, int dim, const Setup& s) {
		Conf c;
		c.name = n;
		c.dim = dim;
		c.setup = s;
		c.spec.level = dim == 2 ? 2 : 1;
		c.spec.visc = 0.02;
		general(c.spec);
		confs.push_back(c);
	};
	add("2d/sl", 2, [](SolverConfiguration& c) {c.setAdvectionScheme(SEMI_LAGRANGIAN); c.setSedgOrderOfFiniteElement(2); c.setCFL(1.3);});
	add("2d/dg", 2, [](SolverConfiguration& c) {c.setAdvectionScheme(SEDG); c.setSedgOrderOfFiniteElement(3); c.setCFL(0.4);});
	add("3d/sl", 3, [](SolverConfiguration& c) {c.setAdvectionScheme(SEMI_LAGRANGIAN); c.setStencil(Stencil_D3Q19); c.setSedgOrderOfFiniteElement(1); c.setCFL(1.3);});
	for (auto& c : confs)
		for (const char* h : {"first", "second", "rewrite", "other"})
			for (int faults = 0; faults < 2; faults++)
				mc::run_case(mc::cat(c.name, "/", h, faults ? "/faults" : "/crashes"), [&] {
					if (c.dim == 2)
						history<2>(c, h, faults);
					else
						history<3>(c, h, faults);
				});
	mc::finish();
}
