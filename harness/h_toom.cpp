// C23, memory: the tool's own main in a child process, with its allocations failing one after the other. It may end
// in any way but success, unless it was complete all the same.
#include "toolcase.h"
#include <csignal>
#include <dirent.h>
#include <new>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

extern "C" int vfcToolMain(int argc, const char** argv);

using namespace mon;
using namespace tool;

static bool armed = false, sticky = false;
static std::uint64_t countdown = 0;

struct Shared
{
	std::uint64_t allocations, failures;
};
static Shared* shared = nullptr;

static bool fails()
{
	if (!armed)
		return false;
	++shared->allocations;
	if (countdown > 0)
	{
		--countdown;
		return false;
	}
	++shared->failures;
	if (!sticky)
		armed = false;
	return true;
}

void* operator new(std::size_t n)
{
	void* p = fails() ? nullptr : std::malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return fails() ? nullptr : std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

namespace
{

Run run;
std::string scratch;

void writeAll(const std::string& name, const std::string& data)
{
	FILE* f = fopen(name.c_str(), "wb");
	if (!f || (data.size() && fwrite(data.data(), 1, data.size(), f) != data.size()) || fclose(f) != 0)
		fail("setup", "can't write " + name);
}

std::string readFd(int fd)
{
	std::string s;
	lseek(fd, 0, SEEK_SET);
	char buf[65536];
	ssize_t n;
	while ((n = read(fd, buf, sizeof(buf))) > 0)
		s.append(buf, static_cast<std::size_t>(n));
	return s;
}

// The contents of the output directory, which is emptied.
std::map<std::string, std::string> takeFiles(const std::string& dir)
{
	std::map<std::string, std::string> m;
	DIR* d = opendir(dir.c_str());
	if (!d)
		return m;
	while (dirent* e = readdir(d))
	{
		std::string n = e->d_name;
		if (n == "." || n == "..")
			continue;
		std::string p = dir + "/" + n;
		int fd = open(p.c_str(), O_RDONLY);
		if (fd >= 0)
		{
			m[n] = readFd(fd);
			close(fd);
		}
		unlink(p.c_str());
	}
	closedir(d);
	rmdir(dir.c_str());
	return m;
}

struct Outcome
{
	int status = 0;
	bool hung = false;
	std::string out, err;
	std::map<std::string, std::string> files;
	std::uint64_t allocations = 0, failures = 0;
};

Outcome runTool(const std::vector<std::string>& args, const std::string* input, std::int64_t failAt, bool stick)
{
	Outcome o;
	int outFd = memfd_create("out", 0), errFd = memfd_create("err", 0), inFd = -1;
	if (input)
	{
		inFd = memfd_create("in", 0);
		if (write(inFd, input->data(), input->size()) != static_cast<ssize_t>(input->size()))
			fail("setup", "can't write the input");
		lseek(inFd, 0, SEEK_SET);
	}
	else
		inFd = open("/dev/null", O_RDONLY);
	shared->allocations = shared->failures = 0;
	fflush(stdout);
	fflush(stderr);
	std::vector<const char*> a;
	a.push_back("vfc");
	for (auto& s : args)
		a.push_back(s.c_str());
	a.push_back(nullptr);
	pid_t pid = fork();
	if (pid < 0)
		fail("setup", "can't fork");
	if (pid == 0)
	{
		dup2(inFd, 0);
		dup2(outFd, 1);
		dup2(errFd, 2);
		if (chdir(scratch.c_str()) != 0)
			_exit(99);
		struct rlimit c{20, 20}, core{0, 0};
		setrlimit(RLIMIT_CPU, &c);
		setrlimit(RLIMIT_CORE, &core);
		countdown = failAt < 0 ? ~std::uint64_t(0) : static_cast<std::uint64_t>(failAt);
		sticky = stick;
		armed = true;
		int rc = vfcToolMain(static_cast<int>(a.size()) - 1, a.data());
		armed = false;
		fflush(stdout);
		_exit(rc & 0xFF);
	}
	for (int waited = 0;; ++waited)
	{
		if (waitpid(pid, &o.status, WNOHANG) == pid)
			break;
		usleep(waited < 100 ? 100 : 10000);
		if (waited > 4000)
		{
			kill(pid, SIGKILL);
			waitpid(pid, &o.status, 0);
			o.hung = true;
			break;
		}
	}
	o.out = readFd(outFd);
	o.err = readFd(errFd);
	close(inFd);
	close(outFd);
	close(errFd);
	o.files = takeFiles(scratch + "/out");
	o.allocations = shared->allocations;
	o.failures = shared->failures;
	return o;
}

void checkCase(std::uint64_t i)
{
	Rng r = caseRng(run.seed, 2323, i);
	Case c = generateForTool(r, i, 0);
	std::vector<std::string> v, x;
	std::vector<std::string> made;
	bool files = r.chance(0.5);
	for (std::size_t k = 0; k < c.ins.size(); ++k)
	{
		auto& in = c.ins[k];
		auto ref = [&](const void* d, std::size_t n, const std::string& name)
		{
			if (!files)
				return "base64:" + base64(d, n);
			writeAll(scratch + "/" + name, std::string(static_cast<const char*>(d), n));
			made.push_back(scratch + "/" + name);
			return name;
		};
		v.push_back(ref(in.data.data(), in.data.size(), fmt("v%zu", k)));
		x.push_back(in.indexType == IndexType::NoIndices ? "" : ref(in.indexBlock.data(), in.indexBlock.size, fmt("i%zu", k)));
	}
	std::string text = configText(c, v, x);
	bool fromStdin = r.chance(0.4);
	std::vector<std::string> args;
	if (!fromStdin)
	{
		writeAll(scratch + "/config.json", text);
		args = {"-i", "config.json"};
	}
	if (r.chance(0.5))
	{
		args.push_back("-o");
		args.push_back("out");
	}
	auto desc = std::make_shared<std::string>("vfc");
	for (auto& a : args)
		*desc += " " + a;
	*desc += " " + text.substr(0, 3000);
	run.describe = [desc] { return *desc; };
	Outcome base = runTool(args, fromStdin ? &text : nullptr, -1, false);
	bool good = WIFEXITED(base.status) && WEXITSTATUS(base.status) == 0 && !base.hung;
	if (!good)
		run.count("runs that fail undisturbed");
	std::uint64_t n = base.allocations;
	std::vector<std::uint64_t> points;
	for (std::uint64_t k = 0; k < std::min<std::uint64_t>(n, 16); ++k)
		points.push_back(r.chance(0.5) ? k : r.below(n));
	for (int k = 0; n && k < 24; ++k)
		points.push_back(r.below(n));
	for (std::uint64_t k = 1; k <= 8 && k <= n; ++k)
		points.push_back(n - k);
	for (std::uint64_t p : points)
	{
		bool stick = r.chance(0.4);
		Outcome o = runTool(args, fromStdin ? &text : nullptr, static_cast<std::int64_t>(p), stick);
		if (!o.failures)
			run.count("runs that end before the fault");
		else
			run.count("allocations made to fail");
		std::string what = fmt("allocation %" PRIu64 " of %" PRIu64 " failing%s", p, n, stick ? " and all after it" : "");
		if (o.hung)
			fail("hang", what + ": the tool doesn't end");
		if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 99)
			fail("setup", "can't enter the scratch directory");
		if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0)
		{
			run.count("runs that succeed all the same");
			if (!good)
				fail("success-without-memory", what + ": exit code 0, but 1 with all the memory");
			if (o.out != base.out)
			{
				fail("success-without-memory", what + fmt(": exit code 0 with other output (%zu bytes rather than %zu): ", o.out.size(), base.out.size()) +
					o.out.substr(0, 600));
			}
			if (o.files != base.files)
				fail("success-without-memory", what + ": exit code 0 with other files");
		}
		else
		{
			run.count(WIFEXITED(o.status) ? "runs that report failure" : fmt("runs ended by signal %d", WTERMSIG(o.status)));
			if (o.err.empty() && WIFEXITED(o.status))
				fail("no-diagnostic", what + fmt(": exit code %d without a diagnostic", WEXITSTATUS(o.status)));
		}
	}
	for (auto& m : made)
		unlink(m.c_str());
	unlink((scratch + "/config.json").c_str());
	Fnv h;
	h.str(*desc);
	run.nontrivial(h.h);
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	signal(SIGPIPE, SIG_IGN);
	char dir[] = "/tmp/vfctoomXXXXXX";
	if (!mkdtemp(dir))
		return 70;
	scratch = dir;
	shared = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	if (shared == MAP_FAILED)
		return 70;
	int rc = run.loop(checkCase);
	rmdir(scratch.c_str());
	return rc;
}
