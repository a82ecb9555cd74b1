// C21: the whole tool under hostile input. The tool's main is linked in under another name and runs in a
// forked child for each case, so that crashes, hangs and exit codes are what a user would see.
#include "toolcase.h"
#include "minijson.h"
#include <csignal>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>

extern "C" int vfcToolMain(int argc, const char** argv);

using namespace mon;
using namespace tool;

namespace
{

Run run;
std::string scratch;

void writeAll(const std::string& name, const std::string& data)
{
	FILE* f = fopen(name.c_str(), "wb");
	if (!f || (data.size() && fwrite(data.data(), 1, data.size(), f) != data.size()) || fclose(f) != 0)
		fail("setup", "can't write " + name);
}

std::string readFd(int fd)
{
	std::string s;
	lseek(fd, 0, SEEK_SET);
	char buf[65536];
	ssize_t n;
	while ((n = read(fd, buf, sizeof(buf))) > 0)
		s.append(buf, static_cast<std::size_t>(n));
	return s;
}

const char* const words[] = {"\"\"", "null", "true", "false", "0", "-1", "1e400", "1.5", "2147483647", "2147483648", "4294967295",
	"-2147483648", "18446744073709551616", "1e-400", "-0", "[]", "{}", "[[]]", "[{}]", "\"base64:\"", "\"base64:====\"", "\"base64:A\"",
	"\"base64:AA=A\"", "\"base64:AAAA\"", "\"BASE64:AAAA\"", "\"base64:\\u0000\"", "\"/\"", "\".\"", "\"..\"", "\"/dev/null\"", "\"dir\"", "\"empty\"",
	"\"missing\"", "\"loop\"", "\"dangling\"", "\"sock\"", "\"data\"", "\"data/x\"", "\"UInt16\"", "\"UInt32\"", "\"PatchList\"", "\"TriangleStrip\"",
	"\"TriangleFan\"", "\"PointList\"", "\"LineStrip\"", "\"X8\"", "\"X64Y64Z64W64\"", "\"E5Z9Y9X9_UFloat\"", "\"Float\"", "\"SNorm\"", "\"Bounds\"",
	"\"UNormToSNorm\"", "\"\\ud800\"", "\"\\u0000\"", "\"\xff\xfe\"", "\"name\"", "\"layout\"", "\"position\"", "\"%s%n%x\"", "\"vertexFormat\"",
	"\"patchPoints\"", "\"indexType\"", "\"indexData\"", "NaN", "Infinity", "//", "/*", "\xef\xbb\xbf", ",", ":", "]", "}", "[", "{"};

std::vector<std::string> tokenize(const std::string& s)
{
	std::vector<std::string> t;
	for (std::size_t i = 0; i < s.size();)
	{
		std::size_t b = i;
		if (s[i] == '"')
		{
			for (++i; i < s.size() && s[i] != '"'; ++i)
			{
				if (s[i] == '\\')
					++i;
			}
			++i;
		}
		else if (isalnum(static_cast<unsigned char>(s[i])) || s[i] == '-')
		{
			while (i < s.size() && (isalnum(static_cast<unsigned char>(s[i])) || strchr("+-.", s[i])))
				++i;
		}
		else
			++i;
		t.push_back(s.substr(b, std::min(i, s.size()) - b));
	}
	return t;
}

std::string mutateTokens(Rng& r, const std::string& s, const std::string& other)
{
	std::vector<std::string> t = tokenize(s), o = tokenize(other);
	for (int n = r.range(1, r.chance(0.3) ? 6 : 2); n > 0 && !t.empty(); --n)
	{
		std::size_t k = r.below(t.size());
		auto at = t.begin() + static_cast<long>(k);
		switch (r.below(7))
		{
			case 0: t.erase(at); break;
			case 1: t.insert(at, words[r.below(sizeof(words)/sizeof(*words))]); break;
			case 2: case 3: *at = words[r.below(sizeof(words)/sizeof(*words))]; break;
			case 4: *at = t[r.below(t.size())]; break;
			case 5: // repeat a stretch
			{
				std::size_t e = std::min(t.size(), k + r.below(20));
				std::vector<std::string> part(at, t.begin() + static_cast<long>(e));
				t.insert(t.begin() + static_cast<long>(r.below(t.size() + 1)), part.begin(), part.end());
				break;
			}
			default:
			{
				std::size_t a = r.below(o.size()), e = std::min(o.size(), a + r.below(20));
				t.insert(at, o.begin() + static_cast<long>(a), o.begin() + static_cast<long>(e));
				break;
			}
		}
	}
	std::string x;
	for (auto& q : t)
		x += q;
	return x;
}

// Gives an element another name, mostly everywhere, so that it comes up in messages and in the result.
std::string rename(Rng& r, const std::string& s)
{
	std::vector<std::string> t = tokenize(s);
	std::vector<std::size_t> names;
	for (std::size_t i = 2; i < t.size(); ++i)
	{
		if (t[i - 2] == "\"name\"" && t[i - 1] == ":" && t[i][0] == '"')
			names.push_back(i);
	}
	if (names.empty())
		return s;
	std::string from = t[names[r.below(names.size())]], to;
	switch (r.below(8))
	{
		case 0: to = "%n%n%n%n%n%n%n%n"; break;
		case 1: to = "%s%s%s%s%s%s%s%s%s%s"; break;
		case 2: to = "%.999999999f%1$n%2$s%*d"; break;
		case 3: to = std::string(r.chance(0.5) ? 300 : 70000, '%'); break;
		case 4: to = std::string(r.chance(0.5) ? 300 : 1000000, 'n'); break;
		case 5: to = "\\u0001\\u007f\\b\\\\\\\"\\/\\uD83D\\uDE00"; break;
		case 6: to = "\xff\xc0\x80\xed\xa0\x80"; break;
		default: to = "{0}{}{1:999999}$(x)`x`../../x"; break;
	}
	to = "\"" + to + "\"";
	double keep = r.chance(0.5) ? 0 : 0.4;
	for (std::size_t i : names)
	{
		if (t[i] == from && !r.chance(keep))
			t[i] = to;
	}
	std::string x;
	for (auto& q : t)
		x += q;
	return x;
}

std::string mutateBytes(Rng& r, std::string s)
{
	for (int n = r.range(1, r.chance(0.3) ? 20 : 3); n > 0; --n)
	{
		std::size_t k = r.below(s.size() + 1);
		switch (r.below(6))
		{
			case 0: if (k < s.size()) s.erase(k, r.below(r.chance(0.1) ? s.size() : 8) + 1); break;
			case 1: s.insert(k, 1, static_cast<char>(r.next())); break;
			case 2: if (k < s.size()) s[k] = static_cast<char>(r.next()); break;
			case 3: if (k < s.size()) s[k] = static_cast<char>(s[k] ^ (1 << r.below(8))); break;
			case 4: s.resize(k); break;
			default: s.insert(k, s.substr(r.below(s.size() + 1), r.below(60))); break;
		}
	}
	return s;
}

// Nasty values at index granularity.
void hostileIndices(Rng& r, std::string& d, int size)
{
	std::size_t n = d.size()/static_cast<std::size_t>(size);
	for (int k = r.range(1, 4); k > 0 && n > 0; --k)
	{
		static const std::uint32_t v[] = {0xFFFFFFFFu, 0xFFFFFFFEu, 0xFFFFu, 0xFFFEu, 0x7FFFFFFFu, 0x80000000u, 0x10000u, 0};
		std::uint32_t x = r.chance(0.5) ? v[r.below(8)] : static_cast<std::uint32_t>(r.below(100));
		memcpy(&d[r.below(n)*static_cast<std::size_t>(size)], &x, static_cast<std::size_t>(size));
	}
}

struct Outcome
{
	int status = 0;
	bool timeout = false;
	long peak = 0; // KB
	std::string out, err;
};

Outcome runTool(const std::vector<std::string>& args, const std::string* input)
{
	Outcome o;
	int outFd = memfd_create("out", 0), errFd = memfd_create("err", 0), inFd = -1;
	if (input)
	{
		inFd = memfd_create("in", 0);
		if (write(inFd, input->data(), input->size()) != static_cast<ssize_t>(input->size()))
			fail("setup", "can't write the input");
		lseek(inFd, 0, SEEK_SET);
	}
	else
		inFd = open("/dev/null", O_RDONLY);
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0)
		fail("setup", "can't fork");
	if (pid == 0)
	{
		dup2(inFd, 0);
		dup2(outFd, 1);
		dup2(errFd, 2);
		close(inFd);
		close(outFd);
		close(errFd);
		if (chdir(scratch.c_str()) != 0)
			_exit(99);
		struct rlimit c{60, 60};
		setrlimit(RLIMIT_CPU, &c);
		std::vector<const char*> a;
		a.push_back("vfc");
		for (auto& s : args)
			a.push_back(s.c_str());
		a.push_back(nullptr);
		int rc = vfcToolMain(static_cast<int>(a.size()) - 1, a.data());
		exit(rc);
	}
	close(inFd);
	for (int waited = 0;; ++waited)
	{
		struct rusage usage;
		pid_t w = wait4(pid, &o.status, WNOHANG, &usage);
		if (w == pid)
		{
			o.peak = usage.ru_maxrss;
			break;
		}
		usleep(waited < 100 ? 200 : 10000);
		if (waited > 6000) // about a minute
		{
			kill(pid, SIGKILL);
			waitpid(pid, &o.status, 0);
			o.timeout = true;
			break;
		}
	}
	o.out = readFd(outFd);
	o.err = readFd(errFd);
	close(outFd);
	close(errFd);
	return o;
}

std::string clip(const std::string& s, std::size_t n) { return jsonStr(s.substr(0, n)); }

void checkCase(std::uint64_t i)
{
	Rng r = caseRng(run.seed, 21, i);
	Case c = generateForTool(r, i, 0), c2;
	std::vector<std::string> v, x, vd, xd;
	std::string what;
	for (std::size_t k = 0; k < c.ins.size(); ++k)
	{
		auto& in = c.ins[k];
		vd.emplace_back(reinterpret_cast<const char*>(in.data.data()), in.data.size());
		xd.emplace_back(static_cast<const char*>(in.indexBlock.data()), in.indexBlock.size);
	}
	std::uint64_t mode = i % 8;
	std::size_t victim = r.below(c.ins.size());
	bool corruptText = false;
	// Which path is odd for file system objects: the data, the configuration or the output.
	std::uint64_t oddPath = r.below(5);
	switch (mode)
	{
		case 0: what = "bytes of the configuration"; corruptText = true; break;
		case 1: case 2: what = "tokens of the configuration"; corruptText = true; break;
		case 3:
			what = "vertex data";
			if (r.chance(0.5))
				vd[victim] = mutateBytes(r, vd[victim]);
			else
			{
				for (auto& b : vd[victim])
					b = static_cast<char>(r.chance(0.3) ? (r.chance(0.5) ? 0xFF : 0x7F) : r.next());
			}
			break;
		case 4:
			what = "index data";
			for (std::size_t k = 0; k < c.ins.size(); ++k)
			{
				if (c.ins[k].indexType == IndexType::NoIndices)
					continue;
				if (r.chance(0.2))
					xd[k] = mutateBytes(r, xd[k]);
				else
					hostileIndices(r, xd[k], c.ins[k].indexType == IndexType::UInt16 ? 2 : 4);
			}
			break;
		case 5: what = "base64 text"; break;
		case 6: what = "file system objects"; break;
		default: what = "structure and arguments"; break;
	}
	std::vector<std::string> made;
	for (std::size_t k = 0; k < c.ins.size(); ++k)
	{
		auto ref = [&](const std::string& d, const std::string& name) -> std::string
		{
			if (mode == 5 || (mode != 6 && r.chance(0.6)))
			{
				std::string t = base64(d.data(), d.size());
				if (mode == 5 && r.chance(0.8))
				{
					std::string q;
					for (char ch : mutateBytes(r, t))
					{
						// Keep it representable in the configuration.
						if (static_cast<unsigned char>(ch) < 0x80 && ch != 0)
							q += ch;
					}
					t = q;
				}
				return (r.chance(0.1) ? "BASE64:" : "base64:") + t;
			}
			if (mode == 6 && (oddPath < 2 || oddPath == 4) && r.chance(0.5))
			{
				static const char* odd[] = {"dir", "dir/", ".", "..", "/", "", "empty", "missing", "dir/missing/x", "loop", "dangling", "sock",
					"data", "data/", "data/x", "/dev/null", "noperm", "/proc/self/cmdline", "/proc/self/mem", "link", "//", "./././data"};
				std::size_t o = r.below(sizeof(odd)/sizeof(*odd) + 2);
				if (o >= sizeof(odd)/sizeof(*odd))
					return std::string(r.chance(0.5) ? 300 : 5000, 'p');
				return odd[o];
			}
			writeAll(scratch + "/" + name, d);
			made.push_back(scratch + "/" + name);
			return name;
		};
		v.push_back(ref(vd[k], fmt("v%zu.dat", k)));
		x.push_back(ref(xd[k], fmt("i%zu.dat", k)));
	}
	std::string text = configText(c, v, x);
	if (corruptText)
	{
		Case other = generateForTool(r, i, 0);
		std::vector<std::string> dummy(other.ins.size(), "base64:AAAA");
		std::string second = configText(other, dummy, dummy);
		text = mode == 0 ? mutateBytes(r, text) : mutateTokens(r, text, second);
	}
	bool fromStdin = r.chance(0.4);
	bool files = r.chance(0.4);
	std::string configName = "config.json", outDir = "out";
	std::vector<std::string> args;
	if (mode == 6 && (oddPath == 2 || (oddPath == 4 && r.chance(0.3))))
	{
		static const char* odd[] = {"dir", "missing", "empty", "/dev/null", "loop", "dangling", "sock", ".", "/", "dir/missing/x", "data", ""};
		configName = odd[r.below(12)];
		fromStdin = false;
	}
	if (mode == 6 && oddPath >= 3)
	{
		files = true;
		static const char* odd[] = {"data", "data/x", "data/x/y", "/dev/null", "/dev/null/x", "loop", "loop/x", "dangling", "dangling/x",
			"dangling/x/y", "sock", "sock/x", "empty", "empty/x/y", "dir", "dir/", ".", "..", "dir/../out", "out//deep/", "/proc/missing/x",
			"/proc/self/missing", "", "dir/./x", "dir/new/../other"};
		std::size_t count = sizeof(odd)/sizeof(*odd), o = r.below(count + 5);
		if (o < count)
			outDir = odd[o];
		else
		{
			static const char* prefix[] = {"", "dir/", "out/new/", "./", "dir//"};
			outDir = prefix[o - count];
			if (r.chance(0.3))
			{
				// Each part is fine, but not all of them together.
				for (int k = r.chance(0.7) ? 2500 : 65000; k > 0; --k)
					outDir += "a/";
			}
			else
				outDir += std::string(r.chance(0.5) ? 300 : 5000, 'o');
			if (r.chance(0.3))
				outDir += "/x";
		}
	}
	if (r.chance(0.3))
	{
		text = rename(r, text);
		run.count("configurations with hostile names");
	}
	if (mode == 7)
	{
		switch (r.below(12))
		{
			case 0: text = std::string(r.chance(0.5) ? 200000 : 1000, '['); break;
			case 1:
			{
				int n = 50000;
				text.clear();
				for (int k = 0; k < n; ++k)
					text += "{\"vertexFormat\":";
				break;
			}
			case 2: text.insert(1, "\"junk\":" + std::string(100000, '[') + std::string(100000, ']') + ","); break;
			case 3:
			{
				static const char* p[] = {"2147483647", "65536", "65535", "1000000000", "4294967295", "1"};
				text = "{\"patchPoints\":" + std::string(p[r.below(6)]) + ",\"primitiveType\":\"PatchList\"" +
					(r.chance(0.5) ? ",\"indexType\":\"UInt32\"" : "") +
					",\"vertexFormat\":[[{\"name\":\"a\",\"layout\":\"X8\",\"type\":\"UInt\"}]],\"vertexStreams\":[{\"vertexFormat\":[{\"name\":\"a\",\"layout\":\"X8\",\"type\":\"UInt\"}],\"vertexData\":\"base64:AAAA\"}]}";
				break;
			}
			case 4: text = ""; break;
			case 5: text = std::string(r.below(2000), static_cast<char>(r.next())); break;
			case 6: args = {"--output"}; break;
			case 7: args = {r.chance(0.5) ? "-i" : "--input"}; break;
			case 8: args = {r.chance(0.5) ? "--bogus" : "-"}; break;
			case 9: args = {r.chance(0.5) ? "-h" : "--help"}; break;
			case 10:
			{
				// Many elements.
				std::string f;
				int n = r.range(50, 600);
				for (int k = 0; k < n; ++k)
					f += fmt("%s{\"name\":\"e%d\",\"layout\":\"X64Y64Z64W64\",\"type\":\"Float\"}", k ? "," : "", k);
				text = "{\"primitiveType\":\"PointList\",\"indexType\":\"UInt16\",\"vertexFormat\":[[" + f + "]],\"vertexStreams\":[{\"vertexFormat\":[" + f +
					"],\"vertexData\":\"base64:" + base64(std::string(static_cast<std::size_t>(n)*32*3, static_cast<char>(r.next())).data(), static_cast<std::size_t>(n)*32*3) + "\"}]}";
				break;
			}
			default: text += text; break;
		}
	}
	bool help = false;
	if (args.empty())
	{
		if (!fromStdin)
		{
			writeAll(scratch + "/config.json", text);
			args = {"-i", configName};
		}
		if (files)
		{
			args.push_back("-o");
			args.push_back(outDir);
		}
		if (mode == 7 && r.chance(0.1))
			args.push_back("extra");
	}
	else
		help = args[0] == "-h" || args[0] == "--help";
	auto desc = std::make_shared<std::string>(what + ":");
	for (auto& a : args)
		*desc += " " + a;
	*desc += fromStdin ? " (config on stdin) " : " ";
	*desc += clip(text, 6000);
	for (std::size_t k = 0; k < c.ins.size(); ++k)
		*desc += fmt(" v%zu=", k) + hex(vd[k].data(), std::min<std::size_t>(vd[k].size(), 200)) + fmt(" i%zu=", k) + hex(xd[k].data(), std::min<std::size_t>(xd[k].size(), 200));
	run.describe = [desc] { return *desc; };
	Outcome o = runTool(args, fromStdin ? &text : nullptr);
	for (auto& m : made)
		unlink(m.c_str());
	auto report = [&](const std::string& m)
	{
		std::string e = o.err;
		std::size_t p = e.find("SUMMARY");
		return m + "\nstderr: " + clip(e, 1500) + (p != std::string::npos ? " ... " + clip(e.substr(p), 300) : "") + "\nstdout: " + clip(o.out, 200);
	};
	run.count(fmt("peak memory of the tool: %s", o.peak < 500000 ? "below 500 MB" : o.peak < 1500000 ? "500 MB to 1.5 GB" : "above 1.5 GB"));
	if (o.peak >= 1500000)
		fail("memory", report(fmt("the tool takes %ld MB of memory", o.peak/1000)));
	if (o.timeout)
		fail("hang", report("the tool doesn't end"));
	if (WIFSIGNALED(o.status))
		fail("crash", report(fmt("the tool is killed by signal %d", WTERMSIG(o.status))));
	int rc = WEXITSTATUS(o.status);
	if (rc == 99)
		fail("setup", "can't enter the scratch directory");
	for (const char* s : {"AddressSanitizer", "runtime error:", "terminate called", "Assertion"})
	{
		// The sanitizers' own exit code may be 1 too.
		if (rc != 0 && o.err.find(s) != std::string::npos)
			fail("crash", report(std::string("the tool dies: ") + s));
	}
	if (rc != 0 && rc != 1)
		fail("exit-code", report(fmt("exit code %d", rc)));
	if (rc == 1)
	{
		if (o.err.empty())
			fail("no-diagnostic", report("exit code 1 without a diagnostic"));
		if (!o.out.empty())
			fail("output-on-failure", report("exit code 1 with output"));
		run.count("refused: " + what);
	}
	else if (help)
	{
		if (o.out.empty())
			fail("no-help", report("no help"));
		run.count("help");
	}
	else
	{
		// Invalid UTF-8 in names passes through, so only look at the structure then.
		std::string ascii;
		for (char ch : o.out)
			ascii += static_cast<unsigned char>(ch) < 0x80 ? ch : '?';
		mj::Value val;
		std::string e = mj::parse(ascii, val);
		if (!e.empty() || val.kind != mj::Value::Object || !val.find("vertices") || !val.find("vertexCount"))
			fail("incomplete-output", report("exit code 0 without a complete result: " + e));
		run.count("accepted: " + what);
	}
	Fnv h;
	h.str(*desc);
	run.nontrivial(h.h);
}

void removeTree()
{
	if (scratch.size() < 8)
		return;
	std::string cmd = "rm -rf '" + scratch + "'";
	if (system(cmd.c_str()) != 0)
		fprintf(stderr, "can't remove %s\n", scratch.c_str());
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	signal(SIGPIPE, SIG_IGN);
	char dir[] = "/tmp/vfcfuzzXXXXXX";
	if (!mkdtemp(dir))
		return 70;
	scratch = dir;
	std::string s = scratch + "/";
	mkdir((s + "dir").c_str(), 0755);
	writeAll(s + "empty", "");
	writeAll(s + "data", std::string(48, '\x01'));
	writeAll(s + "noperm", "abc");
	chmod((s + "noperm").c_str(), 0);
	if (symlink("loop", (s + "loop").c_str()) || symlink("nowhere/x", (s + "dangling").c_str()) || symlink("data", (s + "link").c_str()))
		return 70;
	int fd = socket(AF_UNIX, SOCK_STREAM, 0);
	struct sockaddr_un a{};
	a.sun_family = AF_UNIX;
	snprintf(a.sun_path, sizeof(a.sun_path), "%s", (s + "sock").c_str());
	if (fd >= 0 && bind(fd, reinterpret_cast<struct sockaddr*>(&a), sizeof(a)) != 0)
		fprintf(stderr, "no socket\n");
	int rc = run.loop(checkCase);
	if (fd >= 0)
		close(fd);
	removeTree();
	return rc;
}
