// Shared machinery of the monitors: PRNG, case loop, reporting.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

// With sanitizers the character functions check what they're called with: anything but the values of unsigned char and
// EOF is undefined behaviour. Built with __NO_CTYPE, so that they aren't inlined.
#if defined(__SANITIZE_ADDRESS__) && defined(__NO_CTYPE)
#include <cctype>
#define MON_CTYPE(name, value) \
	extern "C" int name(int c) \
	{ \
		if (c < -1 || c > 255) \
		{ \
			std::fprintf(stderr, "runtime error: " #name "(%d) is undefined\n", c); \
			_exit(77); \
		} \
		return value; \
	}
MON_CTYPE(tolower, c >= 'A' && c <= 'Z' ? c + 32 : c)
MON_CTYPE(toupper, c >= 'a' && c <= 'z' ? c - 32 : c)
MON_CTYPE(isalpha, (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
MON_CTYPE(isupper, c >= 'A' && c <= 'Z')
MON_CTYPE(islower, c >= 'a' && c <= 'z')
MON_CTYPE(isdigit, c >= '0' && c <= '9')
MON_CTYPE(isalnum, (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))
MON_CTYPE(isspace, c == ' ' || (c >= 9 && c <= 13))
#endif

namespace mon
{

struct Rng
{
	std::uint64_t s;
	explicit Rng(std::uint64_t seed = 1) : s(seed) {}
	std::uint64_t next()
	{
		std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27))*0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + static_cast<int>(below(static_cast<std::uint64_t>(b - a + 1))); }
	bool chance(double p) { return unit() < p; }
	double unit() { return static_cast<double>(next() >> 11)*(1.0/9007199254740992.0); }
	template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	template <typename T> void shuffle(std::vector<T>& v)
	{
		for (std::size_t i = v.size(); i > 1; --i)
			std::swap(v[i - 1], v[below(i)]);
	}
};

inline Rng caseRng(std::uint64_t seed, std::uint64_t salt, std::uint64_t index)
{
	Rng r(seed*0x9e3779b97f4a7c15ULL ^ (salt << 40) ^ index*0xd1342543de82ef95ULL);
	r.next();
	r.next();
	return r;
}

struct Fnv
{
	std::uint64_t h = 1469598103934665603ULL;
	void bytes(const void* p, std::size_t n)
	{
		auto b = static_cast<const unsigned char*>(p);
		for (std::size_t i = 0; i < n; ++i)
			h = (h ^ b[i])*1099511628211ULL;
	}
	template <typename T> void val(T v) { bytes(&v, sizeof(v)); }
	void str(const std::string& s) { val(s.size()); bytes(s.data(), s.size()); }
};

inline std::string fmt(const char* f, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof(buf), f, ap);
	va_end(ap);
	return buf;
}

inline std::string jsonStr(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
		else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
		else o += static_cast<char>(c);
	}
	return o + "\"";
}

// Thrown by oracles.
struct Violation
{
	std::string key, message;
};

[[noreturn]] inline void fail(const std::string& key, const std::string& message)
{
	throw Violation{key, message};
}

struct Run
{
	std::string check, tier = "quick";
	std::uint64_t seed = 1, begin = 0, end = 0;
	std::string stateFile, outFile, extra;
	char* state = nullptr;

	std::uint64_t evaluations = 0;
	std::map<std::string, std::uint64_t> counters;
	std::unordered_set<std::uint64_t> sigs;
	std::vector<std::string> samples;
	std::map<std::string, std::string> known;
	std::vector<std::pair<std::uint64_t, Violation>> violations;
	std::uint64_t cur = 0;
	bool curNontrivial = false;
	std::uint64_t curSig = 0;
	std::function<std::string()> describe;
	bool memoryOnly = getenv("MON_MEMORY_ONLY") != nullptr; // the instrumentation alone judges

	bool thorough() const { return tier == "thorough"; }
	void count(const std::string& k, std::uint64_t n = 1) { counters[k] += n; }
	void nontrivial(std::uint64_t sig) { curNontrivial = true; curSig = sig; }
	void knownFinding(const std::string& key, const std::string& what)
	{
		counters["known:" + key]++;
		if (!known.count(key)) known[key] = what;
	}

	bool args(int argc, char** argv)
	{
		for (int i = 1; i + 1 < argc; i += 2)
		{
			std::string k = argv[i], v = argv[i + 1];
			if (k == "--check") check = v;
			else if (k == "--tier") tier = v;
			else if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
			else if (k == "--begin") begin = strtoull(v.c_str(), nullptr, 10);
			else if (k == "--end") end = strtoull(v.c_str(), nullptr, 10);
			else if (k == "--state") stateFile = v;
			else if (k == "--out") outFile = v;
			else if (k == "--extra") extra = v;
			else { fprintf(stderr, "unknown arg %s\n", k.c_str()); return false; }
		}
		if (!stateFile.empty())
		{
			int fd = open(stateFile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
			if (fd < 0 || ftruncate(fd, 8192) != 0)
				return false;
			state = static_cast<char*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
			close(fd);
			if (state == MAP_FAILED)
				return false;
		}
		return !check.empty();
	}

	void note(const std::string& s)
	{
		if (state)
		{
			strncpy(state + 16, s.c_str(), 8000);
			state[16 + 8000] = 0;
		}
	}

	// Runs all cases; a case throws Violation.
	int loop(const std::function<void(std::uint64_t)>& body)
	{
		for (cur = begin; cur < end; ++cur)
		{
			if (state)
			{
				std::uint64_t c = cur + 1;
				memcpy(state, &c, 8);
				state[16] = 0;
			}
			curNontrivial = false;
			describe = nullptr;
			try
			{
				body(cur);
			}
			catch (const Violation& v)
			{
				if (memoryOnly && v.key != "setup" && v.key != "leak" && v.key != "exception")
				{
					count("behavioural oracle ignored: " + v.key);
					++evaluations;
					continue;
				}
				Violation w = v;
				if (describe)
				{
					std::string d = describe();
					w.message += "\ncase: " + d;
				}
				violations.emplace_back(cur, w);
				if (violations.size() >= 3)
					break;
			}
			++evaluations;
			if (curNontrivial)
			{
				bool fresh = sigs.insert(curSig).second;
				if (fresh && samples.size() < 2 && describe)
					samples.push_back(describe().substr(0, 1500));
			}
		}
		return finish();
	}

	int finish()
	{
		if (outFile.empty())
		{
			for (auto& v : violations)
				printf("violation case=%" PRIu64 " key=%s: %s\n", v.first, v.second.key.c_str(), v.second.message.c_str());
			for (auto& c : counters)
				printf("  %s = %" PRIu64 "\n", c.first.c_str(), c.second);
			for (auto& s : samples)
				printf("sample: %s\n", s.c_str());
			printf("evaluations %" PRIu64 " distinct %zu\n", evaluations, sigs.size());
			return violations.empty() ? 0 : 1;
		}
		FILE* f = fopen(outFile.c_str(), "w");
		if (!f)
			return 70;
		fprintf(f, "{\"evaluations\":%" PRIu64 ",\"counters\":{", evaluations);
		const char* sep = "";
		for (auto& c : counters)
		{
			fprintf(f, "%s%s:%" PRIu64, sep, jsonStr(c.first).c_str(), c.second);
			sep = ",";
		}
		fprintf(f, "},\"known\":{");
		sep = "";
		for (auto& c : known)
		{
			fprintf(f, "%s%s:%s", sep, jsonStr(c.first).c_str(), jsonStr(c.second).c_str());
			sep = ",";
		}
		fprintf(f, "},\"samples\":[");
		sep = "";
		for (auto& s : samples)
		{
			fprintf(f, "%s%s", sep, jsonStr(s).c_str());
			sep = ",";
		}
		fprintf(f, "],\"violations\":[");
		sep = "";
		for (auto& v : violations)
		{
			fprintf(f, "%s{\"case\":%" PRIu64 ",\"key\":%s,\"message\":%s}", sep, v.first,
				jsonStr(v.second.key).c_str(), jsonStr(v.second.message).c_str());
			sep = ",";
		}
		fprintf(f, "],\"sigs\":[");
		sep = "";
		for (auto s : sigs)
		{
			fprintf(f, "%s%" PRIu64, sep, s);
			sep = ",";
		}
		fprintf(f, "]}\n");
		if (fclose(f) != 0)
			return 70;
		return violations.empty() ? 0 : 1;
	}
};

} // namespace mon
