// Monitor of the process around the library: C30. Child processes use the library before and after main() and in other
// locales; everything they see has to be what it is in the middle of main() in the "C" locale.
#include "mesh.h"
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <locale>
#include <locale.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#if defined(__SSE__)
#include <xmmintrin.h>
#endif

using namespace mesh;
using namespace vfc;
using mon::fail;
using mon::fmt;

namespace
{

constexpr int meshes = 6;

// One thing observed.
struct Item
{
	char what[56];
	std::uint64_t value;
};

using Items = std::vector<Item>;

void add(Items& v, const std::string& what, std::uint64_t value)
{
	Item i = {};
	strncpy(i.what, what.c_str(), sizeof(i.what) - 1);
	i.value = value;
	v.push_back(i);
}

std::uint64_t digest(const Conversion& k)
{
	mon::Fnv h;
	h.val(k.res.ok);
	h.val(k.res.vertexCount);
	for (auto& v : k.res.verts)
	{
		h.val(v.size());
		h.bytes(v.data(), v.size());
	}
	for (auto& b : k.res.bufs)
	{
		h.val(b.type);
		h.val(b.base);
		h.val(b.idx.size());
		h.bytes(b.idx.data(), b.idx.size()*4);
	}
	return h.h;
}

std::uint64_t boundsDigest(const Conversion& k)
{
	mon::Fnv h;
	for (auto& s : k.res.bounds)
	{
		for (auto& e : s)
		{
			for (unsigned m = 0; m < 4; ++m)
			{
				h.val(e.first[m]);
				h.val(e.second[m]);
			}
		}
	}
	return h.h;
}

std::string cased(std::string s, int how, Rng& r)
{
	for (char& c : s)
	{
		bool up = how == 1 || (how == 2 && r.chance(0.5));
		bool down = how == 0 || (how == 2 && !up);
		if (up && c >= 'a' && c <= 'z')
			c = static_cast<char>(c - 32);
		else if (down && c >= 'A' && c <= 'Z')
			c = static_cast<char>(c + 32);
	}
	return s;
}

void names(Items& v, std::uint64_t seed)
{
	Rng r(seed ^ 0x5eed);
	std::vector<std::string> all;
	for (int i = 0; i < 20; ++i)
	{
		for (int color = 0; color < 2; ++color)
		{
			const char* n = elementLayoutName(static_cast<ElementLayout>(i), color != 0);
			all.push_back(n ? n : "(null)");
		}
		add(v, fmt("size of layout %d", i), elementLayoutSize(static_cast<ElementLayout>(i)));
	}
	for (int i = 0; i < 5; ++i)
	{
		const char* n = elementTypeName(static_cast<ElementType>(i));
		all.push_back(n ? n : "(null)");
	}
	for (int i = 0; i < 7; ++i)
	{
		const char* n = primitiveTypeName(static_cast<PrimitiveType>(i));
		all.push_back(n ? n : "(null)");
	}
	auto look = [&](const std::string& n)
	{
		std::string shown = "look up of ";
		for (unsigned char c : n)
			shown += c < 32 || c > 126 ? fmt("\\x%02X", c) : std::string(1, static_cast<char>(c));
		add(v, shown, (static_cast<std::uint64_t>(static_cast<std::uint32_t>(elementLayoutFromName(n.c_str()))) << 40) ^
			(static_cast<std::uint64_t>(static_cast<std::uint32_t>(elementTypeFromName(n.c_str()))) << 20) ^
			static_cast<std::uint32_t>(primitiveTypeFromName(n.c_str())));
	};
	for (auto& n : all)
	{
		look(n);
		for (int how = 0; how < 3; ++how)
			look(cased(n, how, r));
		// Letters some locale takes for others, and letters beyond ASCII that only differ in case.
		std::string m = n;
		for (char& c : m)
		{
			if (c == 'i' || c == 'I')
				c = static_cast<char>(r.chance(0.5) ? 0xFD : 0xDD);
		}
		if (m != n)
			look(m);
		m = n;
		m[r.below(m.size())] = static_cast<char>(128 + r.below(128));
		look(m);
	}
}

void values(Items& v, std::uint64_t seed)
{
	Rng r(seed ^ 0xabc);
	for (unsigned m = 0; m < 4; ++m)
	{
		std::uint64_t b;
		double d = VertexValue::initialBoundsMin[m];
		memcpy(&b, &d, 8);
		add(v, fmt("initial lower bound %u", m), b);
		d = VertexValue::initialBoundsMax[m];
		memcpy(&b, &d, 8);
		add(v, fmt("initial upper bound %u", m), b);
	}
	for (auto& f : ref::formats())
	{
		mon::Fnv h;
		unsigned char out[32] = {}, in[32];
		for (int q = 0; q < 4; ++q)
		{
			VertexValue x(q*0.3 - 0.45, r.chance(0.5) ? 1.0 : -0.0, 1/3.0, 65000.7*q);
			bool ok = x.toData(out, f.layout, f.type);
			h.val(ok);
			h.bytes(out, sizeof(out));
			for (unsigned char& c : in)
				c = static_cast<unsigned char>(r.next());
			VertexValue y;
			ok = y.fromData(in, f.layout, f.type);
			h.val(ok);
			for (unsigned m = 0; m < 4; ++m)
			{
				double d = y[m];
				std::uint64_t b;
				memcpy(&b, &d, 8);
				// Which NaN it is isn't compared.
				h.val(d == d ? b : 0x7ff8000000000000ULL);
			}
		}
		add(v, "values of " + ref::name(f), h.h);
	}
}

void conversions(Items& v, std::uint64_t seed)
{
	Profile p;
	p.maxCount = 40;
	p.wideChance = 0.02;
	for (std::uint64_t q = 0; q < meshes; ++q)
	{
		Rng r = mon::caseRng(seed, 30, q);
		Case c = generate(r, p, q);
		Conversion k = convert(c);
		add(v, fmt("mesh %d accepted", static_cast<int>(q)), k.res.added*2u + k.res.ok);
		add(v, fmt("mesh %d converted", static_cast<int>(q)), digest(k));
		add(v, fmt("mesh %d bounds", static_cast<int>(q)), boundsDigest(k));
	}
	// Errors name the element.
	std::string message;
	VertexFormat f;
	add(v, "add element", static_cast<std::uint64_t>(f.appendElement("caf\xe9", ElementLayout::X32Y32, ElementType::Float)));
	add(v, "add element twice", static_cast<std::uint64_t>(f.appendElement("caf\xe9", ElementLayout::X32, ElementType::Float)));
	add(v, "add element in other case", static_cast<std::uint64_t>(f.appendElement("caf\xc9", ElementLayout::X32, ElementType::Float)));
	Converter cv(f, IndexType::UInt16, PrimitiveType::PointList, 0, [&](const char* m) { message += m; });
	add(v, "conversion without streams", cv.convert());
	mon::Fnv h;
	h.bytes(message.data(), message.size());
	add(v, "error message", h.h);
}

// What the library may not change.
std::uint64_t surroundings()
{
	mon::Fnv h;
	h.val(fegetround());
#if defined(__SSE__)
	h.val(_mm_getcsr() & ~0x3Fu); // all but the sticky flags
#endif
	const char* l = setlocale(LC_ALL, nullptr);
	h.bytes(l, strlen(l));
	return h.h;
}

Items observe(std::uint64_t seed)
{
	Items v;
	std::uint64_t before = surroundings();
	names(v, seed);
	values(v, seed);
	conversions(v, seed);
	add(v, "rounding mode or locale changed", surroundings() != before);
	return v;
}

void send(int fd, const char* phase, const Items& v)
{
	std::string s;
	Item head = {};
	strncpy(head.what, phase, sizeof(head.what) - 1);
	head.value = v.size();
	s.append(reinterpret_cast<const char*>(&head), sizeof(head));
	s.append(reinterpret_cast<const char*>(v.data()), v.size()*sizeof(Item));
	std::size_t at = 0;
	while (at < s.size())
	{
		ssize_t n = write(fd, s.data() + at, s.size() - at);
		if (n <= 0)
			_exit(99);
		at += static_cast<std::size_t>(n);
	}
}

// Is initialised before, and destroyed after, whatever else has static lifetime here and in the library.
struct Early
{
	bool child = false;
	int fd = -1;
	std::uint64_t seed = 0;

	Early()
	{
		const char* e = getenv("VFC_ENV_CASE");
		if (!e)
			return;
		child = true;
		ref::formats(); // constructed before, destroyed after this
		char* end = nullptr;
		fd = static_cast<int>(strtol(e, &end, 10));
		seed = strtoull(end + 1, &end, 10);
		if (*end == '+') // not all processes, so that first use in main() is seen too
			send(fd, "before main()", observe(seed));
	}
	~Early()
	{
		if (!child)
			return;
		send(fd, "after main()", observe(seed));
		close(fd);
	}
};

__attribute__((init_priority(101))) Early early;

std::vector<std::string>* localeNames = nullptr;

void inLocales()
{
	const char* path = getenv("LOCPATH");
	std::vector<std::string> found;
	if (path)
	{
		if (DIR* d = opendir(path))
		{
			while (dirent* e = readdir(d))
			{
				if (e->d_name[0] != '.')
					found.push_back(e->d_name);
			}
			closedir(d);
		}
	}
	found.push_back("C.UTF-8");
	std::sort(found.begin(), found.end());
	for (auto& l : found)
	{
		switch (early.seed%3)
		{
			case 0: // of the C library
				if (!setlocale(LC_ALL, l.c_str()))
					continue;
				send(early.fd, ("locale " + l).c_str(), observe(early.seed));
				setlocale(LC_ALL, "C");
				break;
			case 1: // of the thread
			{
				locale_t n = newlocale(LC_ALL_MASK, l.c_str(), static_cast<locale_t>(nullptr));
				if (!n)
					continue;
				locale_t was = uselocale(n);
				send(early.fd, ("thread locale " + l).c_str(), observe(early.seed));
				uselocale(was);
				freelocale(n);
				break;
			}
			default: // of C++ (and C)
				try
				{
					std::locale was = std::locale::global(std::locale(l.c_str()));
					send(early.fd, ("C++ locale " + l).c_str(), observe(early.seed));
					std::locale::global(was);
				}
				catch (const std::runtime_error&)
				{
				}
				break;
		}
	}
}

int childMain()
{
	switch (early.seed%2)
	{
		case 0:
			send(early.fd, "main()", observe(early.seed));
			inLocales();
			break;
		default:
			inLocales(); // first use in another locale
			send(early.fd, "main()", observe(early.seed));
			break;
	}
	std::thread([] { send(early.fd, "thread", observe(early.seed)); }).join();
	return 0;
}

mon::Run* run = nullptr;

void body(std::uint64_t i)
{
	std::uint64_t seed = mon::caseRng(run->seed, 3000, i).next() >> 8;
	seed = seed/6*6 + i%6;
	bool first = (i/6)%2 == 0;
	run->describe = [seed, first] { return fmt("seed %" PRIu64 "%s", seed, first ? ", used before main()" : ""); };
	Items expected = observe(seed);
	int p[2];
	if (pipe(p) != 0)
		fail("setup", "no pipe");
	std::string value = fmt("%d:%" PRIu64 "%s", p[1], seed, first ? "+" : "");
	pid_t pid = fork();
	if (pid < 0)
		fail("setup", "no process");
	if (pid == 0)
	{
		close(p[0]);
		setenv("VFC_ENV_CASE", value.c_str(), 1);
		char self[] = "/proc/self/exe";
		char* argv[] = {self, nullptr};
		execv(self, argv);
		_exit(98);
	}
	close(p[1]);
	std::string s;
	char buf[65536];
	ssize_t n;
	while ((n = read(p[0], buf, sizeof(buf))) > 0)
		s.append(buf, static_cast<std::size_t>(n));
	close(p[0]);
	int status = 0;
	waitpid(pid, &status, 0);
	std::size_t at = 0;
	std::string phase = "nothing";
	int phases = 0;
	while (at + sizeof(Item) <= s.size())
	{
		Item head;
		memcpy(&head, s.data() + at, sizeof(head));
		at += sizeof(head);
		if (at + head.value*sizeof(Item) > s.size())
			break;
		phase = head.what;
		Items got(head.value);
		memcpy(got.data(), s.data() + at, head.value*sizeof(Item));
		at += head.value*sizeof(Item);
		if (got.size() != expected.size())
			fail("other-result", fmt("%zu results %s, %zu expected", got.size(), phase.c_str(), expected.size()));
		for (std::size_t k = 0; k < got.size(); ++k)
		{
			if (strcmp(got[k].what, expected[k].what) != 0 || got[k].value != expected[k].value)
			{
				fail("other-result", fmt("%s: %s gives %" PRIx64 " rather than %" PRIx64 " (%s)", phase.c_str(), got[k].what, got[k].value,
					expected[k].value, expected[k].what));
			}
			run->count("results compared");
		}
		run->count("phases: " + phase);
		++phases;
	}
	if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
		fail("crash", fmt("the process ended with status %x after: %s", static_cast<unsigned>(status), phase.c_str()));
	if (at != s.size() || phases < (first ? 5 : 4) || phase != "after main()")
		fail("setup", "incomplete observations, the last one " + phase);
	run->nontrivial(seed);
}

} // namespace

int main(int argc, char** argv)
{
	if (early.child)
		return childMain();
	mon::Run r;
	run = &r;
	if (!r.args(argc, argv))
		return 64;
	return r.loop(body);
}
