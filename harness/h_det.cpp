// Monitor of determinism and purity: C17. Writes a digest for each case to the file given with --extra, so that
// digests can be compared between processes and builds.
#include "mesh.h"
#include <new>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define RUNNING_ON_VALGRIND 0
#define VALGRIND_CHECK_MEM_IS_DEFINED(p, n) 0
#endif

using namespace mesh;
using mon::fail;

static mon::Run run;

#ifdef MON_FILL
// Every allocation starts out with a pattern, so that results that depend on it differ.
static unsigned char fillByte = 0xA5;
static bool fillVarying = false;
void* operator new(std::size_t n)
{
	void* p = std::malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	memset(p, fillByte, n);
	if (fillVarying)
		fillByte = static_cast<unsigned char>(fillByte*13 + 41);
	return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
static void setFill(unsigned char b, bool varying)
{
	fillByte = b;
	fillVarying = varying;
}
#else
static void setFill(unsigned char, bool) {}
#endif

namespace
{

struct Region // read-only copy of data at the end or the beginning of a page
{
	void* base = nullptr;
	std::size_t len = 0;
	const unsigned char* put(const void* d, std::size_t n, bool atEnd, std::size_t align)
	{
		std::size_t page = static_cast<std::size_t>(sysconf(_SC_PAGESIZE));
		len = (n + page)/page*page;
		base = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (base == MAP_FAILED)
			abort();
		std::size_t off = atEnd ? (len - n)/align*align : 0;
		if (n)
			memcpy(static_cast<char*>(base) + off, d, n);
		mprotect(base, len, PROT_READ);
		return static_cast<unsigned char*>(base) + off;
	}
	~Region() { if (base) munmap(base, len); }
};

std::uint64_t digest(const Case& c, const Conversion& k)
{
	mon::Fnv h;
	h.val(k.res.ok);
	h.val(k.res.vertexCount);
	h.val(k.res.verts.size());
	for (auto& v : k.res.verts)
	{
		h.val(v.size());
		h.bytes(v.data(), v.size());
	}
	h.val(k.res.bufs.size());
	for (auto& b : k.res.bufs)
	{
		h.val(b.type);
		h.val(b.base);
		h.val(b.idx.size());
		h.bytes(b.idx.data(), b.idx.size()*4);
	}
	for (auto& s : k.res.bounds)
	{
		for (auto& e : s)
		{
			for (unsigned m = 0; m < 4; ++m)
			{
				h.val(e.first[m]);
				h.val(e.second[m]);
			}
		}
	}
	(void)c;
	return h.h;
}

void checkDefined(const Case& c, const Conversion& k)
{
	if (!RUNNING_ON_VALGRIND)
		return;
	for (auto& v : k.conv->getVertices())
	{
		if (!v.empty() && VALGRIND_CHECK_MEM_IS_DEFINED(v.data(), v.size()))
			fail("undefined-output", "output vertices hold uninitialised bytes");
		run.count("output vertex bytes checked for definedness", v.size());
	}
	for (auto& d : k.conv->getIndices())
	{
		std::size_t n = d.count*static_cast<std::size_t>(d.type == IndexType::UInt16 ? 2 : 4);
		if (n && VALGRIND_CHECK_MEM_IS_DEFINED(d.data, n))
			fail("undefined-output", "output indices hold uninitialised bytes");
		run.count("output index bytes checked for definedness", n);
	}
	for (auto& s : k.res.bounds)
	{
		for (auto& e : s)
		{
			double d[8];
			for (unsigned m = 0; m < 4; ++m)
			{
				d[m] = e.first[m];
				d[m + 4] = e.second[m];
			}
			if (VALGRIND_CHECK_MEM_IS_DEFINED(d, sizeof(d)))
				fail("undefined-output", "bounds hold uninitialised bytes");
		}
	}
	(void)c;
}

FILE* digests = nullptr;

void body(std::uint64_t i)
{
	Profile p;
	p.maxCount = RUNNING_ON_VALGRIND ? 30 : 50;
	p.wideChance = RUNNING_ON_VALGRIND ? 0 : 0.05;
	auto make = [&]
	{
		Rng r = mon::caseRng(run.seed, 17, i);
		return generate(r, p, i);
	};
	Rng r = mon::caseRng(run.seed, 1717, i);
	setFill(0xA5, false);
	auto owner = std::make_shared<Case>(make());
	Case& c = *owner;
	run.describe = [owner] { return describe(*owner); };
	std::uint64_t first;
	{
		Conversion k = convert(c);
		if (!k.res.added || !k.res.ok)
			fail("valid-input-refused", "valid input refused");
		checkDefined(c, k);
		first = digest(c, k);
		run.count("output vertices", k.res.vertexCount);
	}
	if (digests)
	{
		std::uint64_t rec[2] = {i, first};
		fwrite(rec, sizeof(rec), 1, digests);
	}
	run.nontrivial(signature(c));
	if (RUNNING_ON_VALGRIND)
		return;
	// The same memory holding other data in between: nothing may be remembered by address.
	{
		setFill(0xA5, true);
		Case d = make();
		auto memory = [](InStream& s) { return const_cast<unsigned char*>(static_cast<const unsigned char*>(s.dataBlock.data())); };
		auto fill = [&](const Case& from)
		{
			for (std::size_t s = 0; s < d.ins.size(); ++s)
			{
				d.ins[s].data = from.ins[s].data;
				if (!d.ins[s].data.empty())
					memcpy(memory(d.ins[s]), d.ins[s].data.data(), d.ins[s].data.size());
			}
		};
		Case other = make();
		bool moved = false;
		for (auto& s : other.ins)
		{
			// Other values for the same vertices: each takes the place of another one.
			if (s.vertexCount < 2)
				continue;
			std::size_t by = (1 + r.below(s.vertexCount - 1))*s.stride;
			std::vector<unsigned char> was = s.data;
			std::rotate(s.data.begin(), s.data.begin() + static_cast<long>(by), s.data.end());
			moved = moved || was != s.data;
			s.dataBlock.set(s.data.data(), s.data.size(), r.below(4));
		}
		if (moved)
		{
			Conversion o = convert(other);
			std::uint64_t otherDigest = digest(other, o);
			Conversion k1 = convert(d);
			if (digest(d, k1) != first)
				fail("different-result", "the result differs after the same vertices with other values elsewhere");
			fill(other);
			Conversion k2 = convert(d);
			if (digest(d, k2) != otherDigest)
				fail("different-result", "the result differs from that of the same data elsewhere after its memory held other values");
			fill(c);
			Conversion k3 = convert(d);
			if (digest(d, k3) != first)
				fail("different-result", "the result differs after its memory held other values in between");
			run.count("conversions of memory that held other values", 2);
		}
	}
	for (int round = 0; round < 4; ++round)
	{
		Case d = make();
		std::vector<std::unique_ptr<Region>> regions;
		std::vector<std::unique_ptr<void, void (*)(void*)>> garbage;
		std::string what;
		std::vector<std::vector<unsigned char>> before;
		switch (round)
		{
			case 0:
				what = "with other memory contents";
				setFill(0x5A, false);
				break;
			case 1:
			{
				what = "with read-only input elsewhere";
				setFill(0xFF, true);
				for (auto& s : d.ins)
				{
					regions.emplace_back(new Region);
					s.dataBlock.external = regions.back()->put(s.dataBlock.data(), s.data.size(), r.chance(0.5), 1);
					if (s.indexType != IndexType::NoIndices)
					{
						regions.emplace_back(new Region);
						s.indexBlock.external = regions.back()->put(s.indexBlock.data(), s.indexBlock.size, r.chance(0.5), 4);
					}
				}
				run.count("conversions of read-only input");
				break;
			}
			case 2:
			{
				what = "with other bytes where no output comes from";
				setFill(0x00, false);
				for (auto& s : d.ins)
				{
					std::set<std::uint32_t> referenced;
					for (std::uint32_t q = 0; q < d.count; ++q)
					{
						std::uint32_t x = s.indexType == IndexType::NoIndices ? q : s.indices[q];
						if (x != restartItem)
							referenced.insert(x);
					}
					std::set<std::size_t> usedElems;
					auto si = static_cast<int>(&s - &d.ins[0]);
					for (auto& o : d.outs)
					{
						for (auto& e : o)
						{
							if (e.stream == si)
								usedElems.insert(static_cast<std::size_t>(e.element));
						}
					}
					for (std::uint32_t v = 0; v < s.vertexCount; ++v)
					{
						for (std::size_t e = 0; e < s.elems.size(); ++e)
						{
							if (usedElems.count(e) && referenced.count(v))
								continue;
							unsigned char* q = s.data.data() + static_cast<std::size_t>(v)*s.stride + s.elems[e].offset;
							for (int b = 0; b < ref::info(s.elems[e].format.layout).size; ++b)
								q[b] = static_cast<unsigned char>(r.next());
							run.count("irrelevant input elements scrambled");
						}
					}
					s.dataBlock.set(s.data.data(), s.data.size(), r.below(4));
				}
				break;
			}
			default:
				what = "after other conversions";
				setFill(0x33, true);
				for (int q = 0; q < 3; ++q)
				{
					Rng o = mon::caseRng(run.seed, 991, i*3 + static_cast<std::uint64_t>(q));
					Case x = generate(o, p, 0);
					convert(x);
					garbage.emplace_back(std::malloc(r.below(5000) + 1), &std::free);
				}
				break;
		}
		for (auto& s : d.ins)
		{
			auto b = static_cast<const unsigned char*>(s.dataBlock.data());
			before.emplace_back(b, b + s.data.size());
			b = static_cast<const unsigned char*>(s.indexBlock.data());
			before.emplace_back(b, b + s.indexBlock.size);
		}
		Conversion k = convert(d);
		for (std::size_t s = 0; s < d.ins.size(); ++s)
		{
			if ((!before[s*2].empty() && memcmp(before[s*2].data(), d.ins[s].dataBlock.data(), before[s*2].size()) != 0) ||
				(!before[s*2 + 1].empty() && memcmp(before[s*2 + 1].data(), d.ins[s].indexBlock.data(), before[s*2 + 1].size()) != 0))
				fail("input-modified", "the conversion modified its input");
		}
		run.count("repeated conversions");
		if (digest(d, k) != first)
			fail("different-result", "the result differs " + what);
	}
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	if (!run.extra.empty())
		digests = fopen(run.extra.c_str(), "wb");
	int rc = run.loop(body);
	if (digests)
		fclose(digests);
	return rc;
}
