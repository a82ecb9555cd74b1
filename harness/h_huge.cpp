// Outputs beyond 4 GB, 2^31 vertices or 2^32 indices, judged while they are read (C01, C03, C04, C05).
#include "common.h"
#include <VFC/Converter.h>
#include <VFC/VertexFormat.h>
#include <algorithm>
#include <cinttypes>
#include <cstring>
#include <memory>
#include <new>
#include <set>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

using namespace vfc;
using mon::fail;
using mon::fmt;
using mon::Rng;

namespace
{

mon::Run run;

void quiet(const char* m) { run.note(m); }

// The bytes of the vertex with a seed.
struct Stream
{
	std::uint64_t x;
	explicit Stream(std::uint64_t seed) : x((seed + 1)*0x9E3779B97F4A7C15ULL) {}
	std::uint32_t next()
	{
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		return static_cast<std::uint32_t>(x >> 24);
	}
};

struct Map
{
	void* p;
	std::size_t size;
	explicit Map(std::size_t n) : size(n)
	{
		p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			throw std::bad_alloc();
	}
	~Map() { munmap(p, size); }
	template <typename T> T* as() { return static_cast<T*>(p); }
};

std::uint32_t indexAt(const IndexData& d, std::uint32_t i)
{
	return d.type == IndexType::UInt16 ? static_cast<const std::uint16_t*>(d.data)[i] : static_cast<const std::uint32_t*>(d.data)[i];
}

// More than 4 GB of vertices.
void hugeVertices(Rng& r, bool indexed)
{
	unsigned elements = static_cast<unsigned>(r.range(60, 240));
	bool two = r.chance(0.5);
	unsigned firstElements = two ? static_cast<unsigned>(r.range(1, 3)) : 0;
	bool firstLast = r.chance(0.5);
	std::size_t outStride = elements*16U;
	auto n = static_cast<std::uint32_t>((1ULL << 32)/outStride + r.below(60000) + 20000);
	run.describe = [=] { return fmt("%u vertices of %zu bytes%s, %s", n, outStride, two ? " beside a small second stream" : "", indexed ? "indexed" : "no indices"); };

	VertexFormat in, big, small;
	for (unsigned i = 0; i < elements + firstElements; ++i)
	{
		std::string name = "e" + std::to_string(i);
		in.appendElement(std::string(name), ElementLayout::X8Y8Z8W8, ElementType::UInt);
		if (i < firstElements)
			small.appendElement(std::string(name), ElementLayout::X8Y8Z8W8, ElementType::UInt);
		else
			big.appendElement(std::string(name), ElementLayout::X32Y32Z32W32, ElementType::UInt);
	}
	std::vector<VertexFormat> formats;
	if (two && !firstLast)
		formats.push_back(small);
	formats.push_back(big);
	if (two && firstLast)
		formats.push_back(small);
	std::size_t words = elements + firstElements;

	Map vertices(n*words*4ULL);
	std::vector<std::uint32_t> seed(n);
	std::uint32_t distinct = 0;
	for (std::uint32_t i = 0; i < n; ++i)
	{
		if (indexed && i > 10 && r.chance(0.01))
			seed[i] = seed[r.chance(0.5) ? r.below(i) : i - 1 - r.below(10)];
		else
			seed[i] = distinct++;
		Stream s(seed[i]);
		std::uint32_t* w = vertices.as<std::uint32_t>() + i*words;
		for (std::size_t k = 0; k < words; ++k)
			w[k] = s.next();
	}
	std::vector<std::uint32_t> order;
	if (indexed)
	{
		for (std::uint32_t i = 0; i < n; ++i)
		{
			order.push_back(i);
			if (r.chance(0.02))
				order.push_back(static_cast<std::uint32_t>(r.chance(0.5) ? r.below(i + 1) : i - r.below(std::min<std::uint32_t>(i + 1, 1000))));
		}
		for (int i = 0; i < 20000; ++i)
			order.push_back(static_cast<std::uint32_t>(r.chance(0.5) ? r.below(n) : n - 1 - r.below(10000)));
	}

	Converter c(formats, indexed ? IndexType::UInt32 : IndexType::NoIndices, PrimitiveType::PointList, 0, quiet);
	if (!(indexed ? c.addVertexStream(in, vertices.p, n, IndexType::UInt32, order.data(), static_cast<std::uint32_t>(order.size())) :
		c.addVertexStream(in, vertices.p, n)))
		fail("refused", "valid stream");
	if (!c.convert())
		fail("refused", "valid conversion");

	const auto& out = c.getVertices();
	std::size_t bigIndex = two && !firstLast ? 1 : 0;
	if (out.size() != formats.size())
		fail("shape", fmt("%zu output streams", out.size()));
	std::size_t total = out[bigIndex].size()/outStride;
	if (out[bigIndex].size()%outStride || (indexed ? total > 0xFFFFFFFFu : total != n))
		fail("vertex-count", fmt("%zu bytes of vertices", out[bigIndex].size()));
	if (two && out[1 - bigIndex].size() != total*firstElements*4)
		fail("vertex-count", fmt("%zu bytes of vertices beside %zu vertices", out[1 - bigIndex].size(), total));
	auto verify = [&](std::size_t v, std::uint32_t sd, std::size_t at)
	{
		Stream s(sd);
		if (two)
		{
			const std::uint8_t* p = out[1 - bigIndex].data() + v*firstElements*4;
			for (unsigned k = 0; k < firstElements; ++k, p += 4)
			{
				std::uint32_t w = s.next();
				if (memcmp(p, &w, 4))
					fail("vertex-differs", fmt("position %zu, vertex %zu, small stream", at, v));
			}
		}
		const std::uint8_t* p = out[bigIndex].data() + v*outStride;
		for (unsigned k = 0; k < elements; ++k, p += 16)
		{
			std::uint32_t w = s.next();
			std::uint32_t want[4] = {w & 0xFF, w >> 8 & 0xFF, w >> 16 & 0xFF, w >> 24};
			if (memcmp(p, want, 16))
				fail("vertex-differs", fmt("position %zu, vertex %zu, element %u", at, v, k));
		}
	};
	if (!indexed)
	{
		for (std::uint32_t i = 0; i < n; ++i)
			verify(i, seed[i], i);
	}
	else
	{
		const auto& id = c.getIndices();
		if (id.size() != 1 || id[0].count != order.size() || id[0].baseVertex != 0)
			fail("index-data", fmt("%zu index data", id.size()));
		std::vector<std::uint32_t> where(distinct, 0xFFFFFFFFu);
		for (std::size_t i = 0; i < order.size(); ++i)
		{
			std::uint32_t v = indexAt(id[0], static_cast<std::uint32_t>(i));
			if (v >= total)
				fail("index-range", fmt("index %zu is %u of %zu vertices", i, v, total));
			std::uint32_t sd = seed[order[i]];
			if (where[sd] == 0xFFFFFFFFu)
			{
				where[sd] = v;
				verify(v, sd, i);
			}
			else if (where[sd] != v)
			{
				verify(v, sd, i);
				fail("duplicate", fmt("the vertex of position %zu is output as %u and %u", i, where[sd], v));
			}
		}
		if (total != distinct)
			fail("vertex-count", fmt("%zu output vertices, %u distinct", total, distinct));
		run.count("positions compared", order.size());
	}
	run.count("bytes of output vertices compared", out[bigIndex].size());
	mon::Fnv h;
	h.val(n);
	h.val(outStride);
	run.nontrivial(h.h);
}

// More than 4 GB of indices, with several index buffers behind.
void hugeIndices(Rng& r)
{
	std::uint32_t m = (1U << 30) + static_cast<std::uint32_t>(r.below(1000)) + 3000;
	std::uint32_t tail = 1000 + static_cast<std::uint32_t>(r.below(1000));
	auto maxIndex = static_cast<std::uint32_t>(r.range(3, 9));
	run.describe = [=] { return fmt("%u indices, the last %u vary, maximum index value %u", m, tail, maxIndex); };
	Map indices(m*4ULL);
	for (std::uint32_t i = m - tail; i < m; ++i)
		indices.as<std::uint32_t>()[i] = static_cast<std::uint32_t>(r.below(20));
	std::uint8_t data[20];
	for (unsigned i = 0; i < 20; ++i)
		data[i] = static_cast<std::uint8_t>(i*12 + r.below(12));
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	Converter c(f, IndexType::UInt32, PrimitiveType::PointList, 0, maxIndex, quiet);
	if (!c.addVertexStream(f, data, 20, IndexType::UInt32, indices.p, m) || !c.convert())
		fail("refused", "valid conversion");
	const auto& out = c.getVertices()[0];
	std::uint64_t at = 0;
	const void* expect = nullptr;
	for (const IndexData& d : c.getIndices())
	{
		if (expect && d.data != expect)
			fail("index-data", fmt("the index data of position %" PRIu64 " doesn't follow the one before", at));
		if (at + d.count > m)
			fail("index-data", "too many indices");
		for (std::uint32_t i = 0; i < d.count; ++i, ++at)
		{
			std::uint32_t v = indexAt(d, i);
			std::uint64_t o = v + static_cast<std::int64_t>(d.baseVertex);
			if (v > maxIndex || o >= out.size() || out[o] != data[indices.as<std::uint32_t>()[at]])
				fail("index", fmt("position %" PRIu64 " is %u, base vertex %d", at, v, d.baseVertex));
		}
		expect = static_cast<const char*>(d.data) + d.count*4ULL;
	}
	if (at != m)
		fail("index-data", fmt("%" PRIu64 " indices", at));
	run.count("indices compared", m);
	run.count("index buffers", c.getIndices().size());
	mon::Fnv h;
	h.val(m);
	run.nontrivial(h.h);
}

// More output vertices than a base vertex can express: right or refused.
void hugeBase(Rng& r)
{
	std::uint32_t n = (1U << 31) + 1000 + static_cast<std::uint32_t>(r.below(1000));
	std::uint32_t maxIndex = static_cast<std::uint32_t>(r.range(230, 255));
	run.describe = [=] { return fmt("%u vertices, maximum index value %u", n, maxIndex); };
	Map vertices(n);
	auto p = vertices.as<std::uint8_t>();
	for (std::uint32_t i = 0; i < n; ++i)
		p[i] = static_cast<std::uint8_t>(i);
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, maxIndex, quiet);
	if (!c.addVertexStream(f, p, n))
		fail("refused", "valid stream");
	if (!c.convert())
	{
		run.count("refused");
		if (!c.getVertices().empty() || !c.getIndices().empty())
			fail("partial", "a refused conversion has a result");
	}
	else
	{
		const auto& out = c.getVertices()[0];
		std::uint64_t at = 0;
		for (const IndexData& d : c.getIndices())
		{
			for (std::uint32_t i = 0; i < d.count; ++i, ++at)
			{
				std::uint32_t v = indexAt(d, i);
				std::int64_t o = v + static_cast<std::int64_t>(d.baseVertex);
				if (v > maxIndex || o < 0 || o >= static_cast<std::int64_t>(out.size()) || at >= n || out[static_cast<std::size_t>(o)] != p[at])
					fail("index", fmt("position %" PRIu64 " is %u, base vertex %d", at, v, d.baseVertex));
			}
		}
		if (at != n)
			fail("index-data", fmt("%" PRIu64 " indices", at));
	}
	mon::Fnv h;
	h.val(n);
	run.nontrivial(h.h);
}

// The primitives of a strip or fan, one after the other.
struct Primitives
{
	PrimitiveType type;
	std::uint64_t since = 0;
	std::int32_t first = 0, last[2] = {0, 0};

	bool add(std::int32_t v, std::int32_t* p)
	{
		if (since == 0)
			first = v;
		std::int32_t a = last[0], b = last[1];
		last[0] = b;
		last[1] = v;
		++since;
		switch (type)
		{
			case PrimitiveType::LineStrip:
				p[0] = b;
				p[1] = v;
				p[2] = 0;
				return since >= 2;
			case PrimitiveType::TriangleFan:
				p[0] = first;
				p[1] = b;
				p[2] = v;
				return since >= 3;
			default:
				p[0] = a;
				p[1] = b;
				p[2] = v;
				return since >= 3;
		}
	}
};

// As many indices as can be, with the vertices copied between index buffers making it more than 2^32.
void manyIndices(Rng& r)
{
	static const PrimitiveType types[] = {PrimitiveType::TriangleStrip, PrimitiveType::TriangleFan, PrimitiveType::LineStrip};
	PrimitiveType type = types[r.below(3)];
	auto maxIndex = static_cast<std::uint32_t>(r.range(3, 9));
	const std::uint32_t m = 0xFFFFFFFFu;
	std::uint32_t head = 2000 + static_cast<std::uint32_t>(r.below(1000)), tail = 2000 + static_cast<std::uint32_t>(r.below(1000));
	double restart = r.chance(0.5) ? 0.05 : 0.001;
	run.describe = [=] { return fmt("%s of %u indices, all the same but the first %u and the last %u, restarts with probability %g, maximum index value %u",
		type == PrimitiveType::LineStrip ? "line strips" : type == PrimitiveType::TriangleFan ? "triangle fans" : "triangle strips", m, head, tail, restart, maxIndex); };
	const std::uint32_t vertexCount = 60000;
	Map indices(m*2ULL + 2);
	auto in = indices.as<std::uint16_t>();
	for (std::uint32_t i = 0; i < head + tail; ++i)
		in[i < head ? i : m - tail + (i - head)] = r.chance(restart) ? 0xFFFF : static_cast<std::uint16_t>(r.below(vertexCount));
	std::vector<std::uint16_t> data(vertexCount);
	for (std::uint32_t i = 0; i < vertexCount; ++i)
		data[i] = static_cast<std::uint16_t>(i);
	VertexFormat f;
	f.appendElement("a", ElementLayout::X16, ElementType::UInt);
	Converter c(f, IndexType::UInt16, type, 0, maxIndex, quiet);
	if (!c.addVertexStream(f, data.data(), vertexCount, IndexType::UInt16, in, m) || !c.convert())
		fail("refused", "valid conversion");
	const auto& out = c.getVertices()[0];
	std::uint64_t at = 0, total = 0, compared = 0;
	Primitives expected{type};
	auto next = [&](std::int32_t* p)
	{
		while (at < m)
		{
			std::uint16_t v = in[at++];
			if (v == 0xFFFF)
				expected.since = 0;
			else if (expected.add(v, p))
				return true;
		}
		return false;
	};
	std::int32_t want[3], got[3];
	const std::uint16_t* follow = nullptr;
	for (const IndexData& d : c.getIndices())
	{
		auto p = static_cast<const std::uint16_t*>(d.data);
		// Copied vertices that make no primitive are no part of any.
		if (follow && p < follow)
			fail("index-data", fmt("the index data of %" PRIu64 " overlaps the one before", total));
		follow = p + d.count;
		Primitives have{type};
		for (std::uint32_t i = 0; i < d.count; ++i, ++total)
		{
			if (p[i] == 0xFFFF)
			{
				have.since = 0;
				continue;
			}
			std::uint64_t o = p[i] + static_cast<std::uint64_t>(static_cast<std::int64_t>(d.baseVertex));
			if (p[i] > maxIndex || o >= out.size()/2)
				fail("index", fmt("index %" PRIu64 " is %u, base vertex %d", total, p[i], d.baseVertex));
			std::uint16_t v;
			memcpy(&v, out.data() + o*2, 2);
			if (!have.add(v, got))
				continue;
			bool more = next(want);
			// Known: which of a continued strip's triangles are flipped (C02).
			if (type == PrimitiveType::TriangleStrip && more && (want[0] != got[0] || want[1] != got[1] || want[2] != got[2]))
			{
				std::sort(want, want + 3);
				std::sort(got, got + 3);
			}
			if (!more || want[0] != got[0] || want[1] != got[1] || want[2] != got[2])
				fail("primitive", fmt("index %" PRIu64 ": %d %d %d, expected %s %d %d %d", total, got[0], got[1], got[2], more ? "" : "no more after", want[0], want[1], want[2]));
			++compared;
		}
	}
	if (next(want))
		fail("primitive", fmt("%d %d %d is missing", want[0], want[1], want[2]));
	run.count("primitives compared", compared);
	run.count("output indices", total);
	run.count("index buffers", c.getIndices().size());
	mon::Fnv h;
	h.val(type);
	h.val(head);
	h.val(tail);
	run.nontrivial(h.h);
}

void body(std::uint64_t i)
{
	Rng r = mon::caseRng(run.seed, 77, i);
	try
	{
		if (run.check == "C01")
			manyIndices(r);
		else if (run.check == "C03")
			hugeVertices(r, true);
		else if (run.check == "C05")
			hugeVertices(r, false);
		else if (run.check == "C04")
		{
			if (i % 2)
				hugeBase(r);
			else
				hugeIndices(r);
		}
		else
			fail("setup", "unknown check " + run.check);
	}
	catch (const std::bad_alloc&)
	{
		run.count("skipped: not enough memory");
	}
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	return run.loop(body);
}
