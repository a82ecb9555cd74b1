// Mesh generator, driver for the real Converter and reference model of drawing.
#pragma once
#include "refcodec.h"
#include <VFC/Converter.h>
#include <algorithm>
#include <memory>
#include <unordered_map>
#include <sys/mman.h>
#include <unistd.h>

namespace mesh
{

using mon::Rng;
using mon::fmt;
using vfc::Converter;
using vfc::IndexType;
using vfc::PrimitiveType;
using vfc::VertexFormat;
using vfc::VertexValue;
using Transform = vfc::Converter::Transform;

constexpr std::uint32_t restartItem = 0xFFFFFFFFu;

struct OutElem
{
	std::string name;
	ref::Format format;
	Transform transform;
	int stream = -1, element = -1; // source, filled in by the generator
};

struct InElem
{
	std::string name;
	ref::Format format;
	std::uint32_t offset;
};

struct Block // exactly sized memory, so that an overrun is an overrun
{
	std::unique_ptr<unsigned char, void (*)(void*)> mem{nullptr, &std::free};
	std::size_t size = 0, skew = 0;
	const unsigned char* external = nullptr; // when set, used instead
	std::shared_ptr<void> hold;              // keeps what's external
	void set(const void* p, std::size_t n, std::size_t sk)
	{
		skew = sk;
		size = n;
		mem.reset(static_cast<unsigned char*>(std::malloc(n + sk ? n + sk : 1)));
		if (n)
			memcpy(mem.get() + sk, p, n);
	}
	const void* data() const { return external ? external : mem.get() + skew; }
};

struct InStream
{
	std::vector<InElem> elems;
	std::uint32_t stride = 0;
	std::uint32_t vertexCount = 0;
	IndexType indexType = IndexType::NoIndices;
	std::vector<std::uint32_t> indices; // logical values; restartItem for restart
	std::vector<unsigned char> data;
	Block dataBlock, indexBlock;
	bool used = false;

	const unsigned char* vertexAt(std::uint32_t v) const
	{
		return static_cast<const unsigned char*>(dataBlock.data()) + static_cast<std::size_t>(v)*stride;
	}
	std::uint32_t indexAt(std::uint32_t p) const
	{
		return indexType == IndexType::NoIndices ? p : indices[p];
	}
	void finishIndices()
	{
		if (indexType == IndexType::UInt16)
		{
			std::vector<std::uint16_t> v(indices.size());
			for (std::size_t i = 0; i < v.size(); ++i)
				v[i] = static_cast<std::uint16_t>(indices[i]);
			indexBlock.set(v.data(), v.size()*2, 0);
		}
		else if (indexType == IndexType::UInt32)
			indexBlock.set(indices.data(), indices.size()*4, 0);
	}
};

struct Case
{
	std::vector<std::vector<OutElem>> outs;
	std::vector<InStream> ins;
	PrimitiveType prim = PrimitiveType::TriangleList;
	unsigned patch = 0;
	IndexType outIndex = IndexType::UInt16;
	std::uint32_t maxIndex = 0;
	bool defaultMax = false;
	std::uint32_t count = 0;
	bool large = false;
	std::vector<std::size_t> addOrder;
	int ctorVariant = 0;
	bool transformsByName = true, transformsFirst = true;
	int retry = -1;              // when >= 0: this stream's indices are broken at first, and convert() called again
	std::uint32_t retryAt = 0;
	std::uint64_t retrySeed = 0;
};

inline bool restartable(PrimitiveType p)
{
	return p == PrimitiveType::LineStrip || p == PrimitiveType::TriangleStrip ||
		p == PrimitiveType::TriangleFan;
}

inline const char* primName(PrimitiveType p)
{
	switch (p)
	{
		case PrimitiveType::PointList: return "PointList";
		case PrimitiveType::LineList: return "LineList";
		case PrimitiveType::LineStrip: return "LineStrip";
		case PrimitiveType::TriangleList: return "TriangleList";
		case PrimitiveType::TriangleStrip: return "TriangleStrip";
		case PrimitiveType::TriangleFan: return "TriangleFan";
		case PrimitiveType::PatchList: return "PatchList";
		default: return "Invalid";
	}
}

inline unsigned primStride(PrimitiveType p, unsigned patch)
{
	switch (p)
	{
		case PrimitiveType::LineList: return 2;
		case PrimitiveType::TriangleList: return 3;
		case PrimitiveType::PatchList: return patch;
		default: return 1;
	}
}

inline unsigned primVerts(PrimitiveType p, unsigned patch)
{
	switch (p)
	{
		case PrimitiveType::PointList: return 1;
		case PrimitiveType::LineList:
		case PrimitiveType::LineStrip: return 2;
		case PrimitiveType::PatchList: return patch;
		default: return 3;
	}
}

inline VertexFormat makeFormat(const std::vector<InElem>& e)
{
	VertexFormat f;
	for (auto& x : e)
	{
		if (f.appendElement(x.name, x.format.layout, x.format.type) != VertexFormat::AddResult::Succeeded)
			mon::fail("setup", "appendElement refused a legal element " + x.name + " " + ref::name(x.format));
	}
	return f;
}

inline VertexFormat makeFormat(const std::vector<OutElem>& e)
{
	VertexFormat f;
	for (auto& x : e)
	{
		if (f.appendElement(x.name, x.format.layout, x.format.type) != VertexFormat::AddResult::Succeeded)
			mon::fail("setup", "appendElement refused a legal element " + x.name + " " + ref::name(x.format));
	}
	return f;
}

struct Profile
{
	double pRestart = 0.35;    // chance that a strip/fan case has restarts
	double pNoIndexOut = 0.08;
	double pBounds = 0.12;
	double pOtherTransform = 0.15;
	double pNormOut = -1;      // when >= 0: chance that an output element is normalized
	double pWeird = 0.1;       // chance of raw bit patterns (NaN, inf, denormals) in float data
	double pLossless = -1;     // when >= 0: chance that the output format is the input format
	int maxCount = 60;
	bool largeBounds = false;  // those have floats as input and often scaled output
	int largeEvery = 0;        // every n-th case converts more than 65536 vertices
	double pSmallMax = 0.7;
	double pSplitRestart = 0.2; // restart only in some streams
	bool strips = false;       // bias to strips and fans
	double wideChance = 0.06;  // larger meshes
	double pManyStreams = 0.012; // many input and output streams
	double pManyElements = 0.004; // hundreds of elements
};

inline std::string randomName(Rng& r, int i)
{
	static const char* base[] = {"position", "normal", "texCoord", "color", "Position", "pos", "positions",
		"p", "\xc3\xa9lement", "a b", "x\"y", "", "tangent", "weights", "boneIndices"};
	std::string s = base[r.below(sizeof(base)/sizeof(*base))];
	if (r.chance(0.6))
		s += std::to_string(i);
	return s;
}

inline void randomElement(Rng& r, unsigned char* out, const ref::Format& f, const Profile& p)
{
	const ref::Layout& l = ref::info(f.layout);
	if (f.type == ref::ElementType::Float && l.kind == ref::Plain && !r.chance(p.pWeird))
	{
		for (int i = 0; i < l.count; ++i)
		{
			double d;
			switch (r.below(5))
			{
				case 0: d = r.range(-4, 4); break;
				case 1: d = r.unit(); break;
				case 2: d = r.unit()*2 - 1; break;
				case 3: d = (r.unit()*2 - 1)*1000; break;
				default: d = std::ldexp(r.unit()*2 - 1, r.range(-12, 14)); break;
			}
			if (l.comp[i].bits == 16)
			{
				// Truncated to half via the bit layout of float.
				float fl = static_cast<float>(d);
				std::uint32_t u;
				memcpy(&u, &fl, 4);
				std::uint32_t s = u >> 31, m = (u >> 13) & 0x3FF;
				int e = static_cast<int>((u >> 23) & 255) - 127 + 15;
				std::uint64_t h = e <= 0 ? s << 15 : (s << 15) | (static_cast<std::uint32_t>(std::min(e, 30)) << 10) | m;
				ref::setCode(out, l, i, h);
			}
			else if (l.comp[i].bits == 32)
			{
				float fl = static_cast<float>(d);
				std::uint32_t u;
				memcpy(&u, &fl, 4);
				ref::setCode(out, l, i, u);
			}
			else
			{
				std::uint64_t u;
				memcpy(&u, &d, 8);
				ref::setCode(out, l, i, u);
			}
		}
		return;
	}
	if (l.kind == ref::Plain && l.comp[0].bits >= 32 && f.type != ref::ElementType::Float && r.chance(0.6))
	{
		for (int i = 0; i < l.count; ++i)
			ref::setCode(out, l, i, static_cast<std::uint64_t>(r.range(f.type == ref::ElementType::SInt ? -300 : 0, 70000)));
		return;
	}
	for (int i = 0; i < l.size; ++i)
	{
		switch (r.below(6))
		{
			case 0: out[i] = 0; break;
			case 1: out[i] = 255; break;
			case 2: out[i] = 0x80; break;
			default: out[i] = static_cast<unsigned char>(r.next()); break;
		}
	}
}

inline ref::Format randomFormat(Rng& r, const Profile& p)
{
	const auto& f = ref::formats();
	if (p.pNormOut >= 0)
	{
		bool norm = r.chance(p.pNormOut);
		for (;;)
		{
			ref::Format x = f[r.below(f.size())];
			bool isNorm = x.type == ref::ElementType::UNorm || x.type == ref::ElementType::SNorm;
			if (isNorm == norm)
				return x;
		}
	}
	return f[r.below(f.size())];
}

// The value k as an element of a large mesh, 32 bits wide.
inline std::uint64_t largeCode(ref::ElementType type, std::uint64_t k, bool negative = false)
{
	if (type == ref::ElementType::Float)
	{
		float f = static_cast<float>(k)/64.0f - 8192.0f;
		if (k > 1000003) // beyond all others
			f = (negative ? -1.0f : 1.0f)*static_cast<float>(k - 900000);
		std::uint32_t u;
		memcpy(&u, &f, 4);
		return u;
	}
	if (k <= 1000003)
		return k;
	if (type == ref::ElementType::SInt && negative)
		return 0x80000000U + (k - 1000003);
	return (type == ref::ElementType::SInt ? 0x7FFFFFFFU : 0xFFFFFFFFU) - (k - 1000003);
}

inline Case generate(Rng& r, const Profile& p, std::uint64_t caseIndex)
{
	Case c;
	c.large = p.largeEvery > 0 && caseIndex % static_cast<std::uint64_t>(p.largeEvery) == static_cast<std::uint64_t>(p.largeEvery) - 1;
	Profile inP = p;
	inP.pNormOut = -1;

	static const PrimitiveType prims[] = {PrimitiveType::PointList, PrimitiveType::LineList,
		PrimitiveType::LineStrip, PrimitiveType::TriangleList, PrimitiveType::TriangleStrip,
		PrimitiveType::TriangleFan, PrimitiveType::PatchList};
	c.prim = prims[r.below(7)];
	if (p.strips && r.chance(0.8))
		c.prim = r.chance(0.65) ? PrimitiveType::TriangleStrip : (r.chance(0.5) ? PrimitiveType::TriangleFan : PrimitiveType::LineStrip);
	c.patch = c.prim == PrimitiveType::PatchList ? static_cast<unsigned>(r.range(1, r.chance(0.3) ? 16 : 5)) : (r.chance(0.2) ? 3 : 0);
	if (c.prim == PrimitiveType::PatchList && r.chance(0.05))
		c.patch = static_cast<unsigned>(r.range(17, r.chance(0.5) ? 40 : 700));

	// Output formats.
	int outStreams = c.large ? 1 : (r.chance(0.6) ? 1 : r.range(2, 3));
	bool manyStreams = !c.large && r.chance(p.pManyStreams), manyElements = !c.large && r.chance(p.pManyElements);
	// More streams than fit in a byte.
	bool hundredsOfStreams = manyStreams && r.chance(0.04);
	if (hundredsOfStreams)
		outStreams = r.range(130, 160);
	else if (manyStreams && r.chance(0.6))
		outStreams = r.range(4, r.chance(0.1) ? 140 : 20);
	int nameCounter = 0;
	std::set<std::string> names;
	std::vector<std::pair<int, int>> outRefs;
	for (int s = 0; s < outStreams; ++s)
	{
		int n = c.large ? 1 : r.range(1, r.chance(0.5) ? 2 : 4);
		if (!c.large && r.chance(0.01))
			n = r.range(5, 40);
		if (manyStreams)
			n = hundredsOfStreams ? 2 : (outStreams >= 4 ? r.range(1, 2) : r.range(6, 20));
		if (manyElements && (s == 0 || r.chance(0.3)))
			n = r.range(60, 320);
		c.outs.emplace_back();
		for (int e = 0; e < n; ++e)
		{
			OutElem o;
			do
				o.name = randomName(r, nameCounter++);
			while (!names.insert(o.name).second);
			o.format = randomFormat(r, p);
			if (c.large)
				o.format = ref::Format{ref::ElementLayout::X32, r.chance(0.5) ? ref::ElementType::UInt : ref::ElementType::SInt};
			bool scaled = c.large && p.largeBounds && r.chance(0.7);
			if (scaled)
			{
				o.format.layout = r.chance(0.6) ? ref::ElementLayout::X16 : ref::ElementLayout::X8;
				o.format.type = r.chance(0.5) ? ref::ElementType::UNorm : ref::ElementType::SNorm;
			}
			double t = r.unit();
			o.transform = scaled ? Transform::Bounds : Transform::Identity;
			if (!c.large)
			{
				if (t < p.pBounds)
					o.transform = Transform::Bounds;
				else if (t < p.pBounds + p.pOtherTransform)
					o.transform = r.chance(0.5) ? Transform::UNormToSNorm : Transform::SNormToUNorm;
			}
			outRefs.emplace_back(s, e);
			c.outs.back().push_back(o);
		}
	}

	// Count.
	unsigned stride = primStride(c.prim, c.patch);
	std::uint32_t n = static_cast<std::uint32_t>(r.range(0, r.chance(0.3) ? 12 : p.maxCount));
	if (r.chance(p.wideChance) && !manyElements)
		n = static_cast<std::uint32_t>(r.range(p.maxCount, p.maxCount*12));
	if (c.large)
		n = static_cast<std::uint32_t>(r.range(66000, 140000));
	if (stride > 1)
		n -= n % stride;
	if (c.prim == PrimitiveType::LineStrip && n == 1)
		n = 2;
	if ((c.prim == PrimitiveType::TriangleStrip || c.prim == PrimitiveType::TriangleFan) && n > 0 && n < 3)
		n = 3;
	if (n == 0 && r.chance(0.9))
		n = stride*3;
	c.count = n;

	// Distribute the elements over input streams.
	int inStreams = c.large ? 1 : std::min<int>(static_cast<int>(outRefs.size()), hundredsOfStreams ? r.range(250, 300) :
		(manyStreams ? r.range(4, r.chance(0.1) ? 140 : 20) : r.range(1, 3)));
	std::vector<std::vector<std::pair<int, int>>> assign(static_cast<std::size_t>(inStreams));
	std::vector<std::pair<int, int>> sh = outRefs;
	r.shuffle(sh);
	for (std::size_t i = 0; i < sh.size(); ++i)
		assign[i < assign.size() ? i : r.below(assign.size())].push_back(sh[i]);

	bool anyIndexed = false;
	for (auto& a : assign)
	{
		InStream s;
		s.used = true;
		std::vector<std::pair<int, int>> order = a;
		int extras = c.large ? 0 : (r.chance(0.35) ? r.range(1, 2) : 0);
		for (int i = 0; i < extras; ++i)
			order.insert(order.begin() + static_cast<long>(r.below(order.size() + 1)), {-1, i});
		std::set<std::string> local;
		for (auto& o : order)
		{
			InElem e;
			if (o.first < 0)
			{
				do
					e.name = "extra" + std::to_string(r.below(1000));
				while (names.count(e.name) || !local.insert(e.name).second);
				e.format = randomFormat(r, inP);
			}
			else
			{
				OutElem& oe = c.outs[static_cast<std::size_t>(o.first)][static_cast<std::size_t>(o.second)];
				e.name = oe.name;
				e.format = randomFormat(r, inP);
				if (c.large || (p.pLossless >= 0 && r.chance(p.pLossless)))
				{
					e.format = oe.format;
					if (c.large && p.largeBounds)
						e.format = ref::Format{ref::ElementLayout::X32, ref::ElementType::Float};
					if (!c.large)
						oe.transform = Transform::Identity;
				}
				oe.stream = static_cast<int>(c.ins.size());
				oe.element = static_cast<int>(s.elems.size());
			}
			e.offset = s.stride;
			s.stride += static_cast<std::uint32_t>(ref::info(e.format.layout).size);
			s.elems.push_back(e);
		}

		double t = r.unit();
		s.indexType = t < 0.2 ? IndexType::NoIndices : (t < 0.6 ? IndexType::UInt16 : IndexType::UInt32);
		if (c.large)
			s.indexType = r.chance(0.3) ? IndexType::NoIndices : IndexType::UInt32;
		if (s.indexType == IndexType::NoIndices)
			s.vertexCount = n;
		else
		{
			anyIndexed = true;
			s.vertexCount = static_cast<std::uint32_t>(r.range(1, static_cast<int>(std::max<std::uint32_t>(2, r.chance(0.5) ? n : n/4 + 1))));
			if (c.large)
				s.vertexCount = static_cast<std::uint32_t>(r.range(static_cast<int>(n/2), static_cast<int>(n)));
			// All 16-bit index values may be used with lists.
			if (s.indexType == IndexType::UInt16 && !restartable(c.prim) && r.chance(0.01))
				s.vertexCount = 65536;
		}
		if (s.vertexCount == 0)
			s.vertexCount = s.indexType == IndexType::NoIndices ? 0 : 1;

		// Large ones have a few vertices of extreme values, used at a single place each.
		std::uint32_t ordinary = s.vertexCount;
		std::map<std::uint32_t, std::uint32_t> extreme;
		if (c.large)
		{
			for (int k = r.range(0, 4); k > 0; --k)
			{
				std::uint32_t at = r.chance(0.5) ? n - 1 - static_cast<std::uint32_t>(r.below(n/3)) : static_cast<std::uint32_t>(r.below(n));
				extreme[at] = s.indexType == IndexType::NoIndices ? at : s.vertexCount++;
			}
		}

		// Vertex data: from a small palette (duplicates), or independent.
		s.data.resize(static_cast<std::size_t>(s.stride)*s.vertexCount);
		bool palette = !c.large && r.chance(manyElements ? 0.9 : 0.5);
		std::vector<std::vector<unsigned char>> pal;
		std::uint32_t distinct = std::min<std::uint32_t>(s.vertexCount, s.vertexCount > 5000 ? 64 : 0xFFFFFFFFu);
		if (palette || distinct != s.vertexCount)
		{
			int k = r.range(1, r.chance(0.5) ? 6 : 24);
			for (int i = 0; i < k; ++i)
			{
				std::vector<unsigned char> v(s.stride);
				if (i > 0 && r.chance(0.4))
				{
					v = pal[r.below(pal.size())];
					v[r.below(v.size())] ^= static_cast<unsigned char>(1U << r.below(8)); // nearly identical
				}
				else
				{
					for (auto& e : s.elems)
						randomElement(r, v.data() + e.offset, e.format, p);
				}
				pal.push_back(v);
			}
			palette = true;
		}
		for (std::uint32_t v = 0; v < s.vertexCount; ++v)
		{
			unsigned char* dst = s.data.data() + static_cast<std::size_t>(v)*s.stride;
			if (c.large)
				ref::setCode(dst, ref::info(s.elems[0].format.layout), 0, largeCode(s.elems[0].format.type, v*2654435761ULL % 1000003));
			else if (palette)
				memcpy(dst, pal[r.below(pal.size())].data(), s.stride);
			else
			{
				for (auto& e : s.elems)
					randomElement(r, dst + e.offset, e.format, p);
			}
		}
		std::uint64_t beyond = 1000004;
		for (auto& x : extreme)
		{
			ref::setCode(s.data.data() + static_cast<std::size_t>(x.second)*s.stride, ref::info(s.elems[0].format.layout), 0,
				largeCode(s.elems[0].format.type, beyond++, r.chance(0.5)));
		}
		s.dataBlock.set(s.data.data(), s.data.size(), r.below(4));

		// Indices.
		if (s.indexType != IndexType::NoIndices)
		{
			s.indices.resize(n);
			int style = r.range(0, 4);
			std::uint32_t w = 0;
			for (std::uint32_t i = 0; i < n; ++i)
			{
				switch (style)
				{
					case 0: s.indices[i] = static_cast<std::uint32_t>(r.below(ordinary)); break;
					case 1: s.indices[i] = i % ordinary; break;
					case 2: // sliding window
						if (r.chance(0.4))
							w = (w + 1) % ordinary;
						s.indices[i] = (w + static_cast<std::uint32_t>(r.below(4))) % ordinary;
						break;
					case 3: // repeats of the previous one: degenerates
						s.indices[i] = i > 0 && r.chance(0.4) ? s.indices[i - 1 - r.below(std::min<std::uint32_t>(i, 3))] : static_cast<std::uint32_t>(r.below(ordinary));
						break;
					default: s.indices[i] = (ordinary - 1 - i % ordinary); break;
				}
			}
			for (auto& x : extreme)
				s.indices[x.first] = x.second;
			if (s.vertexCount == 65536 && n > 0)
				s.indices[r.below(n)] = 65535;
		}
		c.ins.push_back(std::move(s));
	}

	// Primitive restarts.
	double tIdx = r.unit();
	c.outIndex = tIdx < p.pNoIndexOut ? IndexType::NoIndices : (tIdx < 0.6 ? IndexType::UInt16 : IndexType::UInt32);
	if (c.outIndex != IndexType::NoIndices && restartable(c.prim) && anyIndexed && r.chance(p.pRestart))
	{
		double density = r.chance(0.3) ? 0.3 : 0.08;
		bool partial = r.chance(p.pSplitRestart);
		for (std::uint32_t i = 0; i < n; ++i)
		{
			if (!r.chance(density))
				continue;
			bool any = false;
			for (auto& s : c.ins)
			{
				if (s.indexType != IndexType::NoIndices && (!partial || r.chance(0.5)))
				{
					s.indices[i] = restartItem;
					any = true;
				}
			}
			(void)any;
		}
	}
	// An unrelated input stream that supplies nothing.
	if (!c.large && r.chance(0.08))
	{
		InStream s;
		InElem e{"unrelated" + std::to_string(r.below(10)), randomFormat(r, inP), 0};
		if (!names.count(e.name))
		{
			s.stride = static_cast<std::uint32_t>(ref::info(e.format.layout).size);
			s.elems.push_back(e);
			s.vertexCount = n;
			s.data.resize(static_cast<std::size_t>(s.stride)*n);
			s.dataBlock.set(s.data.data(), s.data.size(), 0);
			c.ins.push_back(std::move(s));
		}
	}
	for (auto& s : c.ins)
		s.finishIndices();

	// Max index value.
	std::uint32_t minMax = primVerts(c.prim, c.patch) - 1;
	std::uint32_t typeMax = c.outIndex == IndexType::UInt16 ? 0xFFFFu : 0xFFFFFFFFu;
	c.defaultMax = c.large ? r.chance(0.4) : !r.chance(p.pSmallMax);
	if (c.outIndex == IndexType::NoIndices)
		c.maxIndex = 0;
	else if (c.large)
		c.maxIndex = typeMax - static_cast<std::uint32_t>(r.below(3)*r.below(2));
	else
		c.maxIndex = minMax + static_cast<std::uint32_t>(r.below(r.chance(0.5) ? 3 : 12));
	if (c.defaultMax)
		c.maxIndex = typeMax - 1;

	for (std::size_t i = 0; i < c.ins.size(); ++i)
		c.addOrder.push_back(i);
	r.shuffle(c.addOrder);
	c.ctorVariant = r.range(0, 1);
	c.transformsByName = r.chance(0.5);
	c.transformsFirst = r.chance(0.5);
	return c;
}

// 64-bit MurmurHash2 as the converter uses it, and blocks that give the same hash. Should the hash be another one,
// the vertices made here are ordinary ones that differ in few places.
struct Murmur
{
	static constexpr std::uint64_t m = 0xc6a4a7935bd1e995ULL;
	static std::uint64_t inverse()
	{
		std::uint64_t x = m;
		for (int i = 0; i < 6; ++i)
			x *= 2 - m*x;
		return x;
	}
	static std::uint64_t mix(std::uint64_t k)
	{
		k *= m;
		k ^= k >> 47;
		return k*m;
	}
	static std::uint64_t unmix(std::uint64_t k)
	{
		k *= inverse();
		k ^= k >> 47;
		return k*inverse();
	}
	// Replaces one 8 byte block of 8*n bytes so that the state at the end is the target.
	static void aim(std::uint64_t* block, unsigned n, unsigned replace, std::uint64_t target)
	{
		std::uint64_t h = 0xc70f6907U ^ (n*8*m), t = target;
		for (unsigned i = 0; i < replace; ++i)
			h = (h ^ mix(block[i]))*m;
		for (unsigned i = n; --i > replace;)
			t = (t*inverse()) ^ mix(block[i]);
		block[replace] = unmix((t*inverse()) ^ h);
	}
};

// A mesh of a few vertices whose hashes are equal or that are equal in all but one place.
inline Case generateColliding(Rng& r)
{
	Case c;
	static const PrimitiveType prims[] = {PrimitiveType::PointList, PrimitiveType::LineList, PrimitiveType::LineStrip,
		PrimitiveType::TriangleList, PrimitiveType::TriangleStrip, PrimitiveType::TriangleFan, PrimitiveType::PatchList};
	c.prim = prims[r.below(7)];
	c.patch = c.prim == PrimitiveType::PatchList ? static_cast<unsigned>(r.range(1, 5)) : 0;
	c.outIndex = r.chance(0.5) ? IndexType::UInt16 : IndexType::UInt32;
	std::uint32_t stride = primStride(c.prim, c.patch);
	c.count = stride*static_cast<std::uint32_t>(r.range(3, 40));
	c.defaultMax = r.chance(0.6);
	c.maxIndex = c.defaultMax ? (c.outIndex == IndexType::UInt16 ? 0xFFFEu : 0xFFFFFFFEu) :
		primVerts(c.prim, c.patch) - 1 + static_cast<std::uint32_t>(r.below(12));
	int streams = r.range(1, 3);
	bool together = r.chance(0.4); // all from one input stream
	std::uint32_t vertices = static_cast<std::uint32_t>(r.range(2, 24));
	std::vector<std::uint32_t> indices;
	for (std::uint32_t i = 0; i < c.count; ++i)
		indices.push_back(static_cast<std::uint32_t>(r.below(vertices)));
	int name = 0;
	for (int s = 0; s < streams; ++s)
	{
		if (s == 0 || !together)
		{
			c.ins.emplace_back();
			InStream& in = c.ins.back();
			in.used = true;
			in.vertexCount = vertices;
			in.indexType = r.chance(0.5) ? IndexType::UInt16 : IndexType::UInt32;
			in.indices = indices;
			if (s > 0 && r.chance(0.3))
				r.shuffle(in.indices);
		}
		InStream& in = c.ins.back();
		// 16 byte elements, in the end an 8 byte one.
		unsigned blocks = static_cast<unsigned>(r.chance(0.06) ? r.range(20, 300) : r.range(2, 6));
		c.outs.emplace_back();
		std::uint32_t start = in.stride;
		for (unsigned b = 0; b < blocks; b += 2)
		{
			OutElem o;
			o.name = "e" + std::to_string(name++);
			o.format = ref::Format{b + 1 < blocks ? ref::ElementLayout::X32Y32Z32W32 : ref::ElementLayout::X32Y32, ref::ElementType::UInt};
			o.transform = Transform::Identity;
			o.stream = static_cast<int>(c.ins.size()) - 1;
			o.element = static_cast<int>(in.elems.size());
			in.elems.push_back(InElem{o.name, o.format, in.stride});
			in.stride += static_cast<std::uint32_t>(ref::info(o.format.layout).size);
			c.outs.back().push_back(o);
		}
		// Interleave into the data so far.
		std::uint32_t width = in.stride - start;
		std::vector<unsigned char> data(static_cast<std::size_t>(in.stride)*vertices);
		std::vector<std::vector<std::uint64_t>> pal;
		std::uint64_t targets[2] = {r.next(), r.next()};
		int kind = r.range(0, 3);
		for (std::uint32_t v = 0; v < vertices; ++v)
		{
			std::vector<std::uint64_t> x(blocks);
			for (auto& b : x)
				b = r.next();
			if (!pal.empty() && r.chance(0.8))
				x = pal[r.below(pal.size())];
			if (kind == 0 && r.chance(0.5)) // differ in one byte only
				reinterpret_cast<unsigned char*>(x.data())[r.below(blocks*8)] ^= static_cast<unsigned char>(1 + r.below(255));
			else if (kind > 0 && (pal.empty() || r.chance(0.6)))
			{
				unsigned a = static_cast<unsigned>(r.below(blocks)), b = static_cast<unsigned>(r.below(blocks - 1));
				if (b >= a)
					++b;
				x[a] = r.next();
				Murmur::aim(x.data(), blocks, b, targets[r.below(8) == 0]);
			}
			pal.push_back(x);
			if (start)
				memcpy(&data[static_cast<std::size_t>(v)*in.stride], &in.data[static_cast<std::size_t>(v)*start], start);
			memcpy(&data[static_cast<std::size_t>(v)*in.stride + start], x.data(), width);
		}
		in.data = data;
	}
	for (std::size_t i = 0; i < c.ins.size(); ++i)
	{
		c.ins[i].dataBlock.set(c.ins[i].data.data(), c.ins[i].data.size(), r.below(4));
		c.ins[i].finishIndices();
		c.addOrder.push_back(i);
	}
	return c;
}

// Spreads the vertices of an indexed stream over several gigabytes of (sparse) memory.
inline bool makeSparse(Case& c, Rng& r)
{
	std::vector<InStream*> fit;
	for (auto& s : c.ins)
	{
		if (s.used && s.indexType != IndexType::NoIndices && s.stride > 1 && s.vertexCount <= 5000)
			fit.push_back(&s);
	}
	if (fit.empty() || c.large)
		return false;
	InStream& s = *fit[r.below(fit.size())];
	std::uint64_t total = (1ULL << 32)*static_cast<std::uint64_t>(r.range(1, 4)) + r.below(1ULL << 30);
	std::uint64_t n = std::min<std::uint64_t>(total/s.stride, 0xFFFFFFFEu - r.below(3));
	int fd = memfd_create("sparse", 0);
	if (fd < 0 || ftruncate(fd, static_cast<off_t>(n*s.stride)) != 0)
	{
		if (fd >= 0)
			close(fd);
		return false;
	}
	std::vector<std::uint32_t> where;
	std::set<std::uint32_t> taken;
	while (where.size() < s.vertexCount)
	{
		std::uint64_t v;
		std::uint64_t wrap = (1ULL << 32)*static_cast<std::uint64_t>(r.range(1, 4))/s.stride;
		switch (r.below(5))
		{
			case 0: v = r.below(n); break;
			case 1: v = n - 1 - r.below(std::min<std::uint64_t>(n, s.vertexCount + 2)); break;
			case 2: v = wrap + r.below(s.vertexCount + 2); break;
			case 3: v = wrap/2 + r.below(s.vertexCount + 2); break;
			default: v = r.below(std::min<std::uint64_t>(n, s.vertexCount + 2)); break;
		}
		if (v < n && taken.insert(static_cast<std::uint32_t>(v)).second)
			where.push_back(static_cast<std::uint32_t>(v));
	}
	std::vector<unsigned char> junk(s.stride);
	bool ok = true;
	for (auto v : where) // what a truncated offset would find
	{
		for (auto& b : junk)
			b = static_cast<unsigned char>(r.below(256));
		std::uint64_t at = static_cast<std::uint64_t>(v)*s.stride & 0xFFFFFFFFu;
		if (at + s.stride <= n*s.stride)
			ok = ok && pwrite(fd, junk.data(), s.stride, static_cast<off_t>(at)) == static_cast<ssize_t>(s.stride);
	}
	for (std::size_t i = 0; i < where.size(); ++i)
		ok = ok && pwrite(fd, s.data.data() + i*s.stride, s.stride, static_cast<off_t>(where[i])*s.stride) == static_cast<ssize_t>(s.stride);
	std::size_t size = static_cast<std::size_t>(n)*s.stride;
	void* p = ok ? mmap(nullptr, size, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0) : MAP_FAILED;
	close(fd);
	if (p == MAP_FAILED)
		return false;
	s.dataBlock.hold.reset(p, [size](void* q) { munmap(q, size); });
	s.dataBlock.external = static_cast<unsigned char*>(p);
	s.vertexCount = static_cast<std::uint32_t>(n);
	s.indexType = IndexType::UInt32;
	for (auto& x : s.indices)
	{
		if (x != restartItem)
			x = where[x];
	}
	s.finishIndices();
	return true;
}

inline const char* indexName(IndexType t)
{
	return t == IndexType::NoIndices ? "none" : (t == IndexType::UInt16 ? "UInt16" : "UInt32");
}

inline std::string describe(const Case& c)
{
	std::string s = fmt("%s patch=%u count=%u out=%s max=%u%s; outputs:", primName(c.prim), c.patch, c.count,
		indexName(c.outIndex), c.maxIndex, c.defaultMax ? "(default)" : "");
	for (auto& o : c.outs)
	{
		s += " [";
		for (auto& e : o)
			s += fmt("%s=%s/t%d<-%d.%d ", e.name.c_str(), ref::name(e.format).c_str(), static_cast<int>(e.transform), e.stream, e.element);
		s += "]";
	}
	if (c.retry >= 0)
		s += fmt("; at first index %u of in%d is out of range", c.retryAt, c.retry);
	for (std::size_t i = 0; i < c.ins.size(); ++i)
	{
		auto& in = c.ins[i];
		s += fmt("; in%zu %s vertices=%u {", i, indexName(in.indexType), in.vertexCount);
		for (auto& e : in.elems)
			s += e.name + "=" + ref::name(e.format) + "@" + std::to_string(e.offset) + " ";
		s += "}";
		if (in.indexType != IndexType::NoIndices)
		{
			s += " idx=";
			for (std::size_t k = 0; k < in.indices.size() && k < 80; ++k)
				s += in.indices[k] == restartItem ? std::string("R,") : std::to_string(in.indices[k]) + ",";
		}
		s += " data=";
		for (std::size_t k = 0; k < in.data.size() && k < 96; ++k)
			s += fmt("%02x", in.data[k]);
	}
	return s;
}

inline std::uint64_t signature(const Case& c)
{
	mon::Fnv h;
	h.val(c.prim);
	h.val(c.patch);
	h.val(c.outIndex);
	h.val(c.maxIndex);
	for (auto& o : c.outs)
	{
		for (auto& e : o)
		{
			h.str(e.name);
			h.val(e.format);
			h.val(e.transform);
		}
	}
	for (auto& s : c.ins)
	{
		h.bytes(s.data.data(), s.data.size());
		h.bytes(s.indices.data(), s.indices.size()*4);
	}
	return h.h;
}

struct Result
{
	bool added = true, ok = false;
	std::vector<std::string> errors;
	std::vector<std::vector<std::uint8_t>> verts;
	struct Buf
	{
		IndexType type;
		std::int64_t base;
		const void* data;
		std::vector<std::uint32_t> idx; // raw values
	};
	std::vector<Buf> bufs;
	std::uint32_t vertexCount = 0;
	std::vector<std::vector<std::pair<VertexValue, VertexValue>>> bounds;
};

// Owner of a converter, kept alive while the result's pointers are inspected.
struct Conversion
{
	std::unique_ptr<Converter> conv;
	Result res;
};

inline std::unique_ptr<Converter> construct(const Case& c, const Converter::ErrorFunction& ef)
{
	std::unique_ptr<Converter> p;
	if (c.outs.size() == 1 && c.ctorVariant == 0)
	{
		if (c.defaultMax)
			p.reset(new Converter(makeFormat(c.outs[0]), c.outIndex, c.prim, c.patch, ef));
		else
			p.reset(new Converter(makeFormat(c.outs[0]), c.outIndex, c.prim, c.patch, c.maxIndex, ef));
	}
	else
	{
		std::vector<VertexFormat> f;
		for (auto& o : c.outs)
			f.push_back(makeFormat(o));
		if (c.defaultMax)
			p.reset(new Converter(std::move(f), c.outIndex, c.prim, c.patch, ef));
		else
			p.reset(new Converter(std::move(f), c.outIndex, c.prim, c.patch, c.maxIndex, ef));
	}
	return p;
}

inline void setTransforms(Converter& cv, const Case& c)
{
	for (std::size_t i = 0; i < c.outs.size(); ++i)
	{
		for (std::size_t j = 0; j < c.outs[i].size(); ++j)
		{
			if (c.transformsByName)
			{
				if (!cv.setElementTransform(c.outs[i][j].name, c.outs[i][j].transform))
					mon::fail("setup", "setElementTransform doesn't find " + c.outs[i][j].name);
			}
			else
				cv.setElementTransform(i, j, c.outs[i][j].transform);
		}
	}
}

inline Conversion convert(const Case& c)
{
	Conversion k;
	auto errs = std::make_shared<std::vector<std::string>>();
	Converter::ErrorFunction ef = [errs](const char* m) { errs->push_back(m ? m : "(null)"); };
	k.conv = construct(c, ef);
	Converter& cv = *k.conv;
	Result& r = k.res;
	if (!cv.isValid())
	{
		r.added = false;
		r.errors = *errs;
		return k;
	}
	if (c.transformsFirst)
		setTransforms(cv, c);
	for (std::size_t i : c.addOrder)
	{
		const InStream& s = c.ins[i];
		VertexFormat f = makeFormat(s.elems);
		bool ok;
		if (s.indexType == IndexType::NoIndices)
			ok = cv.addVertexStream(std::move(f), s.dataBlock.data(), s.vertexCount);
		else
			ok = cv.addVertexStream(std::move(f), s.dataBlock.data(), s.vertexCount, s.indexType,
				s.indexBlock.data(), c.count);
		if (!ok)
		{
			r.added = false;
			r.errors = *errs;
			return k;
		}
	}
	if (!c.transformsFirst)
		setTransforms(cv, c);
	if (c.retry >= 0)
	{
		// Other values and an index out of range at first. None of that may leave a trace.
		std::vector<std::vector<unsigned char>> saved;
		Rng rr(c.retrySeed);
		const InStream& broken = c.ins[static_cast<std::size_t>(c.retry)];
		for (auto& s : c.ins)
		{
			auto* d = static_cast<unsigned char*>(const_cast<void*>(s.dataBlock.data()));
			saved.emplace_back(d, d + s.dataBlock.size);
			for (std::size_t i = 0; i < s.dataBlock.size; ++i)
				d[i] = static_cast<unsigned char>(rr.below(256));
		}
		auto* x = static_cast<unsigned char*>(const_cast<void*>(broken.indexBlock.data()));
		std::vector<unsigned char> savedIndices(x, x + broken.indexBlock.size);
		std::size_t size = broken.indexType == IndexType::UInt16 ? 2 : 4;
		std::uint32_t bad = broken.indexType == IndexType::UInt16 ? 0xFFFEu : 0xFFFFFFFEu;
		memcpy(x + c.retryAt*size, &bad, size);
		bool first = cv.convert();
		if (first || cv.convert())
			mon::fail("hostile-accepted", "convert() accepted an index out of range");
		if (errs->size() < 2)
			mon::fail("no-message", "convert() failed without a message");
		for (std::size_t i = 0; i < c.ins.size(); ++i)
			std::copy(saved[i].begin(), saved[i].end(), static_cast<unsigned char*>(const_cast<void*>(c.ins[i].dataBlock.data())));
		std::copy(savedIndices.begin(), savedIndices.end(), x);
		errs->clear();
	}
	r.ok = cv.convert();
	r.errors = *errs;
	r.verts = cv.getVertices();
	r.vertexCount = cv.getVertexCount();
	for (auto& d : cv.getIndices())
	{
		Result::Buf b{d.type, d.baseVertex, d.data, {}};
		if (d.count && !d.data)
			mon::fail("index-data-null", "index buffer with a count but no data");
		for (std::uint32_t i = 0; i < d.count; ++i)
		{
			if (d.type == IndexType::UInt16)
			{
				std::uint16_t v;
				memcpy(&v, static_cast<const char*>(d.data) + i*std::size_t(2), 2);
				b.idx.push_back(v);
			}
			else
			{
				std::uint32_t v;
				memcpy(&v, static_cast<const char*>(d.data) + i*std::size_t(4), 4);
				b.idx.push_back(v);
			}
		}
		r.bufs.push_back(std::move(b));
	}
	for (std::size_t i = 0; i < c.outs.size(); ++i)
	{
		r.bounds.emplace_back();
		for (std::size_t j = 0; j < c.outs[i].size(); ++j)
		{
			VertexValue mn, mx;
			cv.getVertexElementBounds(mn, mx, i, j);
			r.bounds.back().emplace_back(mn, mx);
		}
	}
	return k;
}

inline bool isRestartAt(const Case& c, std::uint32_t p)
{
	if (!restartable(c.prim))
		return false;
	for (auto& s : c.ins)
	{
		if (s.used && s.indexType != IndexType::NoIndices && s.indices[p] == restartItem)
			return true;
	}
	return false;
}

// One drawn primitive.
struct Prim
{
	std::uint32_t first;   // index into the flat vertex list
	std::uint32_t segment; // number of the strip within its buffer
	std::uint32_t local;   // number of the primitive within the strip
	std::uint32_t buffer;
	bool flip;             // strip triangle drawn with the first two vertices exchanged
};

struct Drawing
{
	unsigned k = 0;
	std::vector<std::uint32_t> flat; // raw order of the vertices in each primitive
	std::vector<Prim> prims;
	std::vector<std::vector<std::vector<std::uint32_t>>> segments; // [buffer][segment] vertices
};

inline void draw(Drawing& d, const std::vector<std::uint32_t>& items, PrimitiveType prim, unsigned patch,
	std::uint32_t buffer)
{
	unsigned k = primVerts(prim, patch);
	d.k = k;
	d.segments.emplace_back();
	auto add = [&](std::initializer_list<std::uint32_t> v, std::uint32_t seg, std::uint32_t local, bool flip)
	{
		d.prims.push_back(Prim{static_cast<std::uint32_t>(d.flat.size()), seg, local, buffer, flip});
		d.flat.insert(d.flat.end(), v);
	};
	if (!restartable(prim))
	{
		for (std::size_t i = 0; i + k <= items.size(); i += k)
		{
			d.prims.push_back(Prim{static_cast<std::uint32_t>(d.flat.size()), 0, static_cast<std::uint32_t>(i/k), buffer, false});
			d.flat.insert(d.flat.end(), items.begin() + static_cast<long>(i), items.begin() + static_cast<long>(i + k));
		}
		return;
	}
	std::vector<std::uint32_t> seg;
	std::uint32_t segNo = 0;
	auto flush = [&]
	{
		auto n = static_cast<std::uint32_t>(seg.size());
		switch (prim)
		{
			case PrimitiveType::LineStrip:
				for (std::uint32_t i = 0; i + 1 < n; ++i)
					add({seg[i], seg[i + 1]}, segNo, i, false);
				break;
			case PrimitiveType::TriangleStrip:
				for (std::uint32_t i = 0; i + 2 < n; ++i)
					add({seg[i], seg[i + 1], seg[i + 2]}, segNo, i, (i & 1) != 0);
				break;
			default:
				for (std::uint32_t i = 0; i + 2 < n; ++i)
					add({seg[0], seg[i + 1], seg[i + 2]}, segNo, i, false);
				break;
		}
		d.segments.back().push_back(seg);
		seg.clear();
		++segNo;
	};
	for (std::uint32_t it : items)
	{
		if (it == restartItem)
			flush();
		else
			seg.push_back(it);
	}
	flush();
}

inline Drawing drawInput(const Case& c)
{
	Drawing d;
	std::vector<std::uint32_t> items(c.count);
	for (std::uint32_t p = 0; p < c.count; ++p)
		items[p] = isRestartAt(c, p) ? restartItem : p;
	draw(d, items, c.prim, c.patch, 0);
	return d;
}

inline Drawing drawOutput(const Case& c, const Result& r)
{
	Drawing d;
	if (c.outIndex == IndexType::NoIndices)
	{
		std::vector<std::uint32_t> items(r.vertexCount);
		for (std::uint32_t i = 0; i < r.vertexCount; ++i)
			items[i] = i;
		draw(d, items, c.prim, c.patch, 0);
		return d;
	}
	for (std::size_t b = 0; b < r.bufs.size(); ++b)
	{
		std::vector<std::uint32_t> items;
		std::uint32_t rv = r.bufs[b].type == IndexType::UInt16 ? 0xFFFFu : 0xFFFFFFFFu;
		for (std::uint32_t v : r.bufs[b].idx)
		{
			if (restartable(c.prim) && v == rv)
				items.push_back(restartItem);
			else
			{
				std::int64_t g = r.bufs[b].base + static_cast<std::int64_t>(v);
				if (g < 0 || g >= static_cast<std::int64_t>(r.vertexCount))
					mon::fail("index-out-of-range", fmt("index %u + base %lld addresses no vertex (%u vertices)", v,
						static_cast<long long>(r.bufs[b].base), r.vertexCount));
				items.push_back(static_cast<std::uint32_t>(g));
			}
		}
		draw(d, items, c.prim, c.patch, static_cast<std::uint32_t>(b));
	}
	return d;
}

inline std::string outVertex(const Case& c, const Result& r, std::uint32_t v)
{
	std::string s;
	for (std::size_t i = 0; i < c.outs.size(); ++i)
	{
		std::size_t stride = 0;
		for (auto& e : c.outs[i])
			stride += static_cast<std::size_t>(ref::info(e.format.layout).size);
		if (i >= r.verts.size() || r.verts[i].size() < (v + std::size_t(1))*stride)
			mon::fail("vertex-data-short", fmt("output stream %zu too short for vertex %u", i, v));
		s.append(reinterpret_cast<const char*>(r.verts[i].data()) + v*stride, stride);
	}
	return s;
}

// Expected bytes of a position, through the library's own codec (whose correctness is C08/C09's).
inline std::string expectedVertex(const Case& c, const Result& r, std::uint32_t p)
{
	std::string s;
	for (std::size_t i = 0; i < c.outs.size(); ++i)
	{
		for (std::size_t j = 0; j < c.outs[i].size(); ++j)
		{
			const OutElem& o = c.outs[i][j];
			const InStream& in = c.ins[static_cast<std::size_t>(o.stream)];
			const InElem& e = in.elems[static_cast<std::size_t>(o.element)];
			std::uint32_t idx = in.indexAt(p);
			unsigned char tmp[64], src[64];
			memcpy(src, in.vertexAt(idx) + e.offset,
				static_cast<std::size_t>(ref::info(e.format.layout).size));
			VertexValue v;
			v.fromData(src, e.format.layout, e.format.type);
			switch (o.transform)
			{
				case Transform::UNormToSNorm:
					for (unsigned m = 0; m < 4; ++m)
						v[m] = v[m]*2 - 1.0;
					v.toData(tmp, o.format.layout, o.format.type);
					break;
				case Transform::SNormToUNorm:
					for (unsigned m = 0; m < 4; ++m)
						v[m] = v[m]*0.5 + 0.5;
					v.toData(tmp, o.format.layout, o.format.type);
					break;
				case Transform::Bounds:
					v.toData(tmp, o.format.layout, o.format.type, r.bounds[i][j].first, r.bounds[i][j].second);
					break;
				default:
					v.toData(tmp, o.format.layout, o.format.type);
					break;
			}
			s.append(reinterpret_cast<char*>(tmp), static_cast<std::size_t>(ref::info(o.format.layout).size));
		}
	}
	return s;
}

// Classes of byte-identical vertices, so that vertices can be compared as integers.
struct Classes
{
	std::unordered_map<std::string, std::uint32_t> ids;
	std::vector<std::uint32_t> in;  // class of each position
	std::vector<std::uint32_t> out; // class of each output vertex
	std::uint32_t get(const std::string& s)
	{
		return ids.emplace(s, static_cast<std::uint32_t>(ids.size())).first->second;
	}
};

inline Classes classify(const Case& c, const Result& r)
{
	Classes k;
	k.in.assign(c.count, 0xFFFFFFFFu);
	for (std::uint32_t p = 0; p < c.count; ++p)
	{
		if (!isRestartAt(c, p))
			k.in[p] = k.get(expectedVertex(c, r, p));
	}
	for (std::uint32_t v = 0; v < r.vertexCount; ++v)
		k.out.push_back(k.get(outVertex(c, r, v)));
	return k;
}

} // namespace mesh
