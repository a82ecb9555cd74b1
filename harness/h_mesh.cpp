// Monitors of conversions: C01 - C07, C15, and the mesh part of C16.
#include "mesh.h"

using namespace mesh;
using mon::fail;

static mon::Run run;

namespace
{

std::string join(const std::vector<std::string>& v)
{
	std::string s;
	for (auto& x : v)
		s += x + "; ";
	return s;
}

void requireConverted(const Conversion& k)
{
	if (!k.res.added)
		fail("valid-input-refused", "construction or addVertexStream refused valid input: " + join(k.res.errors));
	if (!k.res.ok)
		fail("valid-input-refused", "convert() refused valid input: " + join(k.res.errors));
}

void observe(const Case& c, const Result& r)
{
	run.count("conversions");
	run.count("input indices", c.count);
	run.count("output vertices", r.vertexCount);
	run.count(std::string("primitive type ") + primName(c.prim));
	run.count(std::string("output index type ") + indexName(c.outIndex));
	if (r.bufs.size() > 1)
		run.count("conversions split over several index buffers");
	run.count("index buffers", r.bufs.size());
	std::uint32_t restarts = 0, kinds = 0;
	for (std::uint32_t p = 0; p < c.count; ++p)
		restarts += isRestartAt(c, p);
	for (auto& s : c.ins)
		kinds |= 1U << static_cast<int>(s.indexType);
	if (restarts)
		run.count("conversions with primitive restarts");
	if (kinds & (kinds - 1))
		run.count("conversions mixing input index types");
	if (c.large)
		run.count("conversions beyond 65536 vertices");
	if (c.count)
		run.nontrivial(signature(c));
}

struct Lists
{
	Drawing a, b;
	std::vector<std::uint32_t> ia, ib; // primitives compared, degenerate strip triangles dropped
};

bool degenerate(const std::vector<std::uint32_t>& cls, const Drawing& d, const Prim& p)
{
	std::uint32_t x = cls[d.flat[p.first]], y = cls[d.flat[p.first + 1]], z = cls[d.flat[p.first + 2]];
	return x == y || y == z || x == z;
}

Lists align(const Case& c, const Result& r, const Classes& cl)
{
	Lists l;
	l.a = drawInput(c);
	l.b = drawOutput(c, r);
	bool strip = c.prim == PrimitiveType::TriangleStrip;
	for (std::uint32_t i = 0; i < l.a.prims.size(); ++i)
	{
		if (!strip || !degenerate(cl.in, l.a, l.a.prims[i]))
			l.ia.push_back(i);
	}
	for (std::uint32_t i = 0; i < l.b.prims.size(); ++i)
	{
		if (!strip || !degenerate(cl.out, l.b, l.b.prims[i]))
			l.ib.push_back(i);
	}
	return l;
}

std::string primText(const std::vector<std::uint32_t>& cls, const Drawing& d, const Prim& p)
{
	std::string s = "(";
	for (unsigned m = 0; m < d.k; ++m)
		s += fmt("%s#%u=class%u", m ? " " : "", d.flat[p.first + m], cls[d.flat[p.first + m]]);
	return s + ")";
}

void checkPrimitives(const Case& c, const Result& r)
{
	Classes cl = classify(c, r);
	Lists l = align(c, r, cl);
	run.count("primitives compared", l.ia.size());
	std::size_t n = std::min(l.ia.size(), l.ib.size());
	for (std::size_t i = 0; i < n; ++i)
	{
		const Prim& p = l.a.prims[l.ia[i]];
		const Prim& q = l.b.prims[l.ib[i]];
		std::vector<std::uint32_t> x, y;
		for (unsigned m = 0; m < l.a.k; ++m)
		{
			x.push_back(cl.in[l.a.flat[p.first + m]]);
			y.push_back(cl.out[l.b.flat[q.first + m]]);
		}
		if (c.prim == PrimitiveType::TriangleStrip)
		{
			std::sort(x.begin(), x.end());
			std::sort(y.begin(), y.end());
		}
		if (x != y)
			fail("primitive-differs", fmt("primitive %zu: input ", i) + primText(cl.in, l.a, p) + " output " +
				primText(cl.out, l.b, q) + fmt(" in buffer %u", q.buffer));
	}
	if (l.ia.size() != l.ib.size())
		fail("primitive-count", fmt("%zu primitives in, %zu out", l.ia.size(), l.ib.size()));
}

void checkWinding(const Case& c, const Result& r)
{
	Classes cl = classify(c, r);
	Lists l = align(c, r, cl);
	if (l.ia.size() != l.ib.size())
		fail("primitive-count", fmt("%zu primitives in, %zu out", l.ia.size(), l.ib.size()));
	for (std::size_t i = 0; i < l.ia.size(); ++i)
	{
		const Prim& p = l.a.prims[l.ia[i]];
		const Prim& q = l.b.prims[l.ib[i]];
		std::vector<std::uint32_t> x, y;
		for (unsigned m = 0; m < l.a.k; ++m)
		{
			x.push_back(cl.in[l.a.flat[p.first + m]]);
			y.push_back(cl.out[l.b.flat[q.first + m]]);
		}
		if (c.prim != PrimitiveType::TriangleStrip)
		{
			run.count("primitives with exact vertex order");
			if (x != y)
				fail("order-differs", fmt("primitive %zu: input ", i) + primText(cl.in, l.a, p) + " output " +
					primText(cl.out, l.b, q));
			continue;
		}
		run.count("strip triangles oriented");
		if (p.flip)
			std::swap(x[0], x[1]);
		if (q.flip)
			std::swap(y[0], y[1]);
		bool same = false;
		for (int rot = 0; rot < 3 && !same; ++rot)
		{
			same = x == y;
			std::rotate(y.begin(), y.begin() + 1, y.end());
		}
		if (same)
		{
			if (q.buffer > 0 && q.segment == 0)
				run.count("continued strip triangles with right winding");
			continue;
		}
		// The recorded defect: a strip that continues at an odd triangle in another buffer, in natural
		// order, is drawn with the opposite winding.
		bool recorded = q.buffer > 0 && q.segment == 0 && p.local >= q.local && ((p.local - q.local) & 1);
		if (recorded)
		{
			const auto& si = l.a.segments[p.buffer][p.segment];
			const auto& so = l.b.segments[q.buffer][q.segment];
			for (std::uint32_t v = 0; v < q.local + 3 && recorded; ++v)
				recorded = cl.in[si[p.local - q.local + v]] == cl.out[so[v]];
		}
		if (recorded)
		{
			run.knownFinding("strip-odd-continuation-flipped", "triangle strip continued in a new index buffer "
				"at an odd triangle of the input strip is drawn with the opposite winding");
			continue;
		}
		fail("winding", fmt("triangle %zu (no. %u of its strip) is ", i, p.local) + primText(cl.out, l.b, q) +
			fmt("%s in buffer %u strip %u no. %u, input ", q.flip ? " flipped" : "", q.buffer, q.segment, q.local) +
			primText(cl.in, l.a, p));
	}
}

void checkDedup(const Case& c, const Result& r)
{
	Classes cl = classify(c, r);
	if (c.outIndex == IndexType::NoIndices)
	{
		if (!r.bufs.empty())
			fail("unexpected-indices", "index buffers without an index type");
		if (r.vertexCount != c.count)
			fail("vertex-count", fmt("%u vertices for %u positions without indices", r.vertexCount, c.count));
		for (std::uint32_t p = 0; p < c.count; ++p)
		{
			if (cl.in[p] != cl.out[p])
				fail("vertex-order", fmt("vertex %u differs from position %u without indices", p, p));
		}
		run.count("unindexed vertices in order", c.count);
		return;
	}
	std::unordered_set<std::uint32_t> expected;
	for (std::uint32_t p = 0; p < c.count; ++p)
	{
		if (!isRestartAt(c, p))
			expected.insert(cl.in[p]);
	}
	for (std::size_t b = 0; b < r.bufs.size(); ++b)
	{
		std::int64_t begin = r.bufs[b].base;
		std::int64_t end = b + 1 < r.bufs.size() ? r.bufs[b + 1].base : r.vertexCount;
		if (begin < 0 || end > r.vertexCount)
			fail("range", "base vertex outside the vertices");
		std::unordered_map<std::uint32_t, std::int64_t> seen;
		for (std::int64_t v = begin; v < end; ++v)
		{
			auto it = seen.emplace(cl.out[static_cast<std::size_t>(v)], v);
			if (!it.second)
				fail("duplicate-vertex", fmt("vertices %lld and %lld of buffer %zu are identical",
					static_cast<long long>(it.first->second), static_cast<long long>(v), b));
			if (!expected.count(cl.out[static_cast<std::size_t>(v)]))
				fail("invented-vertex", fmt("vertex %lld is no input vertex", static_cast<long long>(v)));
		}
		run.count("vertices distinct in their range", static_cast<std::uint64_t>(std::max<std::int64_t>(0, end - begin)));
		std::uint32_t next = 0;
		std::uint32_t rv = r.bufs[b].type == IndexType::UInt16 ? 0xFFFFu : 0xFFFFFFFFu;
		for (std::uint32_t v : r.bufs[b].idx)
		{
			if (restartable(c.prim) && v == rv)
				continue;
			if (v > next)
				fail("first-use-order", fmt("index %u of buffer %zu used before %u", v, b, next));
			if (v == next)
				++next;
			else
				run.count("reused indices");
		}
	}
	if (r.bufs.size() == 1 && r.vertexCount != expected.size())
		fail("vertex-count", fmt("%u vertices, %zu distinct ones in the input", r.vertexCount, expected.size()));
	if (r.vertexCount < expected.size())
		fail("merged-vertices", fmt("%u vertices, %zu distinct ones in the input", r.vertexCount, expected.size()));
	checkPrimitives(c, r);
}

void checkStructure(const Case& c, const Conversion& k)
{
	const Result& r = k.res;
	for (std::size_t i = 0; i < c.outs.size(); ++i)
	{
		std::size_t stride = 0;
		for (auto& e : c.outs[i])
			stride += static_cast<std::size_t>(ref::info(e.format.layout).size);
		if (i >= r.verts.size() || r.verts.size() != c.outs.size())
			fail("stream-count", fmt("%zu output streams instead of %zu", r.verts.size(), c.outs.size()));
		if (r.verts[i].size() != stride*r.vertexCount)
			fail("stream-size", fmt("stream %zu has %zu bytes, %u vertices of %zu", i, r.verts[i].size(), r.vertexCount, stride));
	}
	if (c.outIndex == IndexType::NoIndices)
	{
		if (!r.bufs.empty())
			fail("unexpected-indices", "index buffers without an index type");
		return;
	}
	if (r.bufs.empty())
		fail("no-index-buffer", "no index buffer");
	unsigned size = c.outIndex == IndexType::UInt16 ? 2 : 4;
	std::uint32_t rv = c.outIndex == IndexType::UInt16 ? 0xFFFFu : 0xFFFFFFFFu;
	bool rs = restartable(c.prim);
	std::uint32_t effMax = rs && c.maxIndex == rv ? rv - 1 : c.maxIndex;
	unsigned stride = primStride(c.prim, c.patch);
	std::uint32_t total = 0;
	std::vector<std::pair<std::uintptr_t, std::uintptr_t>> spans;
	for (std::size_t b = 0; b < r.bufs.size(); ++b)
	{
		const auto& u = r.bufs[b];
		if (u.type != c.outIndex)
			fail("index-type", fmt("buffer %zu has the wrong index type", b));
		if (u.base < 0 || (b == 0 && u.base != 0) || (b > 0 && u.base <= r.bufs[b - 1].base))
			fail("base-vertex", fmt("base vertex %lld of buffer %zu", static_cast<long long>(u.base), b));
		std::int64_t end = b + 1 < r.bufs.size() ? r.bufs[b + 1].base : r.vertexCount;
		if (end > r.vertexCount)
			fail("base-vertex", fmt("base vertex %lld after buffer %zu beyond %u vertices", static_cast<long long>(end), b, r.vertexCount));
		auto p = reinterpret_cast<std::uintptr_t>(u.data);
		if (!u.idx.empty())
		{
			if (p % size)
				fail("misaligned", fmt("data of buffer %zu is misaligned", b));
			spans.emplace_back(p, p + u.idx.size()*size);
		}
		if (!rs && u.idx.size() % stride)
			fail("partial-primitive", fmt("%zu indices in buffer %zu", u.idx.size(), b));
		for (std::uint32_t v : u.idx)
		{
			run.count("indices checked");
			if (rs && v == rv)
				continue;
			if (v > effMax)
				fail("above-max", fmt("index %u above the maximum %u", v, effMax));
			if (u.base + v >= end)
				fail("outside-range", fmt("index %u of buffer %zu addresses vertex %lld, range ends at %lld", v, b,
					static_cast<long long>(u.base + v), static_cast<long long>(end)));
		}
		if (b + 1 < r.bufs.size())
		{
			std::uint64_t range = static_cast<std::uint64_t>(end - u.base);
			run.count("splits checked for necessity");
			if (range + stride - 1 <= effMax)
				fail("needless-split", fmt("buffer %zu split with %llu vertices, maximum index %u, stride %u", b,
					static_cast<unsigned long long>(range), effMax, stride));
		}
		total += static_cast<std::uint32_t>(u.idx.size());
	}
	(void)total;
	std::sort(spans.begin(), spans.end());
	for (std::size_t i = 1; i < spans.size(); ++i)
	{
		if (spans[i].first < spans[i - 1].second)
			fail("overlap", "index buffers overlap");
	}
}

// ---- values -------------------------------------------------------------------------------

using Pair = std::pair<std::uint32_t, std::uint32_t>; // position, output vertex

// Calls f(positions, vertices) for all corresponding primitives. For strips the order is free.
void eachPair(const Case& c, const Result& r, const std::function<bool(std::uint32_t, std::uint32_t)>& same,
	const std::function<void(std::uint32_t, std::uint32_t)>& blame)
{
	if (c.outIndex == IndexType::NoIndices && r.vertexCount == c.count)
	{
		for (std::uint32_t p = 0; p < c.count; ++p)
		{
			if (!same(p, p))
				blame(p, p);
		}
		return;
	}
	Drawing a = drawInput(c), b = drawOutput(c, r);
	std::vector<std::uint32_t> ia, ib;
	if (a.prims.size() == b.prims.size())
	{
		for (std::uint32_t i = 0; i < a.prims.size(); ++i)
		{
			ia.push_back(i);
			ib.push_back(i);
		}
	}
	else
	{
		Lists l = align(c, r, classify(c, r));
		ia = l.ia;
		ib = l.ib;
		if (ia.size() != ib.size())
			fail("primitive-count", fmt("%zu primitives in, %zu out", ia.size(), ib.size()));
	}
	for (std::size_t i = 0; i < ia.size(); ++i)
	{
		const std::uint32_t* x = &a.flat[a.prims[ia[i]].first];
		const std::uint32_t* y = &b.flat[b.prims[ib[i]].first];
		if (c.prim != PrimitiveType::TriangleStrip)
		{
			for (unsigned m = 0; m < a.k; ++m)
			{
				if (!same(x[m], y[m]))
					blame(x[m], y[m]);
			}
			continue;
		}
		int perm[3] = {0, 1, 2};
		bool ok = false;
		do
			ok = same(x[0], y[perm[0]]) && same(x[1], y[perm[1]]) && same(x[2], y[perm[2]]);
		while (!ok && std::next_permutation(perm, perm + 3));
		if (!ok)
		{
			for (unsigned m = 0; m < 3; ++m)
			{
				if (!same(x[m], y[m]))
					blame(x[m], y[m]);
			}
		}
	}
}

std::string judgeSlack(const ref::Vec& x, const std::array<double, 4>& delta, const unsigned char* data,
	const ref::Format& f, unsigned skip)
{
	const ref::Layout& l = ref::info(f.layout);
	if (l.kind == ref::SharedExp)
	{
		std::string first;
		for (int s = -1; s <= 1; ++s)
		{
			ref::Vec y = x;
			for (std::size_t i = 0; i < 4; ++i)
				y[i] += s*delta[i];
			std::string m = ref::judge(y, data, f);
			if (m.empty())
				return "";
			if (s == 0)
				first = m;
		}
		return first;
	}
	for (int i = 0; i < l.count; ++i)
	{
		if (skip & (1U << i))
			continue;
		double v = x[static_cast<std::size_t>(i)], d = delta[static_cast<std::size_t>(i)];
		std::uint64_t code = ref::code(data, l, i);
		if (f.type == ref::ElementType::Float && l.comp[i].bits == 64)
		{
			double got = ref::decodeComp(code, 64, f.type, l.kind);
			bool ok = (std::isnan(v) && std::isnan(got)) || got == v || std::fabs(got - v) <= std::fmax(d, 1e-15*std::fabs(v));
			if (!ok)
				return fmt("component %d: %.17g stored for %.17g", i, got, v);
			continue;
		}
		std::string m = ref::judgeComp(v, code, l.comp[i].bits, f.type, l.kind);
		if (!m.empty() && !(ref::judgeComp(v + d, code, l.comp[i].bits, f.type, l.kind).empty() ||
				ref::judgeComp(v - d, code, l.comp[i].bits, f.type, l.kind).empty()))
			return fmt("component %d: ", i) + m;
	}
	return "";
}

struct Offsets
{
	std::vector<std::vector<std::size_t>> off;
	std::vector<std::size_t> stride;
	explicit Offsets(const Case& c)
	{
		for (auto& o : c.outs)
		{
			off.emplace_back();
			std::size_t s = 0;
			for (auto& e : o)
			{
				off.back().push_back(s);
				s += static_cast<std::size_t>(ref::info(e.format.layout).size);
			}
			stride.push_back(s);
		}
	}
};

ref::Vec inputValue(const Case& c, const OutElem& o, std::uint32_t p)
{
	const InStream& in = c.ins[static_cast<std::size_t>(o.stream)];
	const InElem& e = in.elems[static_cast<std::size_t>(o.element)];
	return ref::decode(in.vertexAt(in.indexAt(p)) + e.offset, e.format);
}

void checkAttributes(const Case& c, const Result& r)
{
	Offsets offs(c);
	auto judgeElem = [&](std::size_t s, std::size_t e, std::uint32_t p, std::uint32_t v) -> std::string
	{
		const OutElem& o = c.outs[s][e];
		const ref::Format inF = c.ins[static_cast<std::size_t>(o.stream)].elems[static_cast<std::size_t>(o.element)].format;
		ref::Vec x = inputValue(c, o, p);
		std::array<double, 4> d{{0, 0, 0, 0}};
		double inErr = inF.type == ref::ElementType::UNorm || inF.type == ref::ElementType::SNorm ? 4e-16 : 0;
		unsigned skip = 0;
		for (std::size_t m = 0; m < 4; ++m)
		{
			d[m] = inErr;
			switch (o.transform)
			{
				case Transform::UNormToSNorm:
					x[m] = x[m]*2 - 1;
					d[m] = inErr*2 + 4e-16*std::fmax(1, std::fabs(x[m]));
					break;
				case Transform::SNormToUNorm:
					x[m] = x[m]/2 + 0.5;
					d[m] = inErr/2 + 4e-16*std::fmax(1, std::fabs(x[m]));
					break;
				case Transform::Bounds:
					if (o.format.type == ref::ElementType::UNorm || o.format.type == ref::ElementType::SNorm)
					{
						double lo = r.bounds[s][e].first[static_cast<unsigned>(m)], hi = r.bounds[s][e].second[static_cast<unsigned>(m)];
						double range = hi - lo;
						if (!(range > 2.3e-16) || std::isinf(range) || std::isnan(x[m]))
						{
							skip |= 1U << m;
							break;
						}
						d[m] = 1e-15 + (inErr + 4e-16*std::fmax(std::fabs(x[m]), std::fabs(lo)))/range;
						x[m] = (x[m] - lo)/range;
						if (o.format.type == ref::ElementType::SNorm)
						{
							x[m] = x[m]*2 - 1;
							d[m] *= 2;
						}
					}
					break;
				default:
					break;
			}
			if (!std::isfinite(d[m]))
				d[m] = 0;
		}
		return judgeSlack(x, d, r.verts[s].data() + v*offs.stride[s] + offs.off[s][e], o.format, skip);
	};
	std::map<Pair, bool> memo;
	auto same = [&](std::uint32_t p, std::uint32_t v)
	{
		auto it = memo.find(Pair(p, v));
		if (it != memo.end())
			return it->second;
		bool ok = true;
		for (std::size_t s = 0; s < c.outs.size() && ok; ++s)
		{
			for (std::size_t e = 0; e < c.outs[s].size() && ok; ++e)
				ok = judgeElem(s, e, p, v).empty();
		}
		memo[Pair(p, v)] = ok;
		return ok;
	};
	auto blame = [&](std::uint32_t p, std::uint32_t v)
	{
		for (std::size_t s = 0; s < c.outs.size(); ++s)
		{
			for (std::size_t e = 0; e < c.outs[s].size(); ++e)
			{
				std::string m = judgeElem(s, e, p, v);
				if (!m.empty())
					fail("attribute", fmt("position %u, output vertex %u, stream %zu element %zu: ", p, v, s, e) + m);
			}
		}
	};
	eachPair(c, r, same, blame);
	for (auto& m : memo)
	{
		(void)m;
		for (auto& s : c.outs)
		{
			for (auto& e : s)
				run.count(fmt("attribute values judged, transform %d", static_cast<int>(e.transform)));
		}
	}
}

VertexValue libraryValue(const Case& c, const OutElem& o, std::uint32_t p)
{
	const InStream& in = c.ins[static_cast<std::size_t>(o.stream)];
	const InElem& e = in.elems[static_cast<std::size_t>(o.element)];
	unsigned char src[64];
	memcpy(src, in.vertexAt(in.indexAt(p)) + e.offset,
		static_cast<std::size_t>(ref::info(e.format.layout).size));
	VertexValue v;
	v.fromData(src, e.format.layout, e.format.type);
	return v;
}

void checkBounds(const Case& c, const Conversion& k)
{
	const Result& r = k.res;
	for (std::size_t s = 0; s < c.outs.size(); ++s)
	{
		for (std::size_t e = 0; e < c.outs[s].size(); ++e)
		{
			const OutElem& o = c.outs[s][e];
			const InStream& in = c.ins[static_cast<std::size_t>(o.stream)];
			VertexValue nmin, nmax;
			if (!k.conv->getVertexElementBounds(nmin, nmax, o.name))
				fail("bounds-lookup", "no bounds found for element " + o.name);
			for (unsigned m = 0; m < 4; ++m)
			{
				const double inf = std::numeric_limits<double>::infinity();
				double lo[2] = {inf, inf}, hi[2] = {-inf, -inf};
				bool any[2] = {false, false};
				std::uint32_t nans = 0;
				for (std::uint32_t p = 0; p < c.count; ++p)
				{
					if (in.indexType != IndexType::NoIndices && restartable(c.prim) && in.indices[p] == restartItem)
						continue;
					double v = libraryValue(c, o, p)[m];
					double rv = inputValue(c, o, p)[m];
					if (!ref::sameValue(v, rv, ref::ElementType::UNorm) && !(std::isinf(v) && v == rv) &&
						!(std::fabs(v - rv) <= 1e-15*std::fabs(rv)))
						fail("decoded-value", fmt("position %u component %u decodes to %.17g instead of %.17g", p, m, v, rv));
					if (std::isnan(v))
					{
						++nans;
						continue;
					}
					for (int w = 0; w < 2; ++w)
					{
						if (w == 1 && isRestartAt(c, p))
							continue;
						any[w] = true;
						lo[w] = std::min(lo[w], v);
						hi[w] = std::max(hi[w], v);
					}
				}
				if (nans)
					run.count("components with NaN values");
				double gl = r.bounds[s][e].first[m], gh = r.bounds[s][e].second[m];
				if (memcmp(&nmin[m], &gl, 8) || memcmp(&nmax[m], &gh, 8))
					fail("bounds-lookup", "bounds by name and by position differ for " + o.name);
				if (!any[0])
					continue;
				run.count("bounds compared");
				bool ok = false;
				for (int w = 0; w < 2; ++w)
					ok = ok || (any[w] && gl == lo[w] && gh == hi[w]) || (!any[w] && gl > gh);
				// Infinities don't replace the finite values the bounds start from.
				const double big = std::numeric_limits<double>::max();
				auto reported = [&](int w) {
					return any[w] && gl == std::min(lo[w], big) && gh == std::max(hi[w], -big);
				};
				if (!ok && (reported(0) || reported(1)))
					run.knownFinding("bounds-of-only-infinities", "component with only infinities has a bound of the "
						"largest finite double");
				else if (!ok)
					fail("bounds", fmt("stream %zu element %zu component %u: bounds [%.17g, %.17g] reported, "
						"[%.17g, %.17g] referenced", s, e, m, gl, gh, lo[0], hi[0]));
			}
		}
	}
	VertexValue a(7, 7, 7, 7), b(7, 7, 7, 7);
	if (k.conv->getVertexElementBounds(a, b, "no such element at all"))
		fail("bounds-lookup", "bounds of an element that doesn't exist");
}

void checkInvertible(const Case& c, const Result& r)
{
	Offsets offs(c);
	// value -> codes seen, for the order
	struct Seen
	{
		std::map<double, std::pair<long double, long double>> codes;
	};
	std::map<std::tuple<std::size_t, std::size_t, int>, Seen> order;
	auto judgeElem = [&](std::size_t s, std::size_t e, std::uint32_t p, std::uint32_t v, bool record) -> std::string
	{
		const OutElem& o = c.outs[s][e];
		if (o.transform != Transform::Bounds)
			return "";
		const ref::Layout& l = ref::info(o.format.layout);
		const unsigned char* data = r.verts[s].data() + v*offs.stride[s] + offs.off[s][e];
		VertexValue x = libraryValue(c, o, p);
		bool snorm = o.format.type == ref::ElementType::SNorm;
		if (!snorm && o.format.type != ref::ElementType::UNorm)
		{
			unsigned char want[64];
			x.toData(want, o.format.layout, o.format.type);
			if (memcmp(want, data, static_cast<std::size_t>(l.size)) != 0)
				return "Bounds changes a value of a type that isn't normalized";
			if (record)
				run.count("values left alone for types that aren't normalized");
			return "";
		}
		for (int i = 0; i < l.count; ++i)
		{
			auto ui = static_cast<unsigned>(i);
			double lo = r.bounds[s][e].first[ui], hi = r.bounds[s][e].second[ui];
			double range = hi - lo, val = x[ui];
			if (!(range > 2.3e-16) || !std::isfinite(range) || !std::isfinite(val))
				continue;
			std::uint64_t code = ref::code(data, l, i);
			long double R = static_cast<long double>(ref::maxCode(l.comp[i].bits));
			long double u = snorm ? static_cast<long double>(ref::signExtend(code, l.comp[i].bits)) +
				std::pow(2.0L, l.comp[i].bits - 1) : static_cast<long double>(code);
			long double back = lo + u/R*(static_cast<long double>(hi) - lo);
			long double err = std::fabs(back - val);
			long double tol = 0.5L/R*range*(1 + 1e-9L) + 4e-16L*std::max(std::fabs(lo), std::fabs(hi));
			if (record)
				run.count("values reconstructed from the bounds");
			if (err > tol)
				return fmt("component %d: %.17g comes back as %.17Lg, %.4Lg quanta off (bounds [%.17g, %.17g])", i, val, back,
					err/range*R, lo, hi);
			if (val == lo && u != 0)
				return fmt("component %d: the minimum isn't stored as the smallest code", i);
			if (val == hi && u != R)
				return fmt("component %d: the maximum isn't stored as the largest code", i);
			if (record)
			{
				auto& m = order[std::make_tuple(s, e, i)].codes;
				auto it = m.emplace(val, std::make_pair(u, u));
				it.first->second.first = std::min(it.first->second.first, u);
				it.first->second.second = std::max(it.first->second.second, u);
			}
		}
		return "";
	};
	auto same = [&](std::uint32_t p, std::uint32_t v)
	{
		for (std::size_t s = 0; s < c.outs.size(); ++s)
		{
			for (std::size_t e = 0; e < c.outs[s].size(); ++e)
			{
				if (!judgeElem(s, e, p, v, true).empty())
					return false;
			}
		}
		return true;
	};
	auto blame = [&](std::uint32_t p, std::uint32_t v)
	{
		for (std::size_t s = 0; s < c.outs.size(); ++s)
		{
			for (std::size_t e = 0; e < c.outs[s].size(); ++e)
			{
				std::string m = judgeElem(s, e, p, v, false);
				if (!m.empty())
					fail("bounds-transform", fmt("position %u, output vertex %u, stream %zu element %zu: ", p, v, s, e) + m);
			}
		}
	};
	// Strip triangles are paired by trial, which would spoil the record of the order: use lists only.
	eachPair(c, r, same, blame);
	if (c.prim == PrimitiveType::TriangleStrip)
		return;
	for (auto& kv : order)
	{
		long double last = -1;
		for (auto& m : kv.second.codes)
		{
			if (m.second.first < last)
				fail("bounds-order", "a larger value got a smaller code");
			last = std::max(last, m.second.second);
		}
		run.count("order checks", kv.second.codes.size());
	}
}

// ---- hostile indices ----------------------------------------------------------------------

struct Verdict
{
	bool ok = true;
	std::string why;
};

Verdict predict(const Case& c)
{
	bool rs = restartable(c.prim);
	Verdict v;
	for (std::size_t i = 0; i < c.ins.size(); ++i)
	{
		const InStream& s = c.ins[i];
		if (!s.used || s.indexType == IndexType::NoIndices)
			continue;
		for (std::uint32_t p = 0; p < c.count; ++p)
		{
			std::uint32_t x = s.indices[p];
			std::uint32_t raw = s.indexType == IndexType::UInt16 ? (x & 0xFFFFu) : x;
			std::uint32_t rv = s.indexType == IndexType::UInt16 ? 0xFFFFu : 0xFFFFFFFFu;
			if (rs && raw == rv)
			{
				if (c.outIndex == IndexType::NoIndices)
				{
					v.ok = false;
					v.why = fmt("restart at %u without output indices", p);
					return v;
				}
			}
			else if (raw >= s.vertexCount)
			{
				v.ok = false;
				v.why = fmt("index %u at %u of input stream %zu with %u vertices", raw, p, i, s.vertexCount);
				return v;
			}
		}
	}
	return v;
}

void checkHostile(std::uint64_t index)
{
	Rng r = mon::caseRng(run.seed, 15, index);
	Profile p;
	p.maxCount = 30;
	p.wideChance = 0.03;
	p.pRestart = 0.4;
	auto owner = std::make_shared<Case>(generate(r, p, index));
	Case& c = *owner;
	if (index % 64 == 63)
	{
		// Exactly 65536 vertices with 16-bit indices in a list: 65535 is an ordinary index.
		for (auto& s : c.ins)
		{
			if (s.used && s.indexType == IndexType::UInt16 && !restartable(c.prim))
			{
				s.vertexCount = r.chance(0.5) ? 65536 : 65535;
				s.data.resize(static_cast<std::size_t>(s.vertexCount)*s.stride);
				s.dataBlock.set(s.data.data(), s.data.size(), 0);
				if (c.count)
					s.indices[r.below(c.count)] = 65535;
				s.finishIndices();
				break;
			}
		}
	}
	else if (r.chance(0.02) && makeSparse(c, r))
		run.count("inputs of more than 4 GB");
	int mutations = r.range(0, 2);
	std::vector<std::size_t> indexed;
	for (std::size_t i = 0; i < c.ins.size(); ++i)
	{
		if (c.ins[i].indexType != IndexType::NoIndices)
			indexed.push_back(i);
	}
	if (c.outIndex != IndexType::NoIndices && r.chance(0.1))
	{
		c.outIndex = IndexType::NoIndices;
		c.maxIndex = 0;
		c.defaultMax = false;
	}
	for (int m = 0; m < mutations && !indexed.empty() && c.count; ++m)
	{
		InStream& s = c.ins[indexed[r.below(indexed.size())]];
		std::uint32_t x;
		switch (r.below(9))
		{
			case 0: x = s.vertexCount; break;
			case 1: x = s.vertexCount + 1; break;
			case 2: x = s.vertexCount - 1; break;
			case 3: x = 0xFFFFu; break;
			case 4: x = 0xFFFEu; break;
			case 5: x = 0xFFFFFFFFu; break;
			case 6: x = 0xFFFFFFFEu; break;
			case 7: x = 0x80000000u; break;
			default: x = s.vertexCount + static_cast<std::uint32_t>(r.below(100000)); break;
		}
		std::uint32_t where = r.chance(0.3) ? c.count - 1 : (r.chance(0.3) ? 0 : static_cast<std::uint32_t>(r.below(c.count)));
		if (s.indexType == IndexType::UInt16)
			x = (x & 0xFFFFu) == 0xFFFFu ? restartItem : (x & 0xFFFFu);
		s.indices[where] = x;
		s.finishIndices();
	}
	// Streams that supply nothing may hold anything.
	run.describe = [owner] { return describe(*owner); };
	Verdict v = predict(c);
	Conversion k = convert(c);
	if (!k.res.added)
		fail("valid-input-refused", "construction or addVertexStream refused valid input: " + join(k.res.errors));
	if (c.count)
		run.nontrivial(signature(c));
	if (v.ok)
	{
		run.count("valid index data converted");
		if (!k.res.ok)
			fail("valid-input-refused", "convert() refused valid index data: " + join(k.res.errors));
		if (!k.res.errors.empty())
			fail("message-on-success", "message although convert() succeeded: " + join(k.res.errors));
		return;
	}
	run.count("hostile index data offered");
	if (k.res.ok)
		fail("hostile-accepted", "convert() accepted " + v.why);
	if (k.res.errors.empty())
		fail("no-message", "convert() failed without a message for " + v.why);
}

Case fixedStrip(unsigned n, std::uint32_t max)
{
	Case c;
	c.prim = PrimitiveType::TriangleStrip;
	c.outIndex = IndexType::UInt16;
	c.maxIndex = max;
	c.count = n;
	OutElem o;
	o.name = "position";
	o.format = ref::Format{ref::ElementLayout::X32, ref::ElementType::UInt};
	o.transform = Transform::Identity;
	o.stream = 0;
	o.element = 0;
	c.outs.push_back({o});
	InStream s;
	s.used = true;
	s.elems.push_back(InElem{"position", o.format, 0});
	s.stride = 4;
	s.vertexCount = n;
	for (std::uint32_t i = 0; i < n; ++i)
	{
		s.data.resize(s.data.size() + 4);
		memcpy(s.data.data() + i*4, &i, 4);
	}
	s.dataBlock.set(s.data.data(), s.data.size(), 0);
	c.ins.push_back(std::move(s));
	c.addOrder.push_back(0);
	return c;
}

void chooseRetry(Case& c, Rng& r)
{
	if (c.large || c.count == 0 || !r.chance(0.08))
		return;
	std::vector<int> fit;
	for (std::size_t i = 0; i < c.ins.size(); ++i)
	{
		const InStream& s = c.ins[i];
		if (s.used && s.indexType != IndexType::NoIndices && s.vertexCount < 0xFFFEu)
			fit.push_back(static_cast<int>(i));
	}
	if (fit.empty())
		return;
	c.retry = fit[r.below(fit.size())];
	c.retryAt = r.chance(0.5) ? c.count - 1 : static_cast<std::uint32_t>(r.below(c.count));
	c.retrySeed = r.next();
}

void body(std::uint64_t i)
{
	const std::string& id = run.check;
	if (id == "C15")
		return checkHostile(i);
	Profile p;
	std::uint64_t salt = static_cast<std::uint64_t>(atoi(id.c_str() + 1));
	if (id == "C01" || id == "C04")
		p.largeEvery = 400;
	if (id == "C02" || id == "C03" || id == "C06" || id == "C07")
		p.largeEvery = 800;
	if (id == "C05")
		p.largeEvery = 3000;
	p.largeBounds = id == "C06" || id == "C07" || (id == "C05" && i & 1);
	if (id == "C02")
		p.strips = true;
	if (id == "C04")
	{
		p.pSmallMax = 0.85;
		p.pNoIndexOut = 0.03;
	}
	if (id == "C05")
	{
		p.maxCount = 24;
		p.wideChance = 0.02;
		p.pOtherTransform = 0.3;
		p.pBounds = 0.15;
	}
	if (id == "C06")
		p.pWeird = 0.25;
	if (id == "C07")
	{
		p.pBounds = 1;
		p.pNormOut = 0.85;
		p.maxCount = 40;
	}
	Rng r = mon::caseRng(run.seed, salt, i);
	bool collide = r.chance(id == "C03" ? 0.1 : 0.01) && !(p.largeEvery && i % static_cast<std::uint64_t>(p.largeEvery) == static_cast<std::uint64_t>(p.largeEvery) - 1);
	auto owner = std::make_shared<Case>(collide ? generateColliding(r) : generate(r, p, i));
	if (collide)
		run.count("meshes of vertices with equal 64-bit MurmurHash2");
	Case& c = *owner;
	if (id == "C02" && i < 8)
		c = fixedStrip(9 + static_cast<unsigned>(i), static_cast<std::uint32_t>(3 + i/2));
	if (r.chance(id == "C05" || id == "C06" ? 0.01 : 0.002) && makeSparse(c, r))
		run.count("inputs of more than 4 GB");
	else
		chooseRetry(c, r);
	run.describe = [owner] { return describe(*owner); };
	Conversion k = convert(c);
	requireConverted(k);
	if (c.retry >= 0)
		run.count("conversions tried again after index data had been refused");
	if (!k.res.errors.empty())
		fail("message-on-success", "message although convert() succeeded: " + join(k.res.errors));
	if (id == "C01")
		checkPrimitives(c, k.res);
	else if (id == "C02")
		checkWinding(c, k.res);
	else if (id == "C03")
		checkDedup(c, k.res);
	else if (id == "C04")
		checkStructure(c, k);
	else if (id == "C05")
		checkAttributes(c, k.res);
	else if (id == "C06")
		checkBounds(c, k);
	else if (id == "C07")
		checkInvertible(c, k.res);
	else if (id == "C16")
	{
		// Only memory safety counts here; use what came out.
		drawOutput(c, k.res);
	}
	else
		fail("setup", "unknown check " + id);
	observe(c, k.res);
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	return run.loop(body);
}
