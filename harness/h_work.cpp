// C27: the work and memory of conversions and of the tool's helpers grow in proportion to the data. The same kind of input is
// processed at a small and a large size, and the counted work is compared; time plays no part.
#include "mesh.h"
#include "workcount.h"
#include "Base64.h"
#include "ConfigFile.h"
#include "ResultFile.h"
#include <fcntl.h>
#include <sstream>
#include <sys/stat.h>

extern "C" int vfcToolMain(int argc, const char** argv);

using namespace mesh;
using vfc::ElementLayout;
using vfc::ElementType;
using mon::fail;

namespace
{

mon::Run run;

struct Cost
{
	WorkCount w;
	std::uint64_t units; // bytes or indices processed
	double work() const { return static_cast<double>(w.blocks) + static_cast<double>(w.bytes)/16; }
	double memory() const { return static_cast<double>(w.peak); }
};

struct Shape
{
	int kind; // what is measured
	PrimitiveType prim;
	unsigned patch;
	IndexType outIndex;
	std::vector<IndexType> inIndex;
	int pattern;
	int locality;
	int elements, streams, outStreams;
	int limit; // largest index: 0 default, 1 small, 2 a part of the vertices
	double restarts;
	bool padding, transform;
	std::uint64_t seed;
	std::string describe() const
	{
		static const char* kinds[] = {"conversion", "conversion", "conversion", "conversion", "conversion", "base64 encoding", "base64 decoding", "configuration", "result document", "tool"};
		static const char* patterns[] = {"grid", "counter in the first element", "counter in the last element", "random", "one vertex repeated", "few vertices repeated",
			"same data in every stream", "large powers of two", "high bits only"};
		static const char* localities[] = {"sequential", "random", "repeating window", "backwards"};
		std::string s = kinds[kind];
		if (kind < 5)
			s += fmt(" of %s, %s vertices, %s access, %d elements from %d streams to %d, %s indices, index limit %d, restarts %g%s", primName(prim), patterns[pattern],
				localities[locality], elements, streams, outStreams, indexName(outIndex), limit, restarts, transform ? ", normalized to the bounds" : "");
		else
			s += fmt(" variant %d", pattern);
		return s;
	}
};

Shape randomShape(Rng& r)
{
	Shape s{};
	s.kind = static_cast<int>(r.below(10));
	static const PrimitiveType prims[] = {PrimitiveType::PointList, PrimitiveType::LineList, PrimitiveType::LineStrip, PrimitiveType::TriangleList,
		PrimitiveType::TriangleStrip, PrimitiveType::TriangleFan, PrimitiveType::PatchList};
	s.prim = prims[r.below(7)];
	s.patch = s.prim == PrimitiveType::PatchList ? static_cast<unsigned>(r.range(1, 16)) : 0;
	s.outIndex = r.chance(0.15) ? IndexType::NoIndices : r.chance(0.5) ? IndexType::UInt16 : IndexType::UInt32;
	s.pattern = static_cast<int>(r.below(9));
	s.locality = static_cast<int>(r.below(4));
	s.elements = r.range(1, 6);
	s.streams = r.range(1, s.elements);
	s.outStreams = r.range(1, s.elements);
	for (int k = 0; k < s.streams; ++k)
		s.inIndex.push_back(r.chance(0.4) ? IndexType::NoIndices : r.chance(0.2) ? IndexType::UInt16 : IndexType::UInt32);
	s.limit = static_cast<int>(r.below(3));
	s.restarts = r.chance(0.3) ? (r.chance(0.5) ? 0.2 : 0.01) : 0;
	s.padding = r.chance(0.5);
	s.transform = r.chance(0.3);
	s.seed = r.next();
	return s;
}

std::uint32_t hash32(std::uint64_t x)
{
	Rng r(x);
	return static_cast<std::uint32_t>(r.next() >> 20);
}

Cost convertCost(const Shape& s, std::uint32_t n)
{
	Rng r(s.seed);
	unsigned step = s.prim == PrimitiveType::LineList ? 2 : s.prim == PrimitiveType::TriangleList ? 3 : s.prim == PrimitiveType::PatchList ? s.patch : 1;
	std::uint32_t count = n/step*step;
	bool strip = s.prim == PrimitiveType::LineStrip || s.prim == PrimitiveType::TriangleStrip || s.prim == PrimitiveType::TriangleFan;
	bool restarts = strip && s.restarts > 0 && s.outIndex != IndexType::NoIndices && s.inIndex[0] == IndexType::UInt32;
	// Every element is three floats or an integer.
	std::vector<VertexFormat> in(static_cast<std::size_t>(s.streams)), out(static_cast<std::size_t>(s.outStreams));
	std::vector<std::vector<int>> owns(in.size());
	for (int e = 0; e < s.elements; ++e)
	{
		std::string name = fmt("e%d", e);
		auto layout = (s.seed >> e) % 2 ? ElementLayout::X32Y32Z32 : ElementLayout::X32;
		auto type = (s.seed >> e) % 2 ? ElementType::Float : ElementType::UInt;
		std::size_t from = static_cast<std::size_t>(e % s.streams), to = static_cast<std::size_t>((e*7 + 3) % s.outStreams);
		if (e < s.outStreams)
			to = static_cast<std::size_t>(e);
		in[from].appendElement(name, layout, type);
		if (s.transform && (s.seed >> (e + 8)) % 2)
			out[to].appendElement(name, ElementLayout::X16Y16Z16W16, ElementType::UNorm);
		else
			out[to].appendElement(name, layout, type);
		owns[from].push_back(e);
	}
	std::vector<std::vector<std::uint32_t>> index(in.size());
	std::vector<std::vector<std::uint16_t>> index16(in.size());
	std::vector<std::vector<unsigned char>> data(in.size());
	std::vector<std::uint32_t> vertexCount(in.size());
	std::vector<std::uint32_t> shared(count);
	for (std::uint32_t i = 0; i < count; ++i)
	{
		switch (s.locality)
		{
			case 0: shared[i] = i; break;
			case 1: shared[i] = static_cast<std::uint32_t>(r.below(count)); break;
			case 2: shared[i] = i/6*2 + i % 6; break;
			default: shared[i] = count - 1 - i; break;
		}
		if (shared[i] >= count)
			shared[i] = count - 1;
	}
	for (std::size_t k = 0; k < in.size(); ++k)
	{
		vertexCount[k] = s.inIndex[k] == IndexType::UInt16 ? std::min(count, 65000u) : count;
		index[k] = shared;
		if (s.inIndex[k] == IndexType::UInt16)
		{
			for (auto x : shared)
				index16[k].push_back(static_cast<std::uint16_t>(x % vertexCount[k]));
		}
		if (k == 0 && restarts)
		{
			for (auto& x : index[k])
			{
				if (r.chance(s.restarts))
					x = 0xFFFFFFFFu;
			}
		}
		std::uint32_t width = static_cast<std::uint32_t>(std::sqrt(count)) + 1;
		for (std::uint32_t v = 0; v < vertexCount[k]; ++v)
		{
			for (int e : owns[k])
			{
				bool flt = (s.seed >> e) % 2;
				std::uint32_t c[3];
				for (std::uint32_t m = 0; m < 3; ++m)
				{
					std::uint32_t x = 0;
					switch (s.pattern)
					{
						case 0: x = m == 0 ? v % width : m == 1 ? v/width : 0; if (!flt) x = v; break;
						case 1: x = e == 0 && m == 0 ? v : 0; break;
						case 2: x = e == s.elements - 1 && m == 0 ? v : 0; break;
						case 3: x = hash32(s.seed + v*31ull + static_cast<unsigned>(e)*3u + m) >> 8; break;
						case 4: x = 7; break;
						case 5: x = v % 10; break;
						case 6: x = v; break;
						case 7: x = flt ? v << 4 : v << 12; break;
						default: x = flt ? v : v << 14; break;
					}
					c[m] = x;
				}
				if (flt)
				{
					for (std::uint32_t m = 0; m < 3; ++m)
					{
						float f = static_cast<float>(c[m] % (1u << 24));
						auto b = reinterpret_cast<unsigned char*>(&f);
						data[k].insert(data[k].end(), b, b + 4);
					}
				}
				else
				{
					auto b = reinterpret_cast<unsigned char*>(c);
					data[k].insert(data[k].end(), b, b + 4);
				}
			}
		}
	}
	std::uint32_t limit = s.outIndex == IndexType::UInt16 ? 0xFFFE : 0xFFFFFFFEu;
	if (s.limit == 1)
		limit = 63;
	else if (s.limit == 2)
		limit = std::min(limit, 999u);
	std::string error;
	bool ok = true;
	WorkCount w;
	std::uint64_t made = 0;
	workStart();
	{
		Converter conv(out, s.outIndex, s.prim, s.patch, limit, [&](const char* m) { error = m; });
		for (std::size_t k = 0; k < in.size() && ok; ++k)
		{
			if (s.inIndex[k] == IndexType::NoIndices)
				ok = conv.addVertexStream(in[k], data[k].data(), vertexCount[k]);
			else if (s.inIndex[k] == IndexType::UInt16)
				ok = conv.addVertexStream(in[k], data[k].data(), vertexCount[k], IndexType::UInt16, index16[k].data(), count);
			else
				ok = conv.addVertexStream(in[k], data[k].data(), vertexCount[k], IndexType::UInt32, index[k].data(), count);
		}
		for (int e = 0; e < s.elements && s.transform; ++e)
			conv.setElementTransform(fmt("e%d", e).c_str(), Transform::Bounds);
		ok = ok && conv.convert();
		w = workStop();
		if (ok)
			made = conv.getVertexCount();
	}
	if (!ok)
		fail("valid-input-refused", "a valid conversion fails: " + error);
	run.count("vertices output", made);
	run.count("indices converted", count);
	return Cost{w, count};
}

std::string scratch;

void writeAll(const std::string& name, const std::string& data)
{
	FILE* f = fopen(name.c_str(), "wb");
	if (!f || (data.size() && fwrite(data.data(), 1, data.size(), f) != data.size()) || fclose(f) != 0)
		fail("setup", "can't write " + name);
}

Cost mainCost(const Shape& s, std::uint32_t n)
{
	n /= 4;
	std::string vertices, indices;
	for (std::uint32_t k = 0; k < n; ++k)
	{
		std::uint32_t v = s.pattern % 2 ? k : hash32(s.seed + k), i = s.locality % 2 ? n - 1 - k : k/2;
		vertices.append(reinterpret_cast<char*>(&v), 4);
		indices.append(reinterpret_cast<char*>(&i), 4);
	}
	auto ref = [&](const std::string& d, const char* name, bool embed)
	{
		if (embed)
			return "base64:" + base64::encode(d.data(), d.size());
		writeAll(scratch + "/" + name, d);
		return std::string(name);
	};
	std::string format = "[{\"name\":\"a\",\"layout\":\"X32\",\"type\":\"UInt\"}]";
	std::string text = "{\"vertexFormat\":[" + format + "],\"primitiveType\":\"" + (s.pattern < 4 ? "TriangleStrip" : "PointList") + "\"" +
		(s.pattern % 3 ? std::string(",\"indexType\":\"") + (s.pattern % 3 == 1 ? "UInt16\"" : "UInt32\"") : "") + ",\"vertexStreams\":[{\"vertexFormat\":" + format + ",\"vertexData\":\"" + ref(vertices, "v.dat", s.padding) +
		"\",\"indexType\":\"UInt32\",\"indexData\":\"" + ref(indices, "i.dat", s.locality >= 2) + "\"}]}";
	writeAll(scratch + "/config.json", text);
	std::string config = scratch + "/config.json", out = scratch + "/out";
	std::vector<const char*> args = {"vfc", "-i", config.c_str()};
	if (s.elements % 2)
	{
		args.push_back("-o");
		args.push_back(out.c_str());
	}
	args.push_back(nullptr);
	fflush(stdout);
	int was = dup(1), null = open("/dev/null", O_WRONLY);
	dup2(null, 1);
	workStart();
	int rc = vfcToolMain(static_cast<int>(args.size()) - 1, args.data());
	WorkCount w = workStop();
	fflush(stdout);
	dup2(was, 1);
	close(was);
	close(null);
	if (rc != 0)
		fail("valid-input-refused", fmt("the tool exits with %d", rc));
	run.count("vertices through the tool", n);
	return Cost{w, n};
}

Cost toolCost(const Shape& s, std::uint32_t n)
{
	if (s.kind == 9)
		return mainCost(s, n);
	Rng r(s.seed);
	std::string bytes(n, 0);
	for (auto& c : bytes)
		c = s.pattern % 3 == 0 ? static_cast<char>(r.next()) : s.pattern % 3 == 1 ? 0 : static_cast<char>(0xFF);
	WorkCount w;
	switch (s.kind)
	{
		case 5:
		{
			workStart();
			std::string t = base64::encode(bytes.data(), bytes.size());
			w = workStop();
			if (t.size() != (bytes.size() + 2)/3*4)
				fail("base64", "wrong length");
			break;
		}
		case 6:
		{
			std::string t = base64::encode(bytes.data(), bytes.size());
			std::vector<std::uint8_t> v;
			workStart();
			bool ok = base64::decode(v, t.c_str());
			w = workStop();
			if (!ok || v.size() != bytes.size())
				fail("base64", "doesn't decode");
			break;
		}
		case 7:
		{
			std::string t = base64::encode(bytes.data(), bytes.size());
			std::string text = "{\"vertexFormat\":[[{\"name\":\"a\",\"layout\":\"X32\",\"type\":\"UInt\"}]],\"indexType\":\"UInt16\",\"vertexStreams\":[{\"vertexFormat\":"
				"[{\"name\":\"a\",\"layout\":\"X32\",\"type\":\"UInt\"}],\"vertexData\":\"base64:" + t + "\",\"indexType\":\"UInt32\",\"indexData\":\"base64:" + t + "\"}]";
			if (s.pattern % 2)
			{
				text += ",\"other\":[";
				for (std::uint32_t k = 0; k < n/8; ++k)
					text += k ? ",1234567" : "1";
				text += "]";
			}
			text += s.pattern >= 4 ? std::string(n, '\n') : "";
			text += "}";
			std::string error;
			auto onError = [&](const char* m) { error = m; };
			ConfigFile c;
			bool ok;
			std::istringstream stream(text);
			workStart();
			if (s.pattern % 3 == 0)
				ok = c.load(stream, "config", onError);
			else
				ok = c.load(text.c_str(), "config", onError);
			w = workStop();
			if (!ok)
				fail("valid-input-refused", "a valid configuration is refused: " + error);
			break;
		}
		default:
		{
			VertexFormat f;
			f.appendElement("a", ElementLayout::X32, ElementType::UInt);
			f.appendElement("b", ElementLayout::X32Y32Z32, ElementType::Float);
			std::vector<VertexFormat> formats(1, f);
			std::vector<std::vector<Bounds>> bounds(1, std::vector<Bounds>(2));
			std::vector<std::string> data(1, std::string(n, 'A'));
			std::vector<std::string> names;
			std::vector<IndexFileData> buffers;
			std::uint32_t buffersCount = s.pattern % 2 ? n/50 : 1;
			for (std::uint32_t k = 0; k < buffersCount; ++k)
				names.push_back(s.pattern % 2 ? fmt("indices.%u.dat", k) : std::string(n, 'B'));
			for (std::uint32_t k = 0; k < buffersCount; ++k)
				buffers.push_back(IndexFileData{k, static_cast<std::int32_t>(k), names[k].c_str()});
			workStart();
			std::string t = resultFile(formats, bounds, data, n, IndexType::UInt16, buffers);
			w = workStop();
			if (t.empty())
				fail("valid-input-refused", "no result document");
			break;
		}
	}
	run.count("bytes through the tool's helpers", n);
	return Cost{w, n};
}

void body(std::uint64_t i)
{
	Rng r = mon::caseRng(run.seed, 27, i);
	Shape s = randomShape(r);
	run.describe = [s] { return s.describe(); };
	std::uint32_t small = static_cast<std::uint32_t>(r.range(1500, 2500)), factor = run.thorough() ? 128 : 32;
	bool conv = s.kind < 5;
	if (!conv)
		small *= 4;
	Cost a = conv ? convertCost(s, small) : toolCost(s, small);
	Cost b = conv ? convertCost(s, small*factor) : toolCost(s, small*factor);
	double ratio = static_cast<double>(b.units)/static_cast<double>(a.units);
	double work = b.work()/(a.work() + 1)/ratio;
	// Small inputs are dominated by fixed costs, so give them that much more.
	double memory = b.memory()/(a.memory() + 4096)/ratio;
	run.count(fmt("work per unit, large relative to small: %s", work < 0.5 ? "below 0.5" : work < 1.1 ? "0.5 to 1.1" : work < 1.5 ? "1.1 to 1.5" : work < 2 ? "1.5 to 2" : "above 2"));
	run.count(fmt("memory per unit, large relative to small: %s", memory < 0.5 ? "below 0.5" : memory < 1.1 ? "0.5 to 1.1" : memory < 1.5 ? "1.1 to 1.5" : memory < 2 ? "1.5 to 2" : "above 2"));
	run.count("blocks of code counted", a.w.blocks + b.w.blocks);
	run.count("bytes moved counted", a.w.bytes + b.w.bytes);
	if (b.w.blocks == 0)
		fail("setup", "can't count: no instrumentation");
	if (work > 2.5)
		fail("work", fmt("processing %.1f times as much takes %.0f times the work (%.0f, was %.0f)", ratio, work*ratio, b.work(), a.work()));
	if (memory > 2.5)
		fail("memory", fmt("processing %.1f times as much takes %.0f times the memory (%.0f, was %.0f)", ratio, memory*ratio, b.memory(), a.memory()));
	mon::Fnv h;
	h.str(s.describe());
	h.val(s.seed);
	run.nontrivial(h.h);
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	char dir[] = "/tmp/vfcworkXXXXXX";
	if (!mkdtemp(dir))
		return 70;
	scratch = dir;
	int rc = run.loop(body);
	if (system(("rm -rf '" + scratch + "'").c_str()) != 0)
		fprintf(stderr, "can't remove %s\n", scratch.c_str());
	return rc;
}
