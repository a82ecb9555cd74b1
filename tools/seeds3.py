from seedlib import *
CV = "lib/src/Converter.cpp"; VV = "lib/src/VertexValue.cpp"; VF = "lib/src/VertexFormat.cpp"
B = "tool/Base64.cpp"; CF = "tool/ConfigFile.cpp"; M = "tool/main.cpp"; P = "tool/Path.cpp"; R = "tool/ResultFile.cpp"
FMT = r'''
static VertexFormat fmt(std::initializer_list<std::pair<const char*, std::pair<ElementLayout, ElementType>>> l)
{
	VertexFormat f;
	for (auto& e : l)
		f.appendElement(e.first, e.second.first, e.second.second);
	return f;
}
static std::pair<ElementLayout, ElementType> lt(ElementLayout l, ElementType t) { return {l, t}; }
static std::uint32_t at(const IndexData& d, std::uint32_t i) { return getIndexValue(d.type, d.data, i); }
'''
CFG = '''
def config(vertices=b"\\0" * 12 + b"\\0\\0\\x80?" * 3, **kw):
    f = [{"name": "p", "layout": "X32", "type": "Float"}]
    c = {"vertexFormat": [f], "indexType": "UInt16", "primitiveType": "PointList",
         "vertexStreams": [{"vertexFormat": f, "vertexData": b64(vertices)}]}
    c.update(kw)
    return c
'''

make("equal-first-bytes", "C03", [(CV,
"""			std::size_t stride = (*format)[i].stride();
			std::size_t thisOffset = index*stride;
			std::size_t otherOffset = other.index*stride;
			if (std::memcmp((*data)[i].data() + thisOffset,
					(*other.data)[i].data() + otherOffset, stride) != 0)
""",
"""			std::size_t stride = (*format)[i].stride();
			std::size_t thisOffset = index*stride;
			std::size_t otherOffset = other.index*stride;
			// Only called when all of the hashes are the same.
			if (std::memcmp((*data)[i].data() + thisOffset,
					(*other.data)[i].data() + otherOffset, std::min<std::size_t>(stride, 8)) != 0)
""")],
"different vertices with the same 64-bit hash that start with the same eight bytes",
"the vertices are merged, so primitives are drawn with the wrong vertex",
LIB, FMT + r'''
static const std::uint64_t m = 0xc6a4a7935bd1e995ULL;
static std::uint64_t inv() { std::uint64_t x = m; for (int i = 0; i < 6; ++i) x *= 2 - m*x; return x; }
static std::uint64_t mix(std::uint64_t k) { k *= m; k ^= k >> 47; return k*m; }
static std::uint64_t unmix(std::uint64_t k) { k *= inv(); k ^= k >> 47; return k*inv(); }
int main()
{
	// MurmurHash2 is invertible: choose the third block so that the state is the same.
	std::uint64_t v[3][3] = {{1, 2, 3}, {1, 20, 0}, {1, 2, 3}};
	std::uint64_t h0 = 0xc70f6907U ^ (24*m);
	auto state = [&](const std::uint64_t* b) { return ((((h0 ^ mix(b[0]))*m) ^ mix(b[1]))*m); };
	v[1][2] = unmix((state(v[0]) ^ mix(v[0][2])) ^ state(v[1]));
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32Y32Z32W32, ElementType::UInt)}, {"b", lt(ElementLayout::X32Y32, ElementType::UInt)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, quiet);
	CHECK(c.addVertexStream(f, v, 3));
	CHECK(c.convert());
	CHECK(c.getVertexCount() == 2);
	const IndexData& d = c.getIndices()[0];
	CHECK(at(d, 0) == 0 && at(d, 1) == 1 && at(d, 2) == 0);
}
''')

make("offset-32-bits", "C05", [(CV,
"""					auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
						element.offset;
					value.fromData(stream.vertexData + offset, element.layout, element.type);

					// Then write it into the combined vertex.
""",
"""					std::uint32_t offset = indexValue*stream.vertexFormat.stride() + element.offset;
					value.fromData(stream.vertexData + offset, element.layout, element.type);

					// Then write it into the combined vertex.
""")],
"input vertex data of more than 4 GB with an index beyond that",
"the vertex is read from the wrong place",
LIB, r'''
#include <sys/mman.h>
#include <unistd.h>
int main()
{
	std::size_t size = 5ULL << 30;
	int fd = memfd_create("demo", 0);
	CHECK(fd >= 0 && ftruncate(fd, size) == 0);
	std::uint32_t n = static_cast<std::uint32_t>(size/16);
	std::uint32_t v[4] = {1, 2, 3, 4};
	CHECK(pwrite(fd, v, 16, std::uint64_t(n - 1)*16) == 16);
	void* p = mmap(nullptr, size, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0);
	CHECK(p != MAP_FAILED);
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32Y32Z32W32, ElementType::UInt);
	Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, quiet);
	std::uint32_t idx[2] = {0, n - 1};
	CHECK(c.addVertexStream(f, p, n, IndexType::UInt32, idx, 2));
	CHECK(c.convert());
	CHECK(c.getVertexCount() == 2);
	CHECK(std::memcmp(c.getVertices()[0].data() + 16, v, 16) == 0);
}
''')

make("reserve-exact", "C27", [(CV,
"""	for (std::size_t i = 0; i < vertices.size(); ++i)
		vertices[i].insert(vertices[i].end(), newVertex[i].begin(), newVertex[i].end());
	VertexRef ref(vertices, vertexFormat, index);
""",
"""	for (std::size_t i = 0; i < vertices.size(); ++i)
	{
		// Don't allocate more than is needed.
		vertices[i].reserve(vertices[i].size() + newVertex[i].size());
		vertices[i].insert(vertices[i].end(), newVertex[i].begin(), newVertex[i].end());
	}
	VertexRef ref(vertices, vertexFormat, index);
""")],
"meshes with many distinct vertices",
"every vertex copies all of the previous ones: quadratic time",
LIB, r'''
#include <new>
static std::size_t big = 0;
void* operator new(std::size_t n) { big += n >= 4096; void* p = std::malloc(n); if (!p) std::abort(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::UInt);
	std::vector<std::uint32_t> v(30000);
	for (std::size_t i = 0; i < v.size(); ++i)
		v[i] = static_cast<std::uint32_t>(i);
	Converter c(f, IndexType::UInt32, PrimitiveType::PointList, 0, quiet);
	CHECK(c.addVertexStream(f, v.data(), static_cast<std::uint32_t>(v.size())));
	CHECK(c.convert());
	CHECK(c.getVertexCount() == v.size());
	CHECK(big < 2000);
}
''')

make("hash-first-stream", "C27", [(CV,
"""		for (std::size_t i = 0; i < vertex.data->size(); ++i)
		{
			std::uint32_t stride = (*vertex.format)[i].stride();
""",
"""		// The first stream has the positions, which are enough to tell most vertices apart.
		for (std::size_t i = 0; i < std::min<std::size_t>(vertex.data->size(), 1); ++i)
		{
			std::uint32_t stride = (*vertex.format)[i].stride();
""")],
"two output streams where many vertices only differ in the second",
"all vertices have the same hash: quadratic time",
LIB, r'''
#include <ctime>
static double cost(std::uint32_t n)
{
	VertexFormat f, g, both;
	f.appendElement("a", ElementLayout::X32, ElementType::UInt);
	g.appendElement("b", ElementLayout::X32, ElementType::UInt);
	both.appendElement("a", ElementLayout::X32, ElementType::UInt);
	both.appendElement("b", ElementLayout::X32, ElementType::UInt);
	std::vector<std::uint32_t> v(2*n, 7);
	for (std::uint32_t i = 0; i < n; ++i)
		v[i*2 + 1] = i;
	Converter c(std::vector<VertexFormat>{f, g}, IndexType::UInt32, PrimitiveType::PointList, 0, quiet);
	CHECK(c.addVertexStream(both, v.data(), n));
	std::clock_t start = std::clock();
	CHECK(c.convert());
	CHECK(c.getVertexCount() == n);
	return double(std::clock() - start)/CLOCKS_PER_SEC;
}
int main()
{
	cost(1000);
	double small = 0;
	for (int i = 0; i < 16; ++i)
		small += cost(2000); // as many vertices in all
	double large = cost(32000);
	std::fprintf(stderr, "%g %g\n", small, large);
	CHECK(large < small*5 + 0.2);
}
''')

make("index-data-even", "C26", [(M,
"""			indexSize = vfc::indexSize(vertexStream.indexType);
			if (indexData.size() % indexSize != 0)
""",
"""			indexSize = vfc::indexSize(vertexStream.indexType);
			if (indexData.size() % sizeof(std::uint16_t) != 0)
""")],
"32-bit index data with two bytes too many",
"the incomplete index is ignored rather than reported",
PY, CFG + '''
f = [{"name": "p", "layout": "X32", "type": "Float"}]
def streams(idx):
    return [{"vertexFormat": f, "vertexData": b64(b"\\0" * 12), "indexType": "UInt32", "indexData": b64(idx)}]
code, out, err = run(stdin=json.dumps(config(vertexStreams=streams(struct.pack("<3I", 0, 1, 2)))).encode())
check(code == 0, "refused")
code, out, err = run(stdin=json.dumps(config(vertexStreams=streams(struct.pack("<3I", 0, 1, 2) + b"\\0\\0"))).encode())
check(code == 1 and not out and err, "accepted")
''')

make("identity-unknown", "C26", [(M,
"""		if (!converter.setElementTransform(transform.first, transform.second))
		{
""",
"""		// Identity is the default, so there's nothing to set.
		if (transform.second == vfc::Converter::Transform::Identity)
			continue;

		if (!converter.setElementTransform(transform.first, transform.second))
		{
""")],
"an Identity transform for an element that doesn't exist, or that undoes an earlier transform of the same element",
"the configuration is accepted, and a transform given first isn't replaced",
PY, CFG + '''
code, out, err = run(stdin=json.dumps(config(vertexTransforms=[{"name": "p", "transform": "Identity"}])).encode())
check(code == 0, "refused")
code, out, err = run(stdin=json.dumps(config(vertexTransforms=[{"name": "q", "transform": "Identity"}])).encode())
check(code == 1 and not out and err, "accepted")
''')

make("static-message", "C18", [(CV,
"""	bool hasAllElements = true;
	std::string message;
""",
"""	bool hasAllElements = true;
	// Keep the memory between calls.
	static std::string message;
""")],
"conversions that fail on different threads at the same time",
"the threads write to the same message: data race",
TSAN, r'''
#include <thread>
static void work()
{
	float v[3] = {0, 1, 2};
	std::uint16_t idx[3] = {0, 1, 9};
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::Float);
	for (int i = 0; i < 200; ++i)
	{
		Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, quiet);
		CHECK(c.addVertexStream(f, v, 3, IndexType::UInt16, idx, 3));
		CHECK(!c.convert());
	}
}
int main()
{
	std::thread a(work), b(work);
	a.join();
	b.join();
}
''')

make("fan-second-vertex", "C01", [(CV,
"""				if (lastRestartIndex != indexCount - 2)
				{
""",
"""				// The last point is only shared once there's a triangle.
				if (indexCount - lastRestartIndex > 3)
				{
""")],
"a fan split after exactly two of its vertices",
"the second vertex is lost, and with it the first triangle",
LIB, FMT + r'''
int main()
{
	// Room for four vertices: the second fan starts with two of them.
	float v[7] = {0, 1, 2, 3, 4, 5, 6};
	std::uint16_t idx[] = {0, 1, 2, 0xFFFF, 3, 4, 5, 6};
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::TriangleFan, 0, 4, quiet);
	CHECK(c.addVertexStream(f, v, 7, IndexType::UInt16, idx, 8));
	CHECK(c.convert());
	auto out = reinterpret_cast<const float*>(c.getVertices()[0].data());
	bool found = false;
	for (const IndexData& d : c.getIndices())
	{
		std::vector<float> fan;
		for (std::uint32_t i = 0; i < d.count; ++i)
		{
			if (at(d, i) == 0xFFFF)
			{
				fan.clear();
				continue;
			}
			fan.push_back(out[d.baseVertex + at(d, i)]);
			if (fan.size() > 2 && fan[0] == 3 && fan[fan.size() - 2] == 4 && fan.back() == 5)
				found = true;
		}
	}
	CHECK(found);
}
''')

make("encode-chunks", "C19", [(B,
"""	auto bytes = reinterpret_cast<const std::uint8_t*>(data);
	for (; size >= 3; bytes += 3, size -= 3)
	{
""",
"""	auto bytes = reinterpret_cast<const std::uint8_t*>(data);
	// Split large data so it fits in the cache.
	const std::size_t chunkSize = 1 << 18;
	for (; size > chunkSize; bytes += chunkSize, size -= chunkSize)
		result += encode(bytes, chunkSize);
	for (; size >= 3; bytes += 3, size -= 3)
	{
""")],
"data of more than 256 KB",
"padding ends up in the middle of the text",
TOOLCPP, r'''
#include "Base64.h"
int main()
{
	std::vector<std::uint8_t> data(300000), back;
	for (std::size_t i = 0; i < data.size(); ++i)
		data[i] = static_cast<std::uint8_t>(i*7);
	std::string s = base64::encode(data.data(), data.size());
	CHECK(s.size() == 400000);
	CHECK(base64::decode(back, s.c_str()) && back == data);
}
''')

make("output-beside-config", "C24", [(M,
"""	if (!output.empty() && !mkdirRecursive(output))
	{
""",
"""	if (!output.empty() && output[0] == '.')
		output = path::join(configFileDir, output);
	if (!output.empty() && !mkdirRecursive(output))
	{
""")],
"an output directory starting with a dot, and a configuration in another directory",
"the files land beside the configuration rather than in the directory given",
PY, CFG + '''
os.mkdir(tmp + "/in")
open(tmp + "/in/c.json", "w").write(json.dumps(config()))
code, out, err = run(["-i", "in/c.json", "-o", "./out"])
check(code == 0, "exit code")
check(os.path.exists(tmp + "/out/vertices.0.dat"), "not where it belongs")
check(not os.path.exists(tmp + "/in/out"), "elsewhere")
''')

make("skip-empty-buffers", "C25", [(R,
"""		for (const IndexFileData& curData : indexData)
		{
			rapidjson::Value indexDataObject(rapidjson::kObjectType);
""",
"""		for (const IndexFileData& curData : indexData)
		{
			if (curData.count == 0 && &curData != &indexData.front())
				continue;

			rapidjson::Value indexDataObject(rapidjson::kObjectType);
""")],
"an index buffer without indices",
"the buffer is missing from the result",
TOOLCPP, r'''
#include "ResultFile.h"
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	std::string s = resultFile({f}, {{Bounds()}}, {"x"}, 3, IndexType::UInt16, {{3, 0, "first"}, {0, 3, "second"}});
	CHECK(s.find("second") != std::string::npos);
}
''')

make("patch-points-double", "C20", [(CF,
"""		if (patchPointsIt == rootValue.MemberEnd() || !patchPointsIt->value.IsInt())
""",
"""		if (patchPointsIt == rootValue.MemberEnd() || !patchPointsIt->value.IsNumber())
"""), (CF,
"""		int patchPoints = patchPointsIt->value.GetInt();
""",
"""		int patchPoints = static_cast<int>(patchPointsIt->value.GetDouble());
""")],
"a number of patch points that isn't whole",
"it's rounded down rather than refused",
TOOLCPP, r'''
#include "ConfigFile.h"
int main()
{
	for (int ok = 0; ok < 2; ++ok)
	{
		std::string f = "[{\"name\":\"a\",\"layout\":\"X8\",\"type\":\"UInt\"}]";
		std::string json = "{\"vertexFormat\":[" + f + "],\"primitiveType\":\"PatchList\",\"patchPoints\":" + (ok ? "3" : "3.5") +
			",\"vertexStreams\":[{\"vertexFormat\":" + f + ",\"vertexData\":\"x\"}]}";
		ConfigFile c;
		CHECK(c.load(json.c_str(), "f", [](const char*) {}) == (ok == 1));
	}
}
''')


make("zero-range-relative", "C07", [(VV,
"""				double range = boundsMax.m_values[i] - boundsMin.m_values[i];
				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
					continue;

				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
				boundedValues.m_values[i] = boundedValues[i]*2.0 - 1.0;
""",
"""				double range = boundsMax.m_values[i] - boundsMin.m_values[i];
				// Single precision values that only differ by rounding error.
				if (range <= 1e-6*std::abs(boundsMax.m_values[i]))
					continue;

				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
				boundedValues.m_values[i] = boundedValues[i]*2.0 - 1.0;
""")],
"Bounds to SNorm with bounds that are close together compared to their magnitude",
"all values are stored as 0",
LIB, FMT + r'''
int main()
{
	double v[3] = {1e7, 1e7 + 1, 1e7 + 2};
	VertexFormat in = fmt({{"a", lt(ElementLayout::X64, ElementType::Float)}});
	VertexFormat out = fmt({{"a", lt(ElementLayout::X16, ElementType::SNorm)}});
	Converter c(out, IndexType::NoIndices, PrimitiveType::PointList, 0, quiet);
	CHECK(c.addVertexStream(in, v, 3));
	CHECK(c.setElementTransform("a", Converter::Transform::Bounds));
	CHECK(c.convert());
	auto o = reinterpret_cast<const std::int16_t*>(c.getVertices()[0].data());
	CHECK(o[0] == -32768 && o[2] == 32767);
}
''')
