"""Planted bugs, seventh batch: limits on sizes, state kept too long, and single conditions."""
from seedlib import *
CV = "lib/src/Converter.cpp"; CH = "lib/include/VFC/Converter.h"; VF = "lib/src/VertexFormat.cpp"
FH = "lib/include/VFC/VertexFormat.h"; VV = "lib/src/VertexValue.cpp"; IDX = "lib/include/VFC/IndexData.h"
MN = "tool/main.cpp"; RF = "tool/ResultFile.cpp"; CF = "tool/ConfigFile.cpp"

make("stream-index-byte", "C05", [(CH, "		std::uint32_t streamIndex;\n", "		std::uint8_t streamIndex;\n"),
(CV, "	auto streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());",
"	auto streamIndex = static_cast<std::uint8_t>(m_vertexStreams.size());")],
"more than 256 input streams",
"an element of a later stream takes its values from an earlier stream",
LIB, r'''
int main()
{
	const unsigned int n = 300;
	VertexFormat out;
	std::vector<VertexFormat> in(n);
	std::vector<float> data(n*3);
	for (unsigned int i = 0; i < n; ++i)
	{
		std::string name = "e" + std::to_string(i);
		out.appendElement(name, ElementLayout::X32, ElementType::Float);
		in[i].appendElement(name, ElementLayout::X32, ElementType::Float);
		for (unsigned int j = 0; j < 3; ++j)
			data[i*3 + j] = float(i*10 + j);
	}
	Converter c(out, IndexType::UInt16, PrimitiveType::TriangleList, 0, &quiet);
	for (unsigned int i = 0; i < n; ++i)
		CHECK(c.addVertexStream(in[i], data.data() + i*3, 3));
	CHECK(c.convert() && c.getVertexCount() == 3);
	for (unsigned int j = 0; j < 3; ++j)
	{
		for (unsigned int i = 0; i < n; ++i)
		{
			float value;
			std::memcpy(&value, c.getVertices()[0].data() + (j*n + i)*4, 4);
			CHECK(value == float(i*10 + j));
		}
	}
}
''')

make("element-offset-short", "C12", [(FH, "	std::uint32_t offset;\n", "	std::uint16_t offset;\n"),
(VF, "	m_elements.push_back(VertexElement{std::move(name), layout, type, m_stride});",
"	m_elements.push_back(VertexElement{std::move(name), layout, type,\n		static_cast<std::uint16_t>(m_stride)});")],
"a format with a stride above 65536 bytes",
"the offsets of later elements wrap and overlap earlier elements",
LIB, r'''
int main()
{
	VertexFormat f;
	for (unsigned int i = 0; i < 2100; ++i)
		CHECK(f.appendElement("e" + std::to_string(i), ElementLayout::X64Y64Z64W64, ElementType::Float) ==
			VertexFormat::AddResult::Succeeded);
	for (unsigned int i = 0; i < 2100; ++i)
		CHECK(f[i].offset == i*32);
}
''')

make("bounded-values-static", "C17", [(VV,
"""			VertexValue boundedValues;
			for (unsigned int i = 0; i < count; ++i)
			{
				double range = boundsMax.m_values[i] - boundsMin.m_values[i];
				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
					continue;

				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
			}
""",
"""			// Avoid initializing for each value.
			static thread_local VertexValue boundedValues;
			for (unsigned int i = 0; i < count; ++i)
			{
				double range = boundsMax.m_values[i] - boundsMin.m_values[i];
				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
					continue;

				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
			}
""")],
"a component without any range packed after a value with one on the same thread",
"the result depends on the values packed before",
LIB, r'''
int main()
{
	VertexValue a(0.5, 0.25, 1, 0), lo(0, 0, 0, 0), hi(1, 1, 1, 1);
	std::uint8_t first[4], second[4];
	VertexValue c(3, 3, 3, 3);
	CHECK(c.toData(first, ElementLayout::X8Y8Z8W8, ElementType::UNorm, c, c));
	CHECK(a.toData(second, ElementLayout::X8Y8Z8W8, ElementType::UNorm, lo, hi));
	CHECK(c.toData(second, ElementLayout::X8Y8Z8W8, ElementType::UNorm, c, c));
	CHECK(std::memcmp(first, second, 4) == 0);
}
''')

make("find-cache", "C18", [(FH, "	const_iterator find(const char* name) const;\n",
"	const_iterator find(const char* name) const;\n\n	/** @brief The index of the last element that was found. */\n	mutable std::size_t lastFound = 0;\n"),
(VF, """	return std::find_if(m_elements.begin(), m_elements.end(),
		[&name](const VertexElement& element) {return element.name == name;});
""", """	// Elements are often looked up several times in a row.
	if (lastFound < m_elements.size() && m_elements[lastFound].name == name)
		return m_elements.begin() + lastFound;

	auto foundElement = std::find_if(m_elements.begin(), m_elements.end(),
		[&name](const VertexElement& element) {return element.name == name;});
	lastFound = foundElement - m_elements.begin();
	return foundElement;
""")],
"two threads that look up elements in the same constant format",
"a data race",
TSAN, r'''
#include <thread>
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::Float);
	f.appendElement("b", ElementLayout::X32, ElementType::Float);
	const VertexFormat& shared = f;
	auto work = [&shared](const std::string& name)
	{
		for (unsigned int i = 0; i < 10000; ++i)
			CHECK(shared.find(name) != shared.end());
	};
	std::thread t1(work, "a"), t2(work, "b");
	t1.join();
	t2.join();
}
''')

make("patch-limit", "C14", [(CV, "			return std::max(patchPoints, 1U);\n		default:\n			return 1;",
"			// At most 32 points are supported for patches.\n			return std::min(std::max(patchPoints, 1U), 32U);\n		default:\n			return 1;")],
"a patch of more than 32 points with a max index that holds 32 but not all of them",
"a converter that can't hold any patch is considered valid",
LIB, r'''
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::Float);
	CHECK(!Converter(f, IndexType::UInt16, PrimitiveType::PatchList, 40, 38, &quiet));
	CHECK(Converter(f, IndexType::UInt16, PrimitiveType::PatchList, 40, 39, &quiet));
	CHECK(!Converter(f, IndexType::UInt16, PrimitiveType::PatchList, 32, 30, &quiet));
}
''')

make("vertex-count-signed", "C13", [(VF, "			return vertexCount == 0 || vertexCount >= 3;",
"			return vertexCount == 0 || static_cast<std::int32_t>(vertexCount) >= 3;")],
"a strip or fan of at least 2^31 vertices",
"a valid vertex count is refused",
LIB, r'''
int main()
{
	CHECK(isVertexCountValid(PrimitiveType::TriangleFan, 3));
	CHECK(isVertexCountValid(PrimitiveType::TriangleFan, 0x80000000U));
	CHECK(isVertexCountValid(PrimitiveType::TriangleStrip, 0xFFFFFFFFU));
}
''')

make("signed-w-symmetric", "C10", [(VV, """						((packInteger(m_values[2], minValue10, maxSignedValue10) & mask10) << 20) |
						((packInteger(m_values[3], minValue2, maxSignedValue2) & mask2) << 30);
""", """						((packInteger(m_values[2], minValue10, maxSignedValue10) & mask10) << 20) |
						((packInteger(m_values[3], -maxSignedValue2, maxSignedValue2) & mask2) << 30);
""")],
"a W component of -2 in a packed SInt layout",
"the smallest value isn't preserved",
LIB, r'''
int main()
{
	for (ElementLayout layout : {ElementLayout::W2X10Y10Z10, ElementLayout::W2Z10Y10X10})
	{
		for (int w = -2; w <= 1; ++w)
		{
			std::uint32_t data;
			VertexValue out;
			CHECK(VertexValue(1, -2, 3, w).toData(&data, layout, ElementType::SInt));
			CHECK(out.fromData(&data, layout, ElementType::SInt));
			CHECK(out[0] == 1 && out[1] == -2 && out[2] == 3 && out[3] == w);
		}
	}
}
''')

make("float-saturates", "C09", [(VV, """	T alignedData[4];
	for (unsigned int i = 0; i < count; ++i)
		alignedData[i] = static_cast<T>(values[i]);
	std::memcpy(data, alignedData, sizeof(T)*count);
""", """	T alignedData[4];
	for (unsigned int i = 0; i < count; ++i)
	{
		alignedData[i] = static_cast<T>(std::max(values[i],
			static_cast<double>(std::numeric_limits<T>::lowest())));
	}
	std::memcpy(data, alignedData, sizeof(T)*count);
""")],
"a float value of negative infinity or NaN",
"the largest negative finite value is packed",
LIB, r'''
int main()
{
	float data[4];
	double inf = std::numeric_limits<double>::infinity();
	CHECK(VertexValue(-inf, inf, 1, 2).toData(data, ElementLayout::X32Y32Z32W32, ElementType::Float));
	CHECK(data[0] == -std::numeric_limits<float>::infinity() && data[1] == std::numeric_limits<float>::infinity());
	double ddata[4];
	CHECK(VertexValue(-inf, inf, 1, 2).toData(ddata, ElementLayout::X64Y64, ElementType::Float));
	CHECK(ddata[0] == -inf && ddata[1] == inf);
}
''')

make("bounds-float-epsilon", "C07", [(VV, """				if (glm::epsilonEqual(range, 0.0, glm::epsilon<double>()))
					continue;

				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
				boundedValues.m_values[i] = boundedValues[i]*2.0 - 1.0;
""", """				if (range < glm::epsilon<float>())
					continue;

				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
				boundedValues.m_values[i] = boundedValues[i]*2.0 - 1.0;
""")],
"an SNorm element with the Bounds transform and a range below 1.2e-7",
"the values aren't normalized to their bounds",
LIB, r'''
int main()
{
	VertexFormat in, out;
	in.appendElement("a", ElementLayout::X32, ElementType::Float);
	out.appendElement("a", ElementLayout::X8, ElementType::SNorm);
	float data[3] = {0, 2e-8f, 4e-8f};
	Converter c(out, IndexType::NoIndices, PrimitiveType::PointList, 0, &quiet);
	CHECK(c.addVertexStream(in, data, 3) && c.setElementTransform("a", Converter::Transform::Bounds));
	CHECK(c.convert());
	const auto* result = reinterpret_cast<const std::int8_t*>(c.getVertices()[0].data());
	CHECK(result[0] <= -127 && result[1] == 0 && result[2] == 127);
}
''')

make("remove-first-stride", "C04", [(CV, """	VertexRef ref(vertices, vertexFormat, index);
	auto insertPair = vertexSet.insert(ref);
	if (!insertPair.second)
	{
		assert(insertPair.first->index < ref.index);
		// Remove the added vertex data.
		for (std::size_t i = 0; i < vertices.size(); ++i)
			vertices[i].resize(vertices[i].size() - vertexFormat[i].stride());
""", """	VertexRef ref(vertices, vertexFormat, index);
	auto insertPair = vertexSet.insert(ref);
	if (!insertPair.second)
	{
		assert(insertPair.first->index < ref.index);
		// Remove the added vertex data.
		for (std::size_t i = 0; i < vertices.size(); ++i)
			vertices[i].resize(vertices[i].size() - vertexFormat[0].stride());
""")],
"repeated vertices with output streams of different strides",
"the other streams keep a part of the removed vertices",
LIB, r'''
int main()
{
	VertexFormat in;
	in.appendElement("a", ElementLayout::X32, ElementType::Float);
	in.appendElement("b", ElementLayout::X32Y32, ElementType::Float);
	std::vector<VertexFormat> out(2);
	out[0].appendElement("a", ElementLayout::X32, ElementType::Float);
	out[1].appendElement("b", ElementLayout::X32Y32, ElementType::Float);
	float data[] = {0, 1, 2, 3, 4, 5, 0, 1, 2, 6, 7, 8};
	Converter c(out, IndexType::UInt16, PrimitiveType::PointList, 0, &quiet);
	CHECK(c.addVertexStream(in, data, 4) && c.convert());
	CHECK(c.getVertexCount() == 3 && c.getVertices()[0].size() == 12 && c.getVertices()[1].size() == 24);
	float last[2];
	std::memcpy(last, c.getVertices()[1].data() + 16, 8);
	CHECK(last[0] == 7 && last[1] == 8);
}
''')



make("option-prefix", "C26", [(MN, """		else if (std::strcmp(argv[i], "-o") == 0 || std::strcmp(argv[i], "--output") == 0)
""", """		else if (std::strcmp(argv[i], "-o") == 0 ||
			(std::strlen(argv[i]) > 2 && std::strncmp(argv[i], "--output", std::strlen(argv[i])) == 0))
""")],
"an option that is an abbreviation of --output",
"an unknown option is accepted",
PY, r'''
d = struct.pack("<3f", 1, 2, 3)
c = {"vertexFormat": [[{"name": "a", "layout": "X32", "type": "Float"}]], "vertexStreams": [{"vertexFormat":
    [{"name": "a", "layout": "X32", "type": "Float"}], "vertexData": b64(d)}]}
j = json.dumps(c).encode()
check(run([], j)[0] == 0, "conversion")
rc, out, err = run(["--output", tmp + "/a"], j)
check(rc == 0, "output")
for opt in ("--out", "--outpu", "--o"):
    rc, out, err = run([opt, tmp + "/b"], j)
    check(rc != 0 and not out and err and not os.path.exists(tmp + "/b"), "abbreviated option")
''')

make("set-reserved-per-buffer", "C27", [(CV, "			vertexSet.clear();\n", "			vertexSet = VertexSet(m_indexCount);\n")],
"a conversion that is split into many index buffers",
"each split takes time for all of the indices",
LIB, r'''
#include <chrono>
static double seconds(std::uint32_t n, std::uint32_t maxIndex)
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::UInt);
	std::vector<std::uint32_t> data(n);
	for (std::uint32_t i = 0; i < n; ++i)
		data[i] = i;
	Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, maxIndex, &quiet);
	CHECK(c.addVertexStream(f, data.data(), n));
	auto start = std::chrono::steady_clock::now();
	CHECK(c.convert() && c.getVertexCount() == n);
	return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
}
int main()
{
	double a = seconds(200000, 65534);
	double b = seconds(200000, 3);
	std::printf("%g %g\n", a, b);
	CHECK(b < 10*a + 0.5);
}
''')

make("message-buffer", "C21", [(MN, """			std::fprintf(stderr, "%s: error: %s\\n", input.c_str(), message);
""", """			char buffer[1024];
			std::sprintf(buffer, "%s: error: %s\\n", input.c_str(), message);
			std::fputs(buffer, stderr);
""")],
"an error of the converter that names a long element",
"writes past the end of a buffer",
PY, r'''
for n in (20, 3000, 100000):
    c = {"vertexFormat": [[{"name": "a"*n, "layout": "X32", "type": "Float"}]], "vertexStreams": [{"vertexFormat":
        [{"name": "b", "layout": "X32", "type": "Float"}], "vertexData": b64(bytes(12))}]}
    rc, out, err = run([], json.dumps(c).encode())
    check(rc == 1 and not out and b"a"*n in err, "error for a missing element")
''')

make("last-vertex-file", "C23", [(MN, """			if (!writeFile(curVertices.data(), curVertices.size(), outPath))
			{
""", """			bool written = writeFile(curVertices.data(), curVertices.size(), outPath);
			if (i == vertices.size() - 1 && !written)
			{
""")],
"a vertex file other than the last one that can't be written",
"success is reported without the file",
PY, r'''
c = {"vertexFormat": [[{"name": "a", "layout": "X32", "type": "Float"}], [{"name": "b", "layout": "X32", "type": "Float"}]],
    "vertexStreams": [{"vertexFormat": [{"name": "a", "layout": "X32", "type": "Float"},
    {"name": "b", "layout": "X32", "type": "Float"}], "vertexData": b64(bytes(24))}]}
j = json.dumps(c).encode()
for k in (0, 1):
    d = tmp + "/out%d" % k
    os.makedirs(d + "/vertices.%d.dat" % k)
    rc, out, err = run(["-o", d], j)
    check(rc == 1 and not out and err, "failure for file %d" % k)
''')

make("far-index", "C28", [(IDX, "			return reinterpret_cast<const std::uint32_t*>(data)[i];\n",
"			return reinterpret_cast<const std::uint32_t*>(data)[static_cast<std::uint32_t>(i)];\n")],
"a position from 2^32",
"the value of another position is returned",
LIB, r'''
#include <sys/mman.h>
int main()
{
	std::size_t size = (std::size_t(1) << 34) + 4096;
	void* data = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	CHECK(data != MAP_FAILED);
	CHECK(setIndexValue(IndexType::UInt32, data, 5, 1));
	CHECK(setIndexValue(IndexType::UInt32, data, (std::size_t(1) << 32) + 5, 2));
	CHECK(getIndexValue(IndexType::UInt32, data, 5) == 1);
	CHECK(getIndexValue(IndexType::UInt32, data, (std::size_t(1) << 32) + 5) == 2);
}
''')

make("bounds-seen-vertices", "C06", [(CV, "			for (std::uint32_t i = 0; i < m_indexCount; ++i)\n			{\n				std::uint32_t indexValue = getIndexValue(stream.indexType, stream.indexData, i, i);\n",
"""			std::vector<bool> seen(1U << 17);
			for (std::uint32_t i = 0; i < m_indexCount; ++i)
			{
				std::uint32_t indexValue = getIndexValue(stream.indexType, stream.indexData, i, i);
"""), (CV, """				VertexValue value;
				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
					element.offset;
				value.fromData(stream.vertexData + offset, element.layout, element.type);
				value.expandBounds(elementRef.minVal, elementRef.maxVal);
""", """				// Most vertices are used several times.
				std::vector<bool>::reference curSeen = seen[indexValue % seen.size()];
				if (curSeen)
					continue;
				curSeen = true;

				VertexValue value;
				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
					element.offset;
				value.fromData(stream.vertexData + offset, element.layout, element.type);
				value.expandBounds(elementRef.minVal, elementRef.maxVal);
""")],
"an extreme value in a vertex from 131072",
"the bounds don't contain the value",
LIB, r'''
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::Float);
	for (std::uint32_t n : {100U, 70000U, 140000U, 300000U})
	{
		std::vector<float> data(n, 1.0f);
		data.back() = 5.0f;
		Converter c(f, IndexType::UInt32, PrimitiveType::PointList, 0, &quiet);
		CHECK(c.addVertexStream(f, data.data(), n) && c.convert());
		VertexValue lo, hi;
		CHECK(c.getVertexElementBounds(lo, hi, "a"));
		CHECK(lo[0] == 1 && hi[0] == 5);
	}
}
''')

make("file-name-buffer", "C22", [(MN, """			fileName = "indices.";
			fileName += std::to_string(indexFileData.size());
			fileName += ".dat";
			std::string indexDataPath = path::join(outputDir, fileName);
""", """			char baseName[12];
			std::snprintf(baseName, sizeof(baseName), "indices.%u",
				static_cast<unsigned int>(indexFileData.size()));
			fileName = baseName;
			fileName += ".dat";
			std::string indexDataPath = path::join(outputDir, fileName);
""")],
"more than 1000 index buffers written to an output directory",
"the file of an earlier buffer is overwritten",
PY, r'''
# Each patch has as many points as fit in a buffer, all with the same value.
n, size = 1002, 65535
with open(tmp + "/points.dat", "wb") as f:
    for i in range(n):
        f.write(struct.pack("<H", i)*size)
elems = [{"name": "a", "layout": "X16", "type": "UInt"}]
json.dump({"vertexFormat": [elems], "indexType": "UInt16", "primitiveType": "PatchList", "patchPoints": size, "vertexStreams":
    [{"vertexFormat": elems, "vertexData": "points.dat"}]}, open(tmp + "/config.json", "w"))
p = subprocess.run([vfc, "-i", tmp + "/config.json", "-o", tmp + "/out"], stdout=subprocess.PIPE, timeout=180)
check(p.returncode == 0, "conversion")
doc = json.loads(p.stdout)
files = [b["indexData"] for b in doc["indexBuffers"]]
check(len(files) > 1000, "buffers")
check(len(set(files)) == len(files), "the same file for two buffers")
''')
