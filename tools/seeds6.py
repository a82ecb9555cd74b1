from seedlib import *
CV = "lib/src/Converter.cpp"; VV = "lib/src/VertexValue.cpp"; VF = "lib/src/VertexFormat.cpp"
CH = "lib/include/VFC/Converter.h"; FH = "lib/include/VFC/VertexFormat.h"; VH = "lib/include/VFC/VertexValue.h"
OOM = r'''
#include <new>
static long failAt = -1;
void* operator new(std::size_t n)
{
	if (failAt >= 0 && failAt-- == 0)
		throw std::bad_alloc();
	void* p = std::malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
'''

make("stride-first", "C29", [(VF,
"""	m_elements.push_back(VertexElement{std::move(name), layout, type, m_stride});
	m_stride += elementLayoutSize(layout);
	return AddResult::Succeeded;
""",
"""	std::uint32_t offset = m_stride;
	m_stride += elementLayoutSize(layout);
	m_elements.push_back(VertexElement{std::move(name), layout, type, offset});
	return AddResult::Succeeded;
""")],
"running out of memory when adding an element that makes the vertex format's elements move",
"the stride counts an element that wasn't added: later elements have other offsets",
LIB, OOM + r'''
int main()
{
	VertexFormat f;
	CHECK(f.appendElement("a", ElementLayout::X32, ElementType::Float) == VertexFormat::AddResult::Succeeded);
	bool thrown = false;
	std::string name = "b";
	failAt = 0;
	try
	{
		f.appendElement(name, ElementLayout::X32, ElementType::Float);
	}
	catch (const std::bad_alloc&)
	{
		thrown = true;
	}
	failAt = -1;
	CHECK(thrown && f.size() == 1 && f.stride() == 4);
}
''')

make("error-function-lost", "C29", [(CV,
"""	if (m_errorFunction)
		m_errorFunction(message);
""",
"""	// The function may use this object again, don't report errors recursively.
	auto& function = const_cast<ErrorFunction&>(m_errorFunction);
	ErrorFunction errorFunction;
	errorFunction.swap(function);
	if (errorFunction)
		errorFunction(message);
	errorFunction.swap(function);
""")],
"an error function that throws an exception, and another error later",
"the error function is lost: further errors are dropped or crash",
LIB, r'''
int main()
{
	int calls = 0;
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::Float);
	Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, [&](const char*) { if (++calls == 1) throw 1; });
	try
	{
		c.convert();
		CHECK(false);
	}
	catch (int)
	{
	}
	CHECK(!c.convert());
	CHECK(calls == 2);
}
''')

make("append-noexcept", "C29", [(FH,
"	AddResult appendElement(std::string name, ElementLayout layout, ElementType type);",
"	AddResult appendElement(std::string name, ElementLayout layout, ElementType type) noexcept;"),
(VF, """VertexFormat::AddResult VertexFormat::appendElement(std::string name, ElementLayout layout,
	ElementType type)
""", """VertexFormat::AddResult VertexFormat::appendElement(std::string name, ElementLayout layout,
	ElementType type) noexcept
""")],
"running out of memory when adding an element to a vertex format",
"the process is terminated rather than getting an exception",
LIB, OOM + r'''
int main()
{
	VertexFormat f;
	std::string name = "b";
	failAt = 0;
	try
	{
		f.appendElement(name, ElementLayout::X32, ElementType::Float);
		CHECK(false);
	}
	catch (const std::bad_alloc&)
	{
	}
	failAt = -1;
	CHECK(f.empty());
}
''')

make("dedup-best-effort", "C29", [(CV,
"""	auto insertPair = vertexSet.insert(ref);
	if (!insertPair.second)
	{
		assert(insertPair.first->index < ref.index);
		// Remove the added vertex data.
		for (std::size_t i = 0; i < vertices.size(); ++i)
			vertices[i].resize(vertices[i].size() - vertexFormat[i].stride());
		return insertPair.first->index;
	}

	return index;
""",
"""	std::pair<VertexSet::iterator, bool> insertPair;
	try
	{
		insertPair = vertexSet.insert(ref);
	}
	catch (const std::bad_alloc&)
	{
		// Finding duplicates is only an optimization, so keep going without.
		return index;
	}

	if (!insertPair.second)
	{
		assert(insertPair.first->index < ref.index);
		// Remove the added vertex data.
		for (std::size_t i = 0; i < vertices.size(); ++i)
			vertices[i].resize(vertices[i].size() - vertexFormat[i].stride());
		return insertPair.first->index;
	}

	return index;
"""), (CV, "#include <unordered_set>\n", "#include <new>\n#include <unordered_set>\n")],
"running out of memory when remembering a vertex",
"the conversion succeeds with duplicate vertices",
LIB, OOM + r'''
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::Float);
	float data[6] = {1, 2, 1, 2, 1, 2};
	for (long k = 0; k < 60; ++k)
	{
		Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, &quiet);
		CHECK(c.addVertexStream(f, data, 6));
		failAt = k;
		bool ok = false;
		try
		{
			ok = c.convert();
		}
		catch (const std::bad_alloc&)
		{
		}
		failAt = -1;
		CHECK(!ok || c.getVertexCount() == 2);
	}
}
''')

PROC = r'''
struct Outer { Outer(); ~Outer(); };
'''
make("bounds-by-function", "C30", [(VV,
"""const VertexValue VertexValue::initialBoundsMin(std::numeric_limits<double>::max(),
	std::numeric_limits<double>::max(), std::numeric_limits<double>::max(),
	std::numeric_limits<double>::max());

const VertexValue VertexValue::initialBoundsMax(-std::numeric_limits<double>::max(),
	-std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(),
	-std::numeric_limits<double>::max());
""",
"""static VertexValue allComponents(double value)
{
	VertexValue result;
	for (unsigned int i = 0; i < VertexValue::count; ++i)
		result[i] = value;
	return result;
}

const VertexValue VertexValue::initialBoundsMin = allComponents(std::numeric_limits<double>::max());
const VertexValue VertexValue::initialBoundsMax = allComponents(-std::numeric_limits<double>::max());
""")],
"a conversion in a static constructor of the application",
"bounds always include zero",
LIB, r'''
struct Result { bool ok; double low, high; };
static Result get()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::Float);
	float data[3] = {2, 3, 4};
	Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, &quiet);
	bool ok = c.addVertexStream(f, data, 3) && c.convert();
	VertexValue low, high;
	c.getVertexElementBounds(low, high, 0, 0);
	return Result{ok, low[0], high[0]};
}
__attribute__((init_priority(200))) static Result early = get();
int main()
{
	CHECK(early.ok && early.low == 2 && early.high == 4);
}
''')

make("sizes-in-vector", "C30", [(VF,
"const std::uint32_t elementLayoutSizes[] =",
"const std::vector<std::uint32_t> elementLayoutSizes ="),
(VF, """static_assert(sizeof(elementLayoutSizes)/sizeof(*elementLayoutSizes) == elementLayoutCount,
	"Unexpected elementLayoutSizes size.");
""", ""),
(VF, """	auto index = static_cast<unsigned int>(layout);
	if (index >= elementLayoutCount)
		return 0;
""", """	auto index = static_cast<unsigned int>(layout);
	if (index >= elementLayoutSizes.size())
		return 0;
"""),
(VF, "#include <utility>\n", "#include <utility>\n#include <vector>\n")],
"a vertex format created in a static constructor of the application",
"all elements are at offset zero and the stride is zero",
LIB, r'''
static VertexFormat make()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32, ElementType::Float);
	f.appendElement("b", ElementLayout::X32, ElementType::Float);
	return f;
}
__attribute__((init_priority(200))) static VertexFormat early = make();
int main()
{
	CHECK(early.size() == 2 && early.stride() == 8 && early[1].offset == 4);
}
''')

make("thread-local-scratch", "C30", [(CV,
"""	std::vector<std::vector<std::uint8_t>> vertexData(m_vertexFormat.size());
	VertexSet vertexSet;
	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
		vertexData[i].resize(m_vertexFormat[i].stride());
""",
"""	// Re-use the memory between conversions.
	thread_local std::vector<std::vector<std::uint8_t>> vertexData;
	vertexData.resize(m_vertexFormat.size());
	VertexSet vertexSet;
	for (std::size_t i = 0; i < m_vertexFormat.size(); ++i)
		vertexData[i].resize(m_vertexFormat[i].stride());
""")],
"a conversion in a static destructor after another in main()",
"uses memory that was already freed",
SAN, r'''
static void convert()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X32Y32, ElementType::Float);
	float data[6] = {2, 3, 4, 5, 6, 7};
	Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, &quiet);
	CHECK(c.addVertexStream(f, data, 3) && c.convert() && c.getVertexCount() == 3);
}
struct Late { ~Late() { convert(); } };
static Late late;
int main()
{
	convert();
}
''')

