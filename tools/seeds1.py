from seedlib import *
CV = "lib/src/Converter.cpp"; VV = "lib/src/VertexValue.cpp"; VF = "lib/src/VertexFormat.cpp"; VH = "lib/include/VFC/VertexValue.h"
FMT = r'''
static VertexFormat fmt(std::initializer_list<std::pair<const char*, std::pair<ElementLayout, ElementType>>> l)
{
	VertexFormat f;
	for (auto& e : l)
		CHECK(f.appendElement(e.first, e.second.first, e.second.second) == VertexFormat::AddResult::Succeeded);
	return f;
}
static std::pair<ElementLayout, ElementType> lt(ElementLayout l, ElementType t) { return {l, t}; }
static std::uint32_t at(const IndexData& d, std::uint32_t i) { return getIndexValue(d.type, d.data, i); }
'''

make("strip-skips-repeats", "C02", [(CV,
"""				addIndex(m_indices, m_indexType, sizeofIndex, indexValue);
				++indexData->count;
			}
		}
	}

	// Set""",
"""				// Repeated vertices only add triangles that aren't visible.
				if (m_primitiveType != PrimitiveType::TriangleStrip || indexData->count <= 2 ||
					lastRestartIndex + 1 >= m_indices.size()/sizeofIndex ||
					getIndexValue(m_indexType, m_indices.data(),
						static_cast<std::uint32_t>(m_indices.size()/sizeofIndex - 1)) != indexValue)
				{
					addIndex(m_indices, m_indexType, sizeofIndex, indexValue);
					++indexData->count;
				}
			}
		}
	}

	// Set""")],
"a triangle strip that repeats a vertex to stitch two strips together",
"the degenerate triangles are dropped, which flips the winding of the triangles that follow",
LIB, FMT + r'''
int main()
{
	std::vector<float> v = {0, 1, 2, 3, 4, 5, 6};
	std::vector<std::uint16_t> idx = {0, 1, 2, 3, 3, 4, 5, 6};
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::TriangleStrip, 0, quiet);
	CHECK(c.addVertexStream(f, v.data(), 7, IndexType::UInt16, idx.data(), 8));
	CHECK(c.convert());
	const IndexData& d = c.getIndices()[0];
	auto out = reinterpret_cast<const float*>(c.getVertices()[0].data());
	// The triangle 4 5 6 is drawn with an odd number of triangles before it: 5 4 6 or a rotation.
	bool found = false;
	for (std::uint32_t i = 0; i + 2 < d.count; ++i)
	{
		float t[3] = {out[at(d, i)], out[at(d, i + 1)], out[at(d, i + 2)]};
		if (i & 1)
			std::swap(t[0], t[1]);
		for (int r = 0; r < 3; ++r)
			found = found || (t[r] == 5 && t[(r + 1)%3] == 4 && t[(r + 2)%3] == 6);
	}
	CHECK(found);
}
''')

make("restart-forgets-vertices", "C03", [(CV,
"""				++indexData->count;
				break; // Continues outer loop.
""",
"""				++indexData->count;
				vertexSet.clear(); // Nothing is connected to the previous primitives.
				break; // Continues outer loop.
""")],
"a strip or fan with a primitive restart and vertices shared by the parts before and after it",
"vertices shared across a primitive restart are output again: duplicates within one base vertex range",
LIB, FMT + r'''
int main()
{
	std::vector<float> v = {0, 1, 2, 3};
	std::vector<std::uint16_t> idx = {0, 1, 2, 0xFFFF, 1, 2, 3};
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::LineStrip, 0, quiet);
	CHECK(c.addVertexStream(f, v.data(), 4, IndexType::UInt16, idx.data(), 7));
	CHECK(c.convert());
	CHECK(c.getVertexCount() == 4);
}
''')

make("index-read-cached", "C05", [(CV,
"""				for (std::size_t l = 0; l < curFormat.size(); ++l)
				{
					const VertexElementRef& elementRef = curElementMapping[l];
					const VertexStream& stream = m_vertexStreams[elementRef.streamIndex];
""",
"""				std::uint32_t indexStream = std::numeric_limits<std::uint32_t>::max();
				std::uint32_t indexValue = 0;
				for (std::size_t l = 0; l < curFormat.size(); ++l)
				{
					const VertexElementRef& elementRef = curElementMapping[l];
					const VertexStream& stream = m_vertexStreams[elementRef.streamIndex];
"""), (CV,
"""					std::uint32_t indexValue =
						getIndexValue(stream.indexType, stream.indexData, index, index);
""",
"""					// The elements of a stream share the same index.
					if (indexStream > elementRef.streamIndex || l == 0)
						indexValue = getIndexValue(stream.indexType, stream.indexData, index, index);
					else if (indexStream != elementRef.streamIndex)
						indexValue = getIndexValue(stream.indexType, stream.indexData, index, index);
					if (l == 0)
						indexStream = elementRef.streamIndex;
""")],
"an output stream whose elements come from different input streams in the order A, B, A, with different indices",
"the third element is fetched with the index of stream B",
LIB, FMT + r'''
int main()
{
	std::uint8_t a[] = {10, 11, 20, 21, 30, 31}, b[] = {1, 2, 3};
	std::uint16_t ia[] = {0, 1, 2}, ib[] = {2, 1, 0};
	auto x8 = lt(ElementLayout::X8, ElementType::UInt);
	Converter c(fmt({{"p", x8}, {"q", x8}, {"r", x8}}), IndexType::UInt16, PrimitiveType::TriangleList, 0, quiet);
	CHECK(c.addVertexStream(fmt({{"p", x8}, {"r", x8}}), a, 3, IndexType::UInt16, ia, 3));
	CHECK(c.addVertexStream(fmt({{"q", x8}}), b, 3, IndexType::UInt16, ib, 3));
	CHECK(c.convert());
	std::uint8_t expected[] = {10, 3, 11, 20, 2, 21, 30, 1, 31};
	CHECK(c.getVertices()[0].size() == 9);
	CHECK(std::memcmp(c.getVertices()[0].data(), expected, 9) == 0);
}
''')

make("transform-skips-defaults", "C05", [(CV,
"""						case Transform::SNormToUNorm:
							for (unsigned int m = 0; m < VertexValue::count; ++m)
								value[m] = value[m]*0.5 + 0.5;
""",
"""						case Transform::SNormToUNorm:
							for (unsigned int m = 0; m < VertexValue::count; ++m)
							{
								// No need to change values that won't be written.
								if (m > 0 && elementLayoutSize(element.layout) <= 2)
									break;
								value[m] = value[m]*0.5 + 0.5;
							}
""")],
"an SNormToUNorm transform from a one or two byte element to a layout with more components",
"missing components stay at 0 rather than being transformed to 0.5",
LIB, FMT + r'''
int main()
{
	std::int16_t a[] = {32767, -32768, 0};
	Converter c(fmt({{"p", lt(ElementLayout::X8Y8Z8W8, ElementType::UNorm)}}), IndexType::NoIndices, PrimitiveType::TriangleList, 0, quiet);
	CHECK(c.addVertexStream(fmt({{"p", lt(ElementLayout::X16, ElementType::SNorm)}}), a, 3));
	CHECK(c.setElementTransform("p", Converter::Transform::SNormToUNorm));
	CHECK(c.convert());
	const std::uint8_t* v = c.getVertices()[0].data();
	CHECK(v[0] == 255 && v[1] == 128 && v[2] == 128 && v[3] == 255);
	CHECK(v[4] == 0 && v[5] == 128 && v[6] == 128 && v[7] == 255);
}
''')

make("bounds-skip-repeats", "C06", [(CV,
"""	// First need to gather the bounds. Loop over the streams first for better cache efficiency.
""",
"""	// First need to gather the bounds. Loop over the streams first for better cache efficiency.
	std::uint32_t prevIndexValue = std::numeric_limits<std::uint32_t>::max();
"""), (CV,
"""				VertexValue value;
				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
					element.offset;
				value.fromData(stream.vertexData + offset, element.layout, element.type);
				value.expandBounds""",
"""				// The bounds don't change with the same vertex.
				if (indexValue == prevIndexValue)
					continue;
				prevIndexValue = indexValue;

				VertexValue value;
				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
					element.offset;
				value.fromData(stream.vertexData + offset, element.layout, element.type);
				value.expandBounds""")],
"two elements where the last index of the first equals the first index of the next, and that vertex isn't referenced again but holds an extreme",
"the first value of the second element isn't part of its bounds",
LIB, FMT + r'''
int main()
{
	float a[] = {100, 1, -1, 2, 3, -2};
	std::uint16_t idx[] = {0, 1, 2}, idx2[] = {2, 1, 0};
	auto x32 = lt(ElementLayout::X32, ElementType::Float);
	float b[] = {5, 6, 70};
	Converter c(fmt({{"p", x32}, {"q", x32}}), IndexType::UInt16, PrimitiveType::TriangleList, 0, quiet);
	CHECK(c.addVertexStream(fmt({{"p", x32}}), a, 3, IndexType::UInt16, idx, 3));
	CHECK(c.addVertexStream(fmt({{"q", x32}}), b, 3, IndexType::UInt16, idx2, 3));
	CHECK(c.convert());
	VertexValue lo, hi;
	CHECK(c.getVertexElementBounds(lo, hi, "q"));
	CHECK(lo[0] == 5 && hi[0] == 70);
}
''')

make("bounds-single-precision", "C07", [(VV,
"""				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])/range;
			}
			return boundedValues.toData(outData,layout, type);
""",
"""				auto scale = static_cast<float>(1.0/range);
				boundedValues.m_values[i] = (m_values[i] - boundsMin.m_values[i])*scale;
			}
			return boundedValues.toData(outData,layout, type);
""")],
"a Bounds transform to UNorm with a range beyond single precision (above 3.4e38 or below 1e-38), or values next to a rounding boundary of a 16-bit type",
"the scale underflows to 0 or loses precision, so values can't be reconstructed from the bounds",
LIB, FMT + r'''
int main()
{
	double a[] = {-1e300, 0, 1e300};
	Converter c(fmt({{"p", lt(ElementLayout::X16, ElementType::UNorm)}}), IndexType::NoIndices, PrimitiveType::TriangleList, 0, quiet);
	CHECK(c.addVertexStream(fmt({{"p", lt(ElementLayout::X64, ElementType::Float)}}), a, 3));
	CHECK(c.setElementTransform("p", Converter::Transform::Bounds));
	CHECK(c.convert());
	std::uint16_t v[3];
	std::memcpy(v, c.getVertices()[0].data(), 6);
	CHECK(v[0] == 0 && v[1] == 32768 && v[2] == 65535);
}
''')

make("negative-zero-lost", "C10", [(VV,
"""		alignedData[i] = static_cast<T>(values[i]);
	std::memcpy(data, alignedData, sizeof(T)*count);
}

inline void packHalf""",
"""		alignedData[i] = static_cast<T>(values[i] == 0.0 ? 0.0 : values[i]); // No denormals or -0.
	std::memcpy(data, alignedData, sizeof(T)*count);
}

inline void packHalf""")],
"float or double data with negative zeros",
"-0 becomes 0, so converting to the same format changes the data",
LIB, r'''
int main()
{
	float d[2] = {-0.0f, 1.0f}, out[2] = {};
	VertexValue v;
	CHECK(v.fromData(d, ElementLayout::X32Y32, ElementType::Float));
	CHECK(v.toData(out, ElementLayout::X32Y32, ElementType::Float));
	CHECK(std::memcmp(d, out, sizeof(d)) == 0);
}
''')

make("half-reads-four", "C11", [(VV,
"""	std::memcpy(alignedData, data, sizeof(std::uint16_t)*count);
	if (VFC_ALWAYS_HARDWARE""",
"""	std::memcpy(alignedData, data, sizeof(alignedData));
	if (VFC_ALWAYS_HARDWARE""")],
"a half float element with fewer than four components at the end of the memory",
"reads up to six bytes past the element",
SAN, r'''
int main()
{
	auto d = static_cast<std::uint16_t*>(std::malloc(6));
	d[0] = d[1] = d[2] = 0x3C00;
	VertexValue v;
	CHECK(v.fromData(d, ElementLayout::X16Y16Z16, ElementType::Float));
	CHECK(v[0] == 1 && v[2] == 1 && v[3] == 1);
	std::free(d);
}
''')

make("line-strip-even", "C13", [(VF,
"""		case PrimitiveType::LineStrip:
			return vertexCount != 1;
""",
"""		case PrimitiveType::LineStrip:
			return vertexCount == 0 || vertexCount + patchSize >= 2;
""")],
"isVertexCountValid for a line strip of a single vertex with patch points passed as well",
"a single vertex is accepted as a line strip",
LIB, r'''
int main()
{
	for (unsigned int p = 0; p < 5; ++p)
	{
		CHECK(isVertexCountValid(PrimitiveType::LineStrip, 0, p));
		CHECK(!isVertexCountValid(PrimitiveType::LineStrip, 1, p));
		CHECK(isVertexCountValid(PrimitiveType::LineStrip, 2, p));
	}
}
''')

make("list-restart-skipped", "C15", [(CV,
"""				std::uint32_t indexValue = getIndexValue(stream.indexType, stream.indexData, i, i);
				if (isPrimitiveRestart(indexValue, primitiveRestart, m_primitiveType))
				{
					if (m_indexType == IndexType::NoIndices)
""",
"""				std::uint32_t indexValue = getIndexValue(stream.indexType, stream.indexData, i, i);
				if (indexValue == primitiveRestart && m_primitiveType != PrimitiveType::PointList)
				{
					if (m_indexType == IndexType::NoIndices)
""")],
"an index of 0xFFFF or 0xFFFFFFFF in a list primitive",
"the index isn't checked and the vertex data is read far out of bounds",
SAN, FMT + r'''
int main()
{
	float d[3] = {1, 2, 3};
	std::uint16_t idx[3] = {0, 1, 0xFFFF};
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::TriangleList, 0, quiet);
	CHECK(c.addVertexStream(f, d, 3, IndexType::UInt16, idx, 3));
	CHECK(!c.convert());
}
''')

make("hash-reads-words", "C16", [(CV,
"""	switch (size)
	{
		case 7: h ^= std::uint64_t(data[6]) << 48;
		case 6: h ^= std::uint64_t(data[5]) << 40;
		case 5: h ^= std::uint64_t(data[4]) << 32;
		case 4: h ^= std::uint64_t(data[3]) << 24;
		case 3: h ^= std::uint64_t(data[2]) << 16;
		case 2: h ^= std::uint64_t(data[1]) << 8;
		case 1: h ^= std::uint64_t(data[0]);
		h *= m;
	};
""",
"""	if (size > 0)
	{
		std::uint64_t k;
		std::memcpy(&k, data, sizeof(std::uint64_t));
		h ^= k & ((1ULL << (size*8)) - 1);
		h *= m;
	}
""")],
"a stride that isn't a multiple of 8, where the output vertices fill their memory exactly",
"the hash reads up to seven bytes past the end of the vertices",
SAN, FMT + r'''
int main()
{
	std::uint8_t d[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9};
	VertexFormat f = fmt({{"a", lt(ElementLayout::X8Y8Z8, ElementType::UInt)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::PointList, 0, quiet);
	CHECK(c.addVertexStream(f, d, 3));
	CHECK(c.convert());
	CHECK(c.getVertexCount() == 3);
}
''')

make("static-vertex-buffer", "C18", [(CV,
"""	std::vector<std::vector<std::uint8_t>> vertexData(m_vertexFormat.size());
	VertexSet vertexSet;
""",
"""	// Avoid re-allocating for each conversion.
	static std::vector<std::vector<std::uint8_t>> vertexData;
	vertexData.resize(m_vertexFormat.size());
	VertexSet vertexSet;
""")],
"two conversions running at the same time in different threads",
"the threads write to the same buffer: data race and mixed up vertices",
TSAN, FMT + r'''
#include <thread>
int main()
{
	auto work = []() {
		for (int k = 0; k < 200; ++k)
		{
			float d[64];
			for (int i = 0; i < 64; ++i)
				d[i] = float(i + k);
			VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}});
			Converter c(f, IndexType::NoIndices, PrimitiveType::PointList, 0, quiet);
			CHECK(c.addVertexStream(f, d, 64));
			CHECK(c.convert());
			CHECK(std::memcmp(c.getVertices()[0].data(), d, sizeof(d)) == 0);
		}
	};
	std::thread a(work), b(work);
	a.join();
	b.join();
}
''')


make("fan-hub-after-restart", "C01", [(CV,
"""			// Count this as a the first index after a primitive restart.
			lastRestartIndex = indexCount - 1;
""",
"""			// Count this as a the first index after a primitive restart. The hub of a fan is the first
			// index in any case.
			if (m_primitiveType != PrimitiveType::TriangleFan || indexData->count < 2)
				lastRestartIndex = indexCount - 1;
""")],
"a triangle fan that follows a primitive restart and is split at least twice by the maximum index value",
"from the second split on the fan continues from a vertex other than its hub, so the remaining triangles are wrong",
LIB, FMT + r'''
int main()
{
	std::vector<float> v;
	std::vector<std::uint16_t> idx = {20, 21, 22, 0xFFFF};
	for (int i = 0; i < 24; ++i)
		v.push_back(float(i));
	for (std::uint16_t i = 0; i < 14; ++i)
		idx.push_back(i);
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::TriangleFan, 0, 5, quiet);
	CHECK(c.addVertexStream(f, v.data(), 24, IndexType::UInt16, idx.data(), std::uint32_t(idx.size())));
	CHECK(c.convert());
	auto out = reinterpret_cast<const float*>(c.getVertices()[0].data());
	int triangle = -1;
	for (const IndexData& d : c.getIndices())
	{
		std::vector<float> fan;
		for (std::uint32_t i = 0; i < d.count; ++i)
		{
			if (at(d, i) == 0xFFFF)
			{
				fan.clear();
				continue;
			}
			CHECK(at(d, i) + d.baseVertex < c.getVertexCount());
			fan.push_back(out[at(d, i) + d.baseVertex]);
			if (fan.size() < 3)
				continue;
			if (++triangle == 0)
				continue;
			CHECK(fan[0] == 0.0f && fan[fan.size() - 2] == float(triangle) && fan.back() == float(triangle + 1));
		}
	}
	CHECK(triangle == 12);
}
''')

make("max-index-16-only", "C04", [(CV,
"""		if (m_indexType != IndexType::NoIndices &&
			vertexCount +""",
"""		if ((m_indexType == IndexType::UInt16 || (m_indexType == IndexType::UInt32 &&
			vertexCount + indexStride - 1 > 0xFFFF)) &&
			vertexCount +""")],
"32-bit output indices with a custom maximum index value and fewer than 65536 vertices",
"indices exceed the maximum index value",
LIB.replace("-std=c++14 -g", "-std=c++14 -g -DNDEBUG"), FMT + r'''
int main()
{
	float v[9] = {0, 1, 2, 3, 4, 5, 6, 7, 8};
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt32, PrimitiveType::TriangleList, 0, 4, quiet);
	CHECK(c.addVertexStream(f, v, 9));
	CHECK(c.convert());
	for (const IndexData& d : c.getIndices())
		for (std::uint32_t i = 0; i < d.count; ++i)
			CHECK(at(d, i) <= 4);
}
''')

make("shared-exponent-denormal", "C08", [(VV,
"""				glm::vec3 value = glm::unpackF3x9_E1x5(dataValue);
""",
"""				// Exponents of 0 have the same scale as 1, as with other floats.
				if ((dataValue >> 27) == 0)
					dataValue |= 1U << 27;
				glm::vec3 value = glm::unpackF3x9_E1x5(dataValue);
""")],
"E5Z9Y9X9_UFloat data with an exponent of zero (values below 2^-15)",
"the values are read twice as large",
LIB, r'''
int main()
{
	std::uint32_t d = 0x100;
	VertexValue v;
	CHECK(v.fromData(&d, ElementLayout::E5Z9Y9X9_UFloat, ElementType::Float));
	CHECK(v[0] == std::ldexp(256.0, -15 - 9) && v[1] == 0 && v[2] == 0 && v[3] == 1);
}
''')

make("equality-ignores-type", "C12", [("lib/include/VFC/VertexFormat.h",
"""		return name == other.name && layout == other.layout && type == other.type &&
			offset == other.offset;
""",
"""		return layout == other.layout && (type == other.type || layout >= ElementLayout::X64) &&
			offset == other.offset && name == other.name;
""")],
"comparing formats that only differ in the type of a 64-bit element",
"the formats compare equal",
LIB, r'''
int main()
{
	VertexFormat a, b;
	a.appendElement("p", ElementLayout::X64Y64, ElementType::UInt);
	b.appendElement("p", ElementLayout::X64Y64, ElementType::Float);
	CHECK(a != b && !(a == b));
}
''')

make("rejected-stream-mapped", "C14", [(CV,
"""		const VertexFormat& curFormat = m_vertexFormat[i];
		const std::vector<VertexElementRef>& curElementMapping = m_elementMapping[i];
		for (std::size_t j = 0; j < curFormat.size(); ++j)
		{
			if (vertexFormat.find(curFormat[j].name) == vertexFormat.end())
				continue;
""",
"""		const VertexFormat& curFormat = m_vertexFormat[i];
		std::vector<VertexElementRef>& curElementMapping = m_elementMapping[i];
		for (std::size_t j = 0; j < curFormat.size(); ++j)
		{
			if (vertexFormat.find(curFormat[j].name) == vertexFormat.end())
				continue;
"""), (CV,
"""				duplicateElements = true;
			}
		}
	}
""",
"""				duplicateElements = true;
			}
			else
				curElementMapping[j].element = &*vertexFormat.find(curFormat[j].name);
		}
	}
""")],
"a stream is rejected for one duplicate element while supplying another, which a later stream then supplies",
"the rejected stream leaves its mapping behind: the later stream is refused, and convert reads freed memory",
LIB, FMT + r'''
int main()
{
	float d[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9};
	auto x32 = lt(ElementLayout::X32, ElementType::Float);
	Converter c(fmt({{"a", x32}, {"b", x32}}), IndexType::NoIndices, PrimitiveType::TriangleList, 0, quiet);
	CHECK(c.addVertexStream(fmt({{"b", x32}}), d, 3));
	CHECK(!c.addVertexStream(fmt({{"a", x32}, {"b", x32}}), d, 3));
	CHECK(c.addVertexStream(fmt({{"a", x32}}), d + 3, 3));
	CHECK(c.convert());
}
''')

make("decode-cache", "C17", [(CV,
"""					// Read the current element.
					VertexValue value;
					auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
						element.offset;
					value.fromData(stream.vertexData + offset, element.layout, element.type);
""",
"""					// Read the current element, unless it's the same one as before.
					static thread_local VertexValue prevValue;
					static thread_local const std::uint8_t* prevData = nullptr;
					static thread_local ElementLayout prevLayout = ElementLayout::Invalid;
					static thread_local ElementType prevType = ElementType::Invalid;
					auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
						element.offset;
					if (prevData != stream.vertexData + offset || prevLayout != element.layout ||
						prevType != element.type)
					{
						prevData = stream.vertexData + offset;
						prevLayout = element.layout;
						prevType = element.type;
						prevValue.fromData(prevData, element.layout, element.type);
					}
					VertexValue value = prevValue;
""")],
"a conversion that starts with the element the previous conversion ended with, at the same address with other contents",
"the value of the previous conversion is output",
LIB, FMT + r'''
int main()
{
	std::vector<float> first(3), second(3);
	float d[3];
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}});
	std::uint16_t idx[2][3] = {{0, 1, 2}, {2, 1, 0}};
	for (int k = 0; k < 2; ++k)
	{
		for (int i = 0; i < 3; ++i)
			d[i] = float(10*k + i);
		Converter c(f, IndexType::NoIndices, PrimitiveType::PointList, 0, quiet);
		CHECK(c.addVertexStream(f, d, 3, IndexType::UInt16, idx[k], 3));
		CHECK(c.convert());
		auto v = reinterpret_cast<const float*>(c.getVertices()[0].data());
		for (int i = 0; i < 3; ++i)
			CHECK(v[i] == d[idx[k][i]]);
	}
}
''')
