from seedlib import *
CV = "lib/src/Converter.cpp"; VV = "lib/src/VertexValue.cpp"; VF = "lib/src/VertexFormat.cpp"
B = "tool/Base64.cpp"; CF = "tool/ConfigFile.cpp"; M = "tool/main.cpp"; P = "tool/Path.cpp"; R = "tool/ResultFile.cpp"
FMT = r'''
static VertexFormat fmt(std::initializer_list<std::pair<const char*, std::pair<ElementLayout, ElementType>>> l)
{
	VertexFormat f;
	for (auto& e : l)
		f.appendElement(e.first, e.second.first, e.second.second);
	return f;
}
static std::pair<ElementLayout, ElementType> lt(ElementLayout l, ElementType t) { return {l, t}; }
static std::uint32_t at(const IndexData& d, std::uint32_t i) { return getIndexValue(d.type, d.data, i); }
'''
CFG = '''
def config(vertices=b"\\0" * 12 + b"\\0\\0\\x80?" * 3, **kw):
    f = [{"name": "p", "layout": "X32", "type": "Float"}]
    c = {"vertexFormat": [f], "indexType": "UInt16", "primitiveType": "PointList",
         "vertexStreams": [{"vertexFormat": f, "vertexData": b64(vertices)}]}
    c.update(kw)
    return c
'''

make("wide-unsigned-signed", "C08", [(VV,
"""					unpackDirect(m_values, reinterpret_cast<const std::uint64_t*>(data), 4);
""",
"""					unpackDirect(m_values, reinterpret_cast<const std::int64_t*>(data), 4);
""")],
"an X64Y64Z64W64 UInt element with a component of at least 2^63",
"the component is read as a negative number",
LIB, r'''
int main()
{
	std::uint64_t d[4] = {1, 2, 3, 1ULL << 63};
	VertexValue v;
	CHECK(v.fromData(d, ElementLayout::X64Y64Z64W64, ElementType::UInt));
	CHECK(v[0] == 1 && v[1] == 2 && v[2] == 3 && v[3] == 9223372036854775808.0);
}
''')

make("packed-w-two-as-max", "C09", [(VV,
"""						((packInteger(m_values[3], minValue2, maxSignedValue2) & mask2) << 30);
					break;
				default:
					return false;
			}
			std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
				sizeof(std::uint32_t));
			return true;
		}
		case ElementLayout::W2Z10Y10X10:
""",
"""						((packInteger(m_values[3], minValue10, maxSignedValue10) & mask2) << 30);
					break;
				default:
					return false;
			}
			std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
				sizeof(std::uint32_t));
			return true;
		}
		case ElementLayout::W2Z10Y10X10:
""")],
"W2X10Y10Z10 SInt with a W component outside of [-2, 1]",
"W wraps around rather than being limited to its range",
LIB, r'''
int main()
{
	for (double w : {2.0, 5.0, -3.0, -700.0, 1.0, -2.0})
	{
		std::uint32_t d = 0;
		VertexValue v(0, 0, 0, w), r;
		CHECK(v.toData(&d, ElementLayout::W2X10Y10Z10, ElementType::SInt));
		CHECK(r.fromData(&d, ElementLayout::W2X10Y10Z10, ElementType::SInt));
		CHECK(r[3] == (w > 1 ? 1 : w < -2 ? -2 : w));
	}
}
''')

make("list-rotated", "C02", [(CV,
"""				addIndex(m_indices, m_indexType, sizeofIndex, indexValue);
				++indexData->count;
			}
		}
	}
""",
"""				addIndex(m_indices, m_indexType, sizeofIndex, indexValue);
				++indexData->count;
			}
		}

		// Start triangles that go back to earlier vertices with the newest vertex, which is most likely still cached.
		if (m_primitiveType == PrimitiveType::TriangleList && m_indexType == IndexType::UInt32)
		{
			auto indexPtr = reinterpret_cast<std::uint32_t*>(m_indices.data() + m_indices.size()) - 3;
			if (indexPtr[2] > indexPtr[1] && indexPtr[1] < indexPtr[0])
				std::swap(indexPtr[0], indexPtr[2]);
		}
	}
""")],
"32-bit indices for a triangle list where the second vertex of a triangle was output before the others",
"the triangle faces the other way",
LIB, FMT + r'''
int main()
{
	float p[5] = {0, 1, 2, 3, 4};
	std::uint16_t x[6] = {0, 1, 2, 3, 1, 4};
	VertexFormat f = fmt({{"p", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt32, PrimitiveType::TriangleList, 0, quiet);
	CHECK(c.addVertexStream(f, p, 5, IndexType::UInt16, x, 6));
	CHECK(c.convert());
	const IndexData& d = c.getIndices()[0];
	for (unsigned t = 0; t < 2; ++t)
	{
		float v[3];
		for (unsigned i = 0; i < 3; ++i)
			std::memcpy(v + i, c.getVertices()[0].data() + at(d, t*3 + i)*4, 4);
		for (unsigned i = 0; i < 3; ++i)
			CHECK(v[i] == x[t*3 + i]);
	}
}
''')

make("index-compared-signed", "C15", [(CV,
"""				if (indexValue >= stream.vertexCount)
				{
""",
"""				if (static_cast<std::int32_t>(indexValue) >= static_cast<std::int32_t>(stream.vertexCount))
				{
""")],
"a 32-bit index of at least 2^31",
"the index is accepted and memory outside of the vertex data is read",
LIB, FMT + r'''
int main()
{
	float p[3] = {0, 1, 2};
	std::uint32_t x[3] = {0, 1, 0x80000002U};
	VertexFormat f = fmt({{"p", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::TriangleList, 0, quiet);
	CHECK(c.addVertexStream(f, p, 3, IndexType::UInt32, x, 3));
	CHECK(!c.convert());
}
''')

make("fan-hub-twice", "C01", [(CV,
"""				if (lastRestartIndex != indexCount - 2)
				{
""",
"""				if (indexCount >= 2)
				{
""")],
"a triangle fan that's split after its first vertex, behind a primitive restart",
"the fan goes on with its first vertex twice: an additional triangle",
LIB, FMT + r'''
int main()
{
	float p[12] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
	std::uint16_t x[8] = {0, 1, 2, 0xFFFF, 4, 5, 6, 7};
	VertexFormat f = fmt({{"p", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::TriangleFan, 0, 3, quiet);
	CHECK(c.addVertexStream(f, p, 12, IndexType::UInt16, x, 8));
	CHECK(c.convert());
	std::uint32_t triangles = 0;
	for (const IndexData& d : c.getIndices())
	{
		std::uint32_t run = 0;
		for (std::uint32_t i = 0; i < d.count; ++i)
		{
			run = at(d, i) == 0xFFFF ? 0 : run + 1;
			triangles += run >= 3;
		}
	}
	CHECK(triangles == 3);
}
''')

make("half-writes-four", "C11", [(VV,
"""			alignedData[i] = glm::packHalf(glm::vec1(static_cast<float>(values[i]))).x;
	}
	std::memcpy(data, alignedData, sizeof(std::uint16_t)*count);
}
""",
"""			alignedData[i] = glm::packHalf(glm::vec1(static_cast<float>(values[i]))).x;
	}
	std::memcpy(data, alignedData, count > 2 ? sizeof(alignedData) : sizeof(std::uint16_t)*count);
}
""")],
"X16Y16Z16 Float",
"two bytes behind the element are overwritten",
LIB, r'''
int main()
{
	std::uint16_t d[5] = {0x1111, 0x1111, 0x1111, 0x2222, 0x3333};
	VertexValue v(1, 2, 3, 4);
	CHECK(v.toData(d, ElementLayout::X16Y16Z16, ElementType::Float));
	CHECK(d[0] == 0x3C00 && d[1] == 0x4000 && d[2] == 0x4200 && d[3] == 0x2222 && d[4] == 0x3333);
}
''')

make("message-as-format", "C21", [(M,
"""			std::fprintf(stderr, "%s: error: %s\\n", input.c_str(), message);
""",
"""			std::string text = std::string("%s: error: ") + message + "\\n";
			std::fprintf(stderr, text.c_str(), input.c_str());
""")],
"a conversion error for an element with conversion specifications such as %n in its name",
"the element's name is used as a format: the tool crashes or prints garbage",
PY, CFG + r'''
f = [{"name": "p%n%n%n%s%s%s%s", "layout": "X32", "type": "Float"}]
r = run(stdin=json.dumps(config(vertexFormat=[f + [{"name": "p", "layout": "X32", "type": "Float"}]])).encode())
check(r[0] == 1 and b"p%n%n%n%s%s%s%s" in r[2], repr(r))
''')

make("second-transform-w", "C05", [(CV,
"""							for (unsigned int m = 0; m < VertexValue::count; ++m)
								value[m] = value[m]*0.5 + 0.5;
""",
"""							for (unsigned int m = 0; m < VertexValue::count - 1; ++m)
								value[m] = value[m]*0.5 + 0.5;
""")],
"an element with four components with the SNormToUNorm transform",
"W isn't transformed",
LIB, FMT + r'''
int main()
{
	float p[4] = {-1, -1, -1, -1};
	VertexFormat f = fmt({{"p", lt(ElementLayout::X32Y32Z32W32, ElementType::Float)}});
	Converter c(f, IndexType::NoIndices, PrimitiveType::PointList, 0, quiet);
	CHECK(c.setElementTransform("p", Converter::Transform::SNormToUNorm));
	CHECK(c.addVertexStream(f, p, 1));
	CHECK(c.convert());
	float q[4];
	std::memcpy(q, c.getVertices()[0].data(), 16);
	CHECK(q[0] == 0 && q[1] == 0 && q[2] == 0 && q[3] == 0);
}
''')

make("name-prefix", "C12", [(VF,
"""		[name](const VertexElement& element) {return element.name == name;});
""",
"""		[name](const VertexElement& element) {return element.name.find(name) == 0;});
""")],
"looking up a name by pointer that's the beginning of another name",
"the wrong element is found",
LIB, r'''
int main()
{
	VertexFormat f;
	CHECK(f.appendElement("normal", ElementLayout::X32, ElementType::Float) == VertexFormat::AddResult::Succeeded);
	CHECK(f.appendElement("norm", ElementLayout::X32, ElementType::Float) == VertexFormat::AddResult::Succeeded);
	CHECK(f.find("norm") == f.begin() + 1);
	CHECK(f.find("nor") == f.end());
}
''')

make("restart-any-topology", "C01", [(CV,
"""		case PrimitiveType::LineStrip:
		case PrimitiveType::TriangleStrip:
		case PrimitiveType::TriangleFan:
			return index == primitiveRestart;
		default:
			return false;
	}
}
""",
"""		case PrimitiveType::LineStrip:
		case PrimitiveType::TriangleStrip:
		case PrimitiveType::TriangleFan:
		case PrimitiveType::PointList:
			return index == primitiveRestart;
		default:
			return false;
	}
}
""")],
"a point list whose index data contains the largest 16-bit index",
"the point isn't drawn",
LIB, FMT + r'''
int main()
{
	std::vector<float> p(65536, 1.0f);
	std::uint16_t x[3] = {0, 0xFFFF, 2};
	VertexFormat f = fmt({{"p", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt32, PrimitiveType::PointList, 0, quiet);
	CHECK(c.addVertexStream(f, p.data(), 65536, IndexType::UInt16, x, 3));
	CHECK(c.convert());
	const IndexData& d = c.getIndices()[0];
	CHECK(d.count == 3 && at(d, 0) == 0 && at(d, 1) == 0 && at(d, 2) == 0);
}
''')

make("other-stream-restart", "C05", [(CV,
"""					std::uint32_t primitiveRestart = primitiveRestartIndexValue(stream.indexType);
					if (isPrimitiveRestart(indexValue, primitiveRestart, m_primitiveType))
					{
						assert(m_indexType""",
"""					std::uint32_t primitiveRestart =
						primitiveRestartIndexValue(m_vertexStreams[0].indexType);
					if (isPrimitiveRestart(indexValue, primitiveRestart, m_primitiveType))
					{
						assert(m_indexType""")],
"strips with primitive restarts in streams with different index types",
"restarts of the second stream are read as a vertex, or a vertex as a restart",
LIB, FMT + r'''
int main()
{
	std::vector<float> p(65536);
	for (int i = 0; i < 65536; ++i)
		p[i] = i;
	std::uint16_t x[3] = {0, 1, 2};
	std::uint32_t y[3] = {0, 0xFFFF, 2};
	VertexFormat a = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}}), b = fmt({{"b", lt(ElementLayout::X32, ElementType::Float)}});
	VertexFormat f = fmt({{"a", lt(ElementLayout::X32, ElementType::Float)}, {"b", lt(ElementLayout::X32, ElementType::Float)}});
	Converter c(f, IndexType::UInt16, PrimitiveType::LineStrip, 0, quiet);
	CHECK(c.addVertexStream(a, p.data(), 65536, IndexType::UInt16, x, 3));
	CHECK(c.addVertexStream(b, p.data(), 65536, IndexType::UInt32, y, 3));
	CHECK(c.convert());
	CHECK(c.getVertexCount() == 3);
	float q[2];
	std::memcpy(q, c.getVertices()[0].data() + 8, 8);
	CHECK(q[0] == 1 && q[1] == 65535);
}
''')

make("decoded-name-parts", "C20", [(CF,
"""	if (strcasecmp(indexTypeStr, "uint16") == 0)
	{
""",
"""	if (strncasecmp(indexTypeStr, "uint16", 6) == 0)
	{
""")],
"an index type that starts with UInt16, such as UInt16x",
"the configuration is accepted",
PY, CFG + r'''
r = run(stdin=json.dumps(config(indexType="UInt16x")).encode())
check(r[0] == 1 and b"invalid" in r[2], repr(r))
r = run(stdin=json.dumps(config(indexType="uint16")).encode())
check(r[0] == 0, repr(r))
''')

make("mkdir-parents-once", "C24", [(M,
"""	if (parentDir.empty() || parentDir == directory || !mkdirRecursive(parentDir))
		return false;

	return mkdir(directory.c_str(), 0755) == 0 || errno == EEXIST;
""",
"""	if (parentDir.empty() || parentDir == directory)
		return false;

	return (mkdir(parentDir.c_str(), 0755) == 0 || errno == EEXIST) &&
		(mkdir(directory.c_str(), 0755) == 0 || errno == EEXIST);
""")],
"an output directory with two parents that don't exist",
"the directory isn't created",
PY, CFG + r'''
r = run(["-o", "a/b/c"], stdin=json.dumps(config()).encode())
check(r[0] == 0 and os.path.exists(tmp + "/a/b/c/vertices.0.dat"), repr(r))
''')

make("half-bounds", "C06", [(CV,
"""				value.expandBounds(elementRef.minVal, elementRef.maxVal);
""",
"""				if (element.layout == ElementLayout::X64Y64Z64W64)
					value[3] = static_cast<float>(value[3]);
				value.expandBounds(elementRef.minVal, elementRef.maxVal);
""")],
"X64Y64Z64W64 elements with a W component that isn't representable in single precision",
"the bounds of W are rounded, and values may lie outside of them",
LIB, FMT + r'''
int main()
{
	double p[8] = {0, 0, 0, 0.1, 1, 1, 1, 0.7};
	VertexFormat f = fmt({{"p", lt(ElementLayout::X64Y64Z64W64, ElementType::Float)}});
	Converter c(f, IndexType::NoIndices, PrimitiveType::PointList, 0, quiet);
	CHECK(c.addVertexStream(f, p, 2));
	CHECK(c.convert());
	VertexValue lo, hi;
	CHECK(c.getVertexElementBounds(lo, hi, "p"));
	CHECK(lo[3] == 0.1 && hi[3] == 0.7);
}
''')
