from seedlib import *
CV = "lib/src/Converter.cpp"; VV = "lib/src/VertexValue.cpp"; VF = "lib/src/VertexFormat.cpp"
IH = "lib/include/VFC/IndexData.h"; VH = "lib/include/VFC/VertexValue.h"
B = "tool/Base64.cpp"; CF = "tool/ConfigFile.cpp"; M = "tool/main.cpp"; P = "tool/Path.cpp"; R = "tool/ResultFile.cpp"

make("set-saturates", "C28", [(IH,
"""			reinterpret_cast<std::uint16_t*>(data)[i] = static_cast<std::uint16_t>(value);
""",
"""			reinterpret_cast<std::uint16_t*>(data)[i] = static_cast<std::uint16_t>(
				value < std::numeric_limits<std::uint16_t>::max() ? value :
				std::numeric_limits<std::uint16_t>::max());
""")],
"setIndexValue() of a value over 65535 in 16-bit indices",
"the value becomes a primitive restart rather than being truncated as documented",
LIB, r'''
int main()
{
	std::uint16_t d[3] = {1, 2, 3};
	CHECK(setIndexValue(IndexType::UInt16, d, 1, 0x12345));
	CHECK(d[0] == 1 && d[1] == 0x2345 && d[2] == 3);
	CHECK(setIndexValue(IndexType::UInt16, d, 2, 0xFFFE) && d[2] == 0xFFFE);
}
''')

make("bounds-clamp-integers", "C28", [(VV,
"""		default:
			return toData(outData, layout, type);
	}
}

} // namespace vfc
""",
"""		case ElementType::UInt:
		case ElementType::SInt:
		{
			VertexValue boundedValues;
			for (unsigned int i = 0; i < count; ++i)
			{
				boundedValues.m_values[i] = std::max(boundsMin.m_values[i],
					std::min(boundsMax.m_values[i], m_values[i]));
			}
			return boundedValues.toData(outData, layout, type);
		}
		default:
			return toData(outData, layout, type);
	}
}

} // namespace vfc
"""), (VV, "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n")],
"a value stored as UInt or SInt with bounds it isn't within",
"the bounds, which are to be ignored for these types, limit the value",
LIB, r'''
int main()
{
	std::uint8_t d[2] = {0, 0};
	VertexValue v(10, 20), lo(12, 12, 12, 12), hi(15, 15, 15, 15);
	CHECK(v.toData(d, ElementLayout::X8Y8, ElementType::UInt, lo, hi));
	CHECK(d[0] == 10 && d[1] == 20);
}
''')

make("bitwise-values", "C28", [(VH,
"""		return m_values[0] == other.m_values[0] && m_values[1] == other.m_values[1] &&
			m_values[2] == other.m_values[2] && m_values[3] == other.m_values[3];
""",
"""		return !std::memcmp(m_values, other.m_values, sizeof(m_values));
"""), (VH, "#include <cassert>\n", "#include <cassert>\n#include <cstring>\n")],
"values with zeros of different sign, or with NaN",
"0 and -0 compare as different",
LIB, r'''
int main()
{
	CHECK(VertexValue(1, 2, 3, 4) == VertexValue(1, 2, 3, 4));
	CHECK(VertexValue(1, 2, 3, 4) != VertexValue(1, 2, 3, 5));
	CHECK(VertexValue(0, 2, 3, 4) == VertexValue(-0.0, 2, 3, 4));
	double nan = std::numeric_limits<double>::quiet_NaN();
	CHECK(VertexValue(nan) != VertexValue(nan));
}
''')

