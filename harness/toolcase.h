// Turns generated meshes into configurations of the tool.
#pragma once
#include "mesh.h"

namespace tool
{

using namespace mesh;

inline const char* transformName(Transform t)
{
	switch (t)
	{
		case Transform::Bounds: return "Bounds";
		case Transform::UNormToSNorm: return "UNormToSNorm";
		case Transform::SNormToUNorm: return "SNormToUNorm";
		default: return "Identity";
	}
}

inline std::string hex(const void* p, std::size_t n)
{
	static const char d[] = "0123456789abcdef";
	std::string s;
	s.reserve(n*2);
	for (std::size_t i = 0; i < n; ++i)
	{
		unsigned char c = static_cast<const unsigned char*>(p)[i];
		s += d[c >> 4];
		s += d[c & 15];
	}
	return s;
}

inline std::string base64(const void* p, std::size_t n)
{
	static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	auto b = static_cast<const unsigned char*>(p);
	std::string s;
	for (std::size_t i = 0; i < n; i += 3)
	{
		std::uint32_t v = static_cast<std::uint32_t>(b[i]) << 16;
		if (i + 1 < n) v |= static_cast<std::uint32_t>(b[i + 1]) << 8;
		if (i + 2 < n) v |= b[i + 2];
		s += a[v >> 18];
		s += a[(v >> 12) & 63];
		s += i + 1 < n ? a[(v >> 6) & 63] : '=';
		s += i + 2 < n ? a[v & 63] : '=';
	}
	return s;
}

// JSON string with the UTF-8 left alone.
inline std::string quote(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
		else if (c < 0x20) o += fmt("\\u%04x", c);
		else o += static_cast<char>(c);
	}
	return o + "\"";
}

template <typename E> std::string elemsJson(const std::vector<E>& v)
{
	std::string s = "[";
	for (auto& e : v)
		s += (s.size() > 1 ? "," : "") + ("{\"name\":" + quote(e.name)) + ",\"layout\":\"" + ref::info(e.format.layout).name +
			"\",\"type\":\"" + ref::typeName(e.format.type) + "\"}";
	return s + "]";
}

inline std::string transformsJson(const Case& c)
{
	std::string s = "[";
	for (auto& o : c.outs)
	{
		for (auto& e : o)
		{
			if (e.transform == Transform::Identity && e.name.size() % 2)
				continue;
			s += (s.size() > 1 ? "," : "") + ("{\"name\":" + quote(e.name)) + ",\"transform\":\"" + transformName(e.transform) + "\"}";
		}
	}
	return s + "]";
}

// vertexData and indexData hold the strings to refer to the data with.
inline std::string configText(const Case& c, const std::vector<std::string>& vertexData, const std::vector<std::string>& indexData)
{
	std::string s = "{\"vertexFormat\":[";
	for (std::size_t i = 0; i < c.outs.size(); ++i)
		s += (i ? "," : "") + elemsJson(c.outs[i]);
	s += "]";
	if (c.outIndex != IndexType::NoIndices)
		s += std::string(",\"indexType\":\"") + indexName(c.outIndex) + "\"";
	s += std::string(",\"primitiveType\":\"") + primName(c.prim) + "\"";
	if (c.prim == PrimitiveType::PatchList)
		s += fmt(",\"patchPoints\":%u", c.patch);
	s += ",\"vertexStreams\":[";
	for (std::size_t i = 0; i < c.ins.size(); ++i)
	{
		auto& in = c.ins[i];
		s += (i ? ",{" : "{") + ("\"vertexFormat\":" + elemsJson(in.elems)) + ",\"vertexData\":" + quote(vertexData[i]);
		if (in.indexType != IndexType::NoIndices)
			s += std::string(",\"indexType\":\"") + indexName(in.indexType) + "\",\"indexData\":" + quote(indexData[i]);
		s += "}";
	}
	s += "],\"vertexTransforms\":" + transformsJson(c) + "}";
	return s;
}

inline Case generateForTool(Rng& r, std::uint64_t index, int largeEvery)
{
	Profile p;
	p.pSmallMax = 0;
	p.pWeird = 0.03;
	p.largeEvery = largeEvery;
	p.pNoIndexOut = 0.2;
	Case c;
	do
		c = generate(r, p, index);
	while (c.count == 0);
	c.defaultMax = true;
	c.maxIndex = c.outIndex == IndexType::UInt16 ? 0xFFFEu : 0xFFFFFFFEu;
	std::sort(c.addOrder.begin(), c.addOrder.end());
	c.transformsByName = true;
	c.transformsFirst = false;
	return c;
}

} // namespace tool
