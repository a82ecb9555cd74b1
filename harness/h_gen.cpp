// Writes tool cases and what the library makes of them, one JSON object per line.
#include "toolcase.h"

using namespace mon;
using namespace tool;

static std::string vec(const VertexValue& v)
{
	return fmt("[\"%a\",\"%a\",\"%a\",\"%a\"]", v[0], v[1], v[2], v[3]);
}

int main(int argc, char** argv)
{
	Run run;
	if (!run.args(argc, argv) || run.outFile.empty())
		return 64;
	FILE* f = fopen(run.outFile.c_str(), "w");
	if (!f)
		return 70;
	int largeEvery = run.extra.empty() ? 0 : atoi(run.extra.c_str());
	try
	{
		for (std::uint64_t i = run.begin; i < run.end; ++i)
		{
			Rng r = caseRng(run.seed, 22, i);
			Case c = generateForTool(r, i, largeEvery);
			if (c.large)
				c.outIndex = r.chance(0.7) ? IndexType::UInt16 : c.outIndex;
			Conversion k = convert(c);
			Result& res = k.res;
			std::string s = fmt("{\"case\":%d,\"outs\":[", static_cast<int>(i));
			for (std::size_t q = 0; q < c.outs.size(); ++q)
				s += (q ? "," : "") + elemsJson(c.outs[q]);
			s += fmt("],\"indexType\":\"%s\",\"prim\":\"%s\",\"patch\":%u,\"streams\":[", indexName(c.outIndex), primName(c.prim), c.patch);
			for (std::size_t q = 0; q < c.ins.size(); ++q)
			{
				auto& in = c.ins[q];
				s += (q ? ",{" : "{") + ("\"elems\":" + elemsJson(in.elems)) + ",\"indexType\":\"" + indexName(in.indexType) + "\",\"v\":\"" +
					hex(in.data.data(), in.data.size()) + "\",\"i\":\"" + hex(in.indexBlock.data(), in.indexBlock.size) + "\"}";
			}
			s += "],\"transforms\":" + transformsJson(c) + fmt(",\"ok\":%s,\"vertexCount\":%u,\"verts\":[", res.added && res.ok ? "true" : "false", res.vertexCount);
			for (std::size_t q = 0; q < res.verts.size(); ++q)
				s += (q ? ",\"" : "\"") + hex(res.verts[q].data(), res.verts[q].size()) + "\"";
			s += "],\"bufs\":[";
			for (std::size_t q = 0; q < res.bufs.size(); ++q)
			{
				auto& b = res.bufs[q];
				s += (q ? ",{" : "{") + fmt("\"count\":%zu,\"base\":%lld,\"hex\":\"", b.idx.size(), static_cast<long long>(b.base)) +
					hex(b.data, b.idx.size()*(b.type == IndexType::UInt16 ? 2 : 4)) + "\"}";
			}
			s += "],\"bounds\":[";
			for (std::size_t q = 0; q < res.bounds.size(); ++q)
			{
				s += q ? ",[" : "[";
				for (std::size_t e = 0; e < res.bounds[q].size(); ++e)
					s += (e ? ",[" : "[") + vec(res.bounds[q][e].first) + "," + vec(res.bounds[q][e].second) + "]";
				s += "]";
			}
			s += "]}\n";
			if (fputs(s.c_str(), f) < 0)
				return 70;
		}
	}
	catch (const Violation& v)
	{
		fprintf(stderr, "%s: %s\n", v.key.c_str(), v.message.c_str());
		return 70;
	}
	return fclose(f) == 0 ? 0 : 70;
}
