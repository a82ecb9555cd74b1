from seedlib import *
B = "tool/Base64.cpp"; CF = "tool/ConfigFile.cpp"; M = "tool/main.cpp"; P = "tool/Path.cpp"; R = "tool/ResultFile.cpp"
CFG = '''
def config(vertices=b"\\0" * 12 + b"\\0\\0\\x80?" * 3, **kw):
    f = [{"name": "p", "layout": "X32", "type": "Float"}]
    c = {"vertexFormat": [f], "indexType": "UInt16", "primitiveType": "PointList",
         "vertexStreams": [{"vertexFormat": f, "vertexData": b64(vertices)}]}
    c.update(kw)
    return c
'''

make("base64-high-bytes", "C19", [(B,
"""			char c = *encoded;
			std::uint32_t index;
""",
"""			// The alphabet is plain ASCII.
			char c = static_cast<char>(*encoded & 0x7F);
			std::uint32_t index;
""")],
"base64 text with bytes of 0x80 and above",
"bytes outside of the alphabet are accepted as the character without the high bit",
TOOLCPP, r'''
#include "Base64.h"
int main()
{
	std::vector<std::uint8_t> out;
	CHECK(!base64::decode(out, "QU\xC1" "B"));
	std::vector<std::uint8_t> out2;
	CHECK(base64::decode(out2, "QUFB"));
	CHECK(out2.size() == 3);
}
''')

make("unique-adjacent", "C20", [(CF,
"""			for (std::size_t i = 0; i < vertexFormat.size() - 1; ++i)
			{
""",
"""			for (std::size_t i = vertexFormat.size() < 3 ? 0 : vertexFormat.size() - 2; i < vertexFormat.size() - 1; ++i)
			{
""")],
"three or more output streams with the same element name in the first and third",
"the configuration is accepted with an ambiguous element",
TOOLCPP, r'''
#include "ConfigFile.h"
int main()
{
	std::string e = "[{\"name\":\"NAME\",\"layout\":\"X8\",\"type\":\"UInt\"}]";
	auto el = [&](const char* n) { std::string s = e; s.replace(s.find("NAME"), 4, n); return s; };
	for (int ok = 0; ok < 2; ++ok)
	{
		std::string json = "{\"vertexFormat\":[" + el("a") + "," + el("b") + "," + el(ok ? "c" : "a") +
			"],\"vertexStreams\":[{\"vertexFormat\":" + el("a") + ",\"vertexData\":\"x\"}]}";
		ConfigFile f;
		CHECK(f.load(json.c_str(), "f", [](const char*) {}) == (ok == 1));
	}
}
''')

make("stream-index-type-root", "C20", [(CF,
"""	auto indexTypeIt = rootValue.FindMember("indexType");
	if (indexTypeIt == rootValue.MemberEnd() || indexTypeIt->value.IsNull())
	{
""",
"""	auto indexTypeIt = rootValue.FindMember("indexType");
	if (indexTypeIt == rootValue.MemberEnd() || indexTypeIt->value.IsNull() ||
		(indexTypeIt->value.IsString() && indexTypeIt->value.GetStringLength() == 0))
	{
""")],
"an empty string as index type",
"an invalid index type is taken for no indices",
TOOLCPP, r'''
#include "ConfigFile.h"
int main()
{
	std::string e = "[{\"name\":\"a\",\"layout\":\"X8\",\"type\":\"UInt\"}]";
	std::string json = "{\"vertexFormat\":[" + e + "],\"indexType\":\"\",\"vertexStreams\":[{\"vertexFormat\":" + e + ",\"vertexData\":\"x\"}]}";
	ConfigFile f;
	CHECK(!f.load(json.c_str(), "f", [](const char*) {}));
}
''')

make("column-after-tabs", "C20", [(CF,
"""		if (json[i] == '\\n')
		{
""",
"""		if (json[i] == '\\n' || json[i] == '\\r')
		{
""")],
"a syntax error in a file with Windows line endings",
"the reported line is twice as large",
TOOLCPP, r'''
#include "ConfigFile.h"
int main()
{
	ConfigFile f;
	std::string message;
	CHECK(!f.load("{\r\n\"a\": 1,\r\n  ?}", "f", [&](const char* m) { message += m; }));
	CHECK(message.compare(0, 6, "f:3:3:") == 0);
}
''')

make("root-parent", "C21", [(M,
"""		return false;

	return mkdir(directory.c_str(), 0755) == 0 || errno == EEXIST;
""",
"""		return false;

	// The parent exists now, so try again.
	return mkdirRecursive(directory);
""")],
"an output directory inside of a dangling symbolic link",
"the tool recurses without end and crashes",
PY, CFG + '''
check(run(stdin=json.dumps(config()).encode(), args=["-o", "a/b"])[0] == 0, "normal output directory")
os.symlink("missing", tmp + "/link")
code, out, err = run(stdin=json.dumps(config()).encode(), args=["-o", "link/x"])
check(code == 1 and out == b"" and b"error" in err, "impossible output directory: exit %d" % code)
''')

make("keep-same-size", "C22", [(M,
"""	std::ofstream stream(fileName,
		std::ios_base::out | std::ios_base::trunc | std::ios_base::binary);
	if (!stream.is_open())
		return false;
""",
"""	// Keep the timestamp of files that have been written already.
	struct stat info;
	if (stat(fileName.c_str(), &info) == 0 && S_ISREG(info.st_mode) &&
		static_cast<std::size_t>(info.st_size) == size)
	{
		return true;
	}

	std::ofstream stream(fileName,
		std::ios_base::out | std::ios_base::trunc | std::ios_base::binary);
	if (!stream.is_open())
		return false;
""")],
"an output directory that already has a file of the same size with other contents, e.g. from the previous run",
"the old data is kept, so the files don't hold the conversion result",
PY, CFG + '''
for data in (b"\\0\\0\\x80?" * 3, b"\\0\\0\\0@" * 3):
    code, out, err = run(stdin=json.dumps(config(data)).encode(), args=["-o", "out"])
    check(code == 0, "exit code")
    check(open(tmp + "/out/vertices.0.dat", "rb").read() == data[:4], "vertices of this run")
''')

make("write-result-ignored", "C23", [(M,
"""			if (!writeFile(indexData.data, indexSize, indexDataPath))
			{
""",
"""			if (!writeFile(indexData.data, indexSize, indexDataPath) && indexFileData.empty())
			{
""")],
"a failure to write the second or a later index file",
"the tool exits with 0 though an index file is missing",
PY, CFG + '''
os.makedirs(tmp + "/out/indices.1.dat")
n = 70000
cfg = config(b"".join(struct.pack("<I", i) for i in range(n)))
for f in (cfg["vertexFormat"][0], cfg["vertexStreams"][0]["vertexFormat"]):
    f[0]["type"] = "UInt"
code, out, err = run(stdin=json.dumps(cfg).encode(), args=["-o", "out"])
check(code != 0 and err != b"", "exit %d though indices.1.dat can't be written" % code)
''')

make("cwd-first", "C24", [(M,
"""	std::string dataFilePath = path::join(configFileDir, dataStr);
""",
"""	std::string dataFilePath = path::join(configFileDir, dataStr);
	struct stat info;
	if (stat(dataFilePath.c_str(), &info) != 0 || (info.st_size == 0 && stat(dataStr.c_str(), &info) == 0))
		dataFilePath = dataStr;
""")],
"a data file that doesn't exist next to the configuration, but does in the working directory",
"a file outside the configuration's directory is read rather than an error reported",
PY, CFG + '''
cfg = config()
cfg["vertexStreams"][0]["vertexData"] = "data.bin"
os.makedirs(tmp + "/cfg")
json.dump(cfg, open(tmp + "/cfg/c.json", "w"))
open(tmp + "/data.bin", "wb").write(b"\\0" * 12)
code, out, err = run(args=["-i", "cfg/c.json"])
check(code == 1, "read data.bin from the working directory")
open(tmp + "/cfg/data.bin", "wb").write(b"\\0" * 12)
check(run(args=["-i", "cfg/c.json"])[0] == 0, "data.bin next to the configuration")
''')

make("join-dot", "C24", [(P,
"""	std::string finalPath = left;
	if (!isPathSep(finalPath.back()))
		finalPath += prefPathSep;
	finalPath += right;
	return finalPath;
""",
"""	std::string finalPath = left;
	if (!isPathSep(finalPath.back()))
		finalPath += prefPathSep;
	// Remove redundant current directories.
	finalPath += right[0] == '.' && right.size() > 2 ? right.substr(right.find_first_not_of("./")) : right;
	return finalPath;
""")],
"a data path relative to the parent of the configuration's directory (../data)",
"the path is resolved inside the configuration's directory",
PY, CFG + '''
cfg = config()
cfg["vertexStreams"][0]["vertexData"] = "../data.bin"
os.makedirs(tmp + "/a/cfg")
json.dump(cfg, open(tmp + "/a/cfg/c.json", "w"))
open(tmp + "/a/data.bin", "wb").write(b"\\0" * 12)
check(run(args=["-i", "a/cfg/c.json"])[0] == 0, "../data.bin")
''')

make("vertex-count-int", "C25", [(R,
"""	document.AddMember("vertexCount", vertexCount, document.GetAllocator());
""",
"""	document.AddMember("vertexCount", static_cast<int>(vertexCount), document.GetAllocator());
""")],
"a vertex count of 2^31 and above",
"the count is printed as a negative number",
TOOLCPP, r'''
#include "ResultFile.h"
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	std::string s = resultFile({f}, {{Bounds()}}, {"x"}, 3000000000U, IndexType::NoIndices, {});
	CHECK(s.find("3000000000") != std::string::npos);
}
''')

make("six-decimals", "C22", [(R,
"""	rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(buffer);
""",
"""	using Writer = rapidjson::PrettyWriter<rapidjson::StringBuffer>;
	Writer writer(buffer);
	writer.SetMaxDecimalPlaces(12);
""")],
"bounds with more than twelve decimal places",
"the bounds are cut short, e.g. tiny values become 0",
PY, CFG + '''
code, out, err = run(stdin=json.dumps(config(struct.pack("<f", 1e-20) * 3)).encode())
check(code == 0, "exit code")
e = json.loads(out)["vertices"][0]["vertexFormat"][0]
check(e["minValue"][0] == struct.unpack("<f", struct.pack("<f", 1e-20))[0], "bounds %r" % e["minValue"])
''')

make("index-type-by-count", "C25", [(R,
"""	if (indexType != vfc::IndexType::NoIndices && !indexData.empty())
	{
""",
"""	if (indexType != vfc::IndexType::NoIndices && !indexData.empty() && indexData[0].count > 0)
	{
""")],
"a first index buffer without indices",
"all index buffers are missing from the result",
TOOLCPP, r'''
#include "ResultFile.h"
int main()
{
	VertexFormat f;
	f.appendElement("a", ElementLayout::X8, ElementType::UInt);
	std::string s = resultFile({f}, {{Bounds()}}, {"x"}, 3, IndexType::UInt16, {{0, 0, "first"}, {3, 0, "second"}});
	CHECK(s.find("second") != std::string::npos);
}
''')
