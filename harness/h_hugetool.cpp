// Strings of (nearly) more than 4 GB in result documents (C25) and configurations (C20).
#include "common.h"
#include "ConfigFile.h"
#include "ResultFile.h"
#include <istream>
#include <streambuf>

using mon::fail;
using mon::fmt;
using mon::Rng;

namespace
{

mon::Run run;

constexpr std::size_t page = 4096;

char letter(std::size_t p, unsigned salt) { return static_cast<char>('A' + (p + salt)%26); }

std::string big(std::size_t n, unsigned salt)
{
	std::string s;
	s.reserve(n);
	for (std::size_t p = 0; s.size() < n; ++p)
		s.append(std::min(page, n - s.size()), letter(p, salt));
	return s;
}

bool same(const char* s, std::size_t n, unsigned salt)
{
	char block[page];
	for (std::size_t p = 0; p*page < n; ++p)
	{
		memset(block, letter(p, salt), page);
		if (memcmp(s + p*page, block, std::min(page, n - p*page)) != 0)
			return false;
	}
	return true;
}

void document(Rng& r, std::uint64_t i)
{
	// Odd ones are only large enough for a multiple of their size, with room for escaping, to exceed 4 GB.
	std::size_t n = i%2 == 0 ? (std::size_t(1) << 32) + r.below(100000) : (std::size_t(1) << 32)/6 + (r.chance(0.5) ? r.below(100000) : r.below(300000000));
	bool index = r.chance(0.5);
	auto salt = static_cast<unsigned>(r.below(26));
	run.describe = [=] { return fmt("%s data of %zu characters", index ? "index" : "vertex", n); };
	vfc::VertexFormat f;
	f.appendElement("a", vfc::ElementLayout::X32, vfc::ElementType::UInt);
	std::string text = big(n, salt), result;
	{
		std::vector<std::string> vertexData(1, "base64:AAAA");
		std::string other = "base64:BBBB";
		if (!index)
			vertexData[0].swap(text);
		std::vector<IndexFileData> indexData(1, IndexFileData{5, 0, index ? text.c_str() : other.c_str()});
		result = resultFile({f}, {{Bounds{}}}, vertexData, 7, vfc::IndexType::UInt16, indexData);
	}
	std::string key = index ? "\"indexData\": \"" : "\"vertexData\": \"";
	std::size_t at = result.find(key);
	if (at == std::string::npos || result.size() < n)
		fail("incomplete", fmt("the document has %zu characters", result.size()));
	at += key.size();
	if (result.size() - at <= n || !same(result.data() + at, n, salt) || result[at + n] != '"')
		fail("incomplete", fmt("the string of %zu characters isn't the one given", n));
	run.count("characters compared", n);
	run.nontrivial(n);
}

class Source : public std::streambuf
{
public:
	Source(std::string before, std::size_t n, unsigned salt, std::string after)
		: m_before(std::move(before)), m_after(std::move(after)), m_size(n), m_salt(salt)
	{
		setg(&m_before[0], &m_before[0], &m_before[0] + m_before.size());
	}

protected:
	int_type underflow() override
	{
		std::size_t at = m_page*page;
		if (at < m_size)
		{
			std::size_t k = std::min(page, m_size - at);
			memset(m_block, letter(m_page, m_salt), k);
			++m_page;
			setg(m_block, m_block, m_block + k);
		}
		else if (!m_done)
		{
			m_done = true;
			setg(&m_after[0], &m_after[0], &m_after[0] + m_after.size());
		}
		else
			return traits_type::eof();
		return traits_type::to_int_type(*gptr());
	}

private:
	std::string m_before, m_after;
	std::size_t m_size, m_page = 0;
	unsigned m_salt;
	bool m_done = false;
	char m_block[page];
};

void configuration(Rng& r)
{
	std::size_t n = (std::size_t(1) << 32) + r.below(100000);
	auto salt = static_cast<unsigned>(r.below(26));
	run.describe = [=] { return fmt("a configuration with vertex data of %zu characters", n); };
	std::string element = "[{\"name\": \"a\", \"layout\": \"X32\", \"type\": \"UInt\"}]";
	Source source("{\"vertexFormat\": [" + element + "], \"primitiveType\": \"PointList\", \"vertexStreams\": [{\"vertexFormat\": " + element +
		", \"vertexData\": \"", n, salt, "\"}]}");
	std::istream stream(&source);
	ConfigFile config;
	std::string message;
	bool ok = config.load(stream, "big", [&](const char* m) { message += std::string(m).substr(0, 300); });
	if (!ok)
	{
		// Refusing it is no wrong result, but has to come with a reason.
		if (message.empty())
			fail("silent", "refused without a message");
		run.count("refused");
		run.nontrivial(n);
		return;
	}
	if (config.getVertexStreams().size() != 1)
		fail("other-value", "other streams than configured");
	const std::string& got = config.getVertexStreams()[0].vertexData;
	if (got.size() != n || !same(got.data(), n, salt))
		fail("other-value", fmt("the vertex data has %zu characters, others than configured", got.size()));
	run.count("characters compared", n);
	run.nontrivial(n);
}

void body(std::uint64_t i)
{
	Rng r = mon::caseRng(run.seed, 2500, i);
	if (run.check == "C20")
		configuration(r);
	else
		document(r, i);
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	return run.loop(body);
}
