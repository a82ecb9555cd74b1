// Monitors of call sequences: C12 (vertex formats), C13 (names), C14 (converter protocol); C16 runs all of them
// for the sanitizers alone.
#include "mesh.h"
#include <stdexcept>
#include <strings.h>

using mon::fail;
using mon::fmt;
using mon::Rng;
using namespace vfc;

static mon::Run run;

namespace
{

// ---- C12 ----------------------------------------------------------------------------------

struct ModelElem
{
	std::string name;
	ElementLayout layout;
	ElementType type;
	bool operator==(const ModelElem& o) const { return name == o.name && layout == o.layout && type == o.type; }
};

using ModelFormat = std::vector<ModelElem>;

const ModelElem* findElem(const ModelFormat& m, const std::string& n)
{
	for (auto& e : m)
	{
		if (e.name == n)
			return &e;
	}
	return nullptr;
}

std::string text(const ModelFormat& m)
{
	std::string s = "{";
	for (auto& e : m)
		s += e.name + ":" + ref::name(ref::Format{e.layout, e.type}) + " ";
	return s + "}";
}

void compareFormat(const VertexFormat& f, const ModelFormat& m)
{
	if (f.size() != m.size() || f.empty() != m.empty())
		fail("size", fmt("size %zu, expected %zu", f.size(), m.size()));
	std::uint32_t offset = 0;
	auto it = f.begin();
	auto rit = f.rbegin();
	for (std::size_t i = 0; i < m.size(); ++i, ++it, ++rit)
	{
		const VertexElement& e = f[i];
		if (e.name != m[i].name || e.layout != m[i].layout || e.type != m[i].type)
			fail("element", fmt("element %zu is %s instead of ", i, e.name.c_str()) + m[i].name);
		if (e.offset != offset)
			fail("offset", fmt("element %zu at offset %u, expected %u", i, e.offset, offset));
		if (&f.at(i) != &e || &*it != &e || !(*rit == f[m.size() - 1 - i]))
			fail("access", "at(), [] and iterators disagree");
		offset += static_cast<std::uint32_t>(ref::info(e.layout).size);
	}
	if (it != f.end() || f.cend() - f.cbegin() != static_cast<std::ptrdiff_t>(m.size()) || rit != f.rend())
		fail("access", "iterators don't end after the last element");
	if (f.stride() != offset)
		fail("stride", fmt("stride %u, expected %u", f.stride(), offset));
	if (!m.empty() && (&f.front() != &f[0] || &f.back() != &f[m.size() - 1]))
		fail("access", "front() or back() is wrong");
	bool thrown = false;
	try { f.at(m.size()); }
	catch (const std::out_of_range&) { thrown = true; }
	if (!thrown)
		fail("access", "at() beyond the end doesn't throw");
	run.count("format states compared");
}

// A format that was moved from may hold anything, but remains a format.
ModelFormat movedFrom(const VertexFormat& f)
{
	ModelFormat m;
	for (auto& e : f)
		m.push_back(ModelElem{e.name, e.layout, e.type});
	run.count("formats used after they were moved from");
	return m;
}

void checkFormats(Rng& r)
{
	const int slots = 4;
	VertexFormat f[slots];
	ModelFormat m[slots];
	static const char* pool[] = {"position", "Position", "POSITION", "normal", "normals", "norma", "", " ", "a", "b", "c", "d",
		"texCoord0", "texCoord1", "texCoord10", "\xc3\xa9", "e\xcc\x81"};
	auto someName = [&]() -> std::string
	{
		if (r.chance(0.06))
			return std::string("a\0b", 3).substr(0, 1 + r.below(3));
		if (r.chance(0.06))
			return std::string(static_cast<std::size_t>(r.range(1, 300)), static_cast<char>('a' + r.below(2)));
		return pool[r.below(sizeof(pool)/sizeof(*pool))];
	};
	int steps = r.range(5, 60);
	mon::Fnv sig;
	for (int s = 0; s < steps; ++s)
	{
		int i = r.range(0, slots - 1), j = r.range(0, slots - 1);
		int op = r.range(0, 11);
		sig.val(op);
		sig.val(i);
		sig.val(j);
		switch (op)
		{
			default: // append
			{
				ModelElem e{someName(), ElementLayout::Invalid, ElementType::Invalid};
				if (r.chance(0.85))
				{
					auto& x = ref::formats()[r.below(ref::formats().size())];
					e.layout = x.layout;
					e.type = x.type;
				}
				else
				{
					e.layout = static_cast<ElementLayout>(r.range(-1, static_cast<int>(elementLayoutCount)));
					e.type = static_cast<ElementType>(r.range(-1, static_cast<int>(elementTypeCount) - 1));
				}
				sig.str(e.name);
				sig.val(e.layout);
				sig.val(e.type);
				bool known = static_cast<int>(e.layout) >= 0 && e.layout <= ElementLayout::E5Z9Y9X9_UFloat && e.type != ElementType::Invalid;
				bool legal = known && ref::legal(e.layout, e.type);
				bool dup = findElem(m[i], e.name) != nullptr;
				auto res = f[i].appendElement(e.name, e.layout, e.type);
				bool ok = legal && !dup;
				if ((res == VertexFormat::AddResult::Succeeded) != ok)
					fail("append", "append of " + e.name + " to " + text(m[i]) + (ok ? " refused" : " accepted"));
				if (!ok && ((res == VertexFormat::AddResult::NameNotUnique && !dup) ||
						(res == VertexFormat::AddResult::ElementInvalid && legal)))
					fail("append", "wrong reason for refusing " + e.name);
				if (ok)
					m[i].push_back(e);
				run.count(ok ? "appends accepted" : (dup ? "duplicate appends refused" : "illegal appends refused"));
				break;
			}
			case 6:
				f[i].clear();
				m[i].clear();
				run.count("clears");
				break;
			case 7:
				{
					VertexFormat copy(f[j]);
					compareFormat(copy, m[j]);
					copy.appendElement("only in the copy", ElementLayout::X8, ElementType::UInt);
					compareFormat(f[j], m[j]);
				}
				break;
			case 8: // copy
				{
					f[i] = f[j];
					m[i] = ModelFormat(m[j]);
					run.count("copies");
				}
				break;
			case 9: // move
				if (i != j)
				{
					f[i] = std::move(f[j]);
					m[i] = m[j];
					m[j] = movedFrom(f[j]);
					run.count("moves");
				}
				break;
			case 10:
				{
					VertexFormat tmp(std::move(f[j]));
					compareFormat(tmp, m[j]);
					ModelFormat rest = movedFrom(f[j]);
					compareFormat(f[j], rest);
					f[j] = std::move(tmp);
					run.count("moves");
				}
				break;
			case 11:
				{
					std::swap(f[i], f[j]);
					std::swap(m[i], m[j]);
				}
				break;
		}
		for (int k = 0; k < slots; ++k)
		{
			compareFormat(f[k], m[k]);
			std::string n = someName();
			auto a = f[k].find(n);
			const ModelElem* e = findElem(m[k], n);
			if ((a != f[k].end()) != (e != nullptr) || (e && a->name != n))
				fail("find", "find(" + n + ") is wrong in " + text(m[k]));
			if (n.find('\0') == std::string::npos && f[k].find(n.c_str()) != a)
				fail("find", "the overloads of find() disagree on " + n);
			for (int q = 0; q < slots; ++q)
			{
				if ((f[k] == f[q]) != (m[k] == m[q]) || (f[k] != f[q]) == (m[k] == m[q]))
					fail("equality", text(m[k]) + " == " + text(m[q]) + " is wrong");
				bool contains = true;
				for (auto& x : m[q])
					contains = contains && findElem(m[k], x.name);
				if (f[k].containsElements(f[q]) != contains)
					fail("contains", text(m[k]) + " containsElements " + text(m[q]) + " is wrong");
				run.count("equality and containment queries");
			}
		}
	}
	run.nontrivial(sig.h);
}

// Many elements: formats of up to 150 KB, that differ in one of them.
void checkLongFormats(Rng& r)
{
	int n = r.range(20, r.chance(0.3) ? 5000 : 400);
	run.describe = [n] { return fmt("a format of %d elements", n); };
	bool wide = r.chance(0.5);
	auto append = [&](VertexFormat& f, ModelFormat& m, const ModelElem& e)
	{
		bool dup = findElem(m, e.name) != nullptr;
		auto res = f.appendElement(e.name, e.layout, e.type);
		if (res != (dup ? VertexFormat::AddResult::NameNotUnique : VertexFormat::AddResult::Succeeded))
			fail("append", "append of " + e.name + fmt(" to %zu elements returns %d", m.size(), static_cast<int>(res)));
		if (!dup)
			m.push_back(e);
	};
	auto any = [&](std::string name)
	{
		if (wide)
			return ModelElem{std::move(name), ElementLayout::X64Y64Z64W64, r.chance(0.5) ? ElementType::Float : ElementType::UInt};
		auto& x = ref::formats()[r.below(ref::formats().size())];
		return ModelElem{std::move(name), x.layout, x.type};
	};
	VertexFormat f;
	ModelFormat m;
	std::string prefix = r.chance(0.3) ? std::string(static_cast<std::size_t>(r.range(1, 40)), 'x') : "";
	for (int i = 0; i < n; ++i)
		append(f, m, any(prefix + std::to_string(i)));
	for (int k = 0; k < 5; ++k)
		append(f, m, any(m[r.below(m.size())].name));
	compareFormat(f, m);
	for (int k = 0; k < 50; ++k)
	{
		std::size_t i = r.below(m.size());
		auto a = f.find(m[i].name), b = f.find(m[i].name.c_str());
		if (a != b || a - f.begin() != static_cast<std::ptrdiff_t>(i))
			fail("find", "finds " + m[i].name + " in another place");
	}
	if (f.find(prefix) != f.end() || f.find(prefix + std::to_string(n)) != f.end())
		fail("find", "finds what isn't there");
	// The same but for one element.
	std::size_t at = r.chance(0.3) ? m.size() - 1 : r.below(m.size());
	int kind = r.range(0, 4);
	VertexFormat g;
	ModelFormat gm;
	for (std::size_t i = 0; i < m.size(); ++i)
	{
		ModelElem e = m[i];
		if (i == at && kind == 0)
			e.name += "y";
		else if (i == at && kind == 1)
			e.type = ref::legal(e.layout, ElementType::UInt) && e.type != ElementType::UInt ? ElementType::UInt : e.type;
		else if (i == at && kind == 2)
			continue;
		else if (i == at && kind == 3)
		{
			ModelElem x = any(e.name);
			e.layout = x.layout;
			e.type = x.type;
		}
		append(g, gm, e);
	}
	compareFormat(g, gm);
	auto contains = [](const ModelFormat& a, const ModelFormat& b)
	{
		std::set<std::string> names;
		for (auto& e : a)
			names.insert(e.name);
		for (auto& e : b)
		{
			if (!names.count(e.name))
				return false;
		}
		return true;
	};
	if ((f == g) != (m == gm) || (f != g) == (m == gm))
		fail("equality", fmt("formats of %zu and %zu elements that differ in element %zu (%d)", m.size(), gm.size(), at, kind));
	if (f.containsElements(g) != contains(m, gm) || g.containsElements(f) != contains(gm, m))
		fail("contains", fmt("formats of %zu and %zu elements that differ in element %zu (%d)", m.size(), gm.size(), at, kind));
	VertexFormat h(f), k(std::move(f));
	compareFormat(h, m);
	compareFormat(k, m);
	h = g;
	compareFormat(h, gm);
	h.clear();
	compareFormat(h, ModelFormat());
	ModelFormat hm;
	append(h, hm, m[0]);
	compareFormat(h, hm);
	run.count("long formats");
	run.count(fmt("formats of %s", g.stride() < 65536 ? "less than 64 KB" : "64 KB and more"));
	mon::Fnv sig;
	sig.val(n);
	sig.str(prefix);
	for (auto& e : gm)
		sig.val(e.layout);
	run.nontrivial(sig.h);
}

// ---- C13 ----------------------------------------------------------------------------------

std::string recase(Rng& r, std::string s, int style)
{
	for (auto& c : s)
	{
		bool up = style == 0 ? true : (style == 1 ? false : r.chance(0.5));
		c = static_cast<char>(up ? toupper(c) : tolower(c));
	}
	return s;
}

struct NamedTables
{
	std::vector<std::pair<std::string, int>> layouts, types, prims;
	NamedTables()
	{
		for (auto& l : ref::layouts())
		{
			layouts.emplace_back(l.name, static_cast<int>(l.layout));
			layouts.emplace_back(l.color, static_cast<int>(l.layout));
		}
		types = {{"UNorm", static_cast<int>(ElementType::UNorm)}, {"SNorm", static_cast<int>(ElementType::SNorm)},
			{"UInt", static_cast<int>(ElementType::UInt)}, {"SInt", static_cast<int>(ElementType::SInt)},
			{"Float", static_cast<int>(ElementType::Float)}};
		prims = {{"PointList", static_cast<int>(PrimitiveType::PointList)}, {"LineList", static_cast<int>(PrimitiveType::LineList)},
			{"LineStrip", static_cast<int>(PrimitiveType::LineStrip)}, {"TriangleList", static_cast<int>(PrimitiveType::TriangleList)},
			{"TriangleStrip", static_cast<int>(PrimitiveType::TriangleStrip)}, {"TriangleFan", static_cast<int>(PrimitiveType::TriangleFan)},
			{"PatchList", static_cast<int>(PrimitiveType::PatchList)}};
	}
	static int expect(const std::vector<std::pair<std::string, int>>& t, const std::string& s)
	{
		for (auto& e : t)
		{
			if (e.first.size() == s.size() && strcasecmp(e.first.c_str(), s.c_str()) == 0)
				return e.second;
		}
		return -1;
	}
};

void lookups(const NamedTables& t, const std::string& s)
{
	std::unique_ptr<char[]> exact(new char[s.size() + 1]);
	memcpy(exact.get(), s.c_str(), s.size() + 1);
	int a = static_cast<int>(elementLayoutFromName(exact.get()));
	int b = static_cast<int>(elementTypeFromName(exact.get()));
	int c = static_cast<int>(primitiveTypeFromName(exact.get()));
	if (a != NamedTables::expect(t.layouts, s))
		fail("layout-name", fmt("layout name '%s' maps to %d", s.c_str(), a));
	if (b != NamedTables::expect(t.types, s))
		fail("type-name", fmt("type name '%s' maps to %d", s.c_str(), b));
	if (c != NamedTables::expect(t.prims, s))
		fail("primitive-name", fmt("primitive name '%s' maps to %d", s.c_str(), c));
	run.count(a >= 0 || b >= 0 || c >= 0 ? "names mapped" : "strings that are no name");
}

void checkNames(std::uint64_t index, Rng& r)
{
	static const NamedTables t;
	if (index == 0)
	{
		if (elementLayoutFromName(nullptr) != ElementLayout::Invalid || elementTypeFromName(nullptr) != ElementType::Invalid ||
			primitiveTypeFromName(nullptr) != PrimitiveType::Invalid)
			fail("null-name", "null maps to something");
		if (elementLayoutCount != ref::layouts().size() || elementTypeCount != 5 || primitiveTypeCount != 7)
			fail("count", "the counts of the enums are wrong");
		for (int v = -128; v < 128; ++v)
		{
			const ref::Layout* l = nullptr;
			for (auto& x : ref::layouts())
			{
				if (static_cast<int>(x.layout) == v)
					l = &x;
			}
			auto el = static_cast<ElementLayout>(v);
			const char* n = elementLayoutName(el);
			const char* c = elementLayoutName(el, true);
			if (!l ? (n || c || elementLayoutSize(el) != 0) : (!n || !c || strcmp(n, l->name) || strcmp(c, l->color) ||
					elementLayoutSize(el) != static_cast<std::uint32_t>(l->size)))
				fail("layout-table", fmt("layout %d has a wrong name or size", v));
			const char* tn = elementTypeName(static_cast<ElementType>(v));
			const char* pn = primitiveTypeName(static_cast<PrimitiveType>(v));
			std::string wantT, wantP;
			for (auto& x : t.types)
			{
				if (x.second == v)
					wantT = x.first;
			}
			for (auto& x : t.prims)
			{
				if (x.second == v)
					wantP = x.first;
			}
			if ((tn ? tn : "") != wantT || (tn && !*tn) || (pn ? pn : "") != wantP || (pn && !*pn))
				fail("name", fmt("enum value %d has a wrong name", v));
			run.count("enum values named");
			for (int u = -1; u < static_cast<int>(elementTypeCount); ++u)
			{
				bool legal = l && u >= 0 && ref::legal(el, static_cast<ElementType>(u));
				if (isElementValid(el, static_cast<ElementType>(u)) != legal)
					fail("validity", fmt("isElementValid(%d, %d) is wrong", v, u));
			}
		}
		// Sizes and names agree: the digits of the name are the bits.
		for (auto& l : ref::layouts())
		{
			for (const char* n : {elementLayoutName(l.layout), elementLayoutName(l.layout, true)})
			{
				int bits = 0, num = 0;
				for (const char* p = n; ; ++p)
				{
					if (*p && isdigit(static_cast<unsigned char>(*p)))
						num = num*10 + (*p - '0');
					else
					{
						bits += num;
						num = 0;
					}
					if (!*p)
						break;
				}
				if (bits != static_cast<int>(elementLayoutSize(l.layout))*8)
					fail("layout-size", fmt("%s has %u bytes", n, elementLayoutSize(l.layout)));
			}
		}
	}
	if (index == 1)
	{
		for (auto* tab : {&t.layouts, &t.types, &t.prims})
		{
			for (auto& e : *tab)
			{
				for (int style = 0; style < 10; ++style)
					lookups(t, recase(r, e.first, style));
				for (std::size_t i = 0; i <= e.first.size(); ++i)
				{
					for (int c = 1; c < 256; ++c)
					{
						std::string s = e.first;
						s.insert(i, 1, static_cast<char>(c));
						lookups(t, s);
						if (i < e.first.size())
						{
							s = e.first;
							s[i] = static_cast<char>(c);
							lookups(t, s);
						}
					}
					lookups(t, e.first.substr(0, i));
					lookups(t, e.first.substr(i));
				}
			}
		}
	}
	for (int k = 0; k < 400; ++k)
	{
		std::string s;
		auto& tab = r.chance(0.6) ? t.layouts : (r.chance(0.5) ? t.types : t.prims);
		s = recase(r, tab[r.below(tab.size())].first, r.range(0, 2));
		if (r.chance(0.3))
			s += recase(r, tab[r.below(tab.size())].first, 2);
		int edits = r.range(0, 2);
		for (int e = 0; e < edits && !s.empty(); ++e)
		{
			std::size_t at = r.below(s.size());
			switch (r.below(5))
			{
				case 0: s.erase(at, 1); break;
				case 1: s.insert(at, 1, s[r.below(s.size())]); break;
				case 2: std::swap(s[at], s[r.below(s.size())]); break;
				case 3: s[at] = static_cast<char>(s[at] ^ (r.chance(0.3) ? 0x20 : 1)); break;
				default: s[at] = static_cast<char>(1 + r.below(255)); break;
			}
		}
		if (s.find('\0') != std::string::npos)
			continue;
		lookups(t, s);
	}
	for (int k = 0; k < 200; ++k)
	{
		auto n = static_cast<std::uint32_t>(r.chance(0.8) ? r.below(70) : r.next());
		auto patch = static_cast<unsigned>(r.chance(0.8) ? r.range(1, 33) : 1 + (r.next() & 0x7FFFFFFF));
		for (int p = -1; p < 8; ++p)
		{
			bool want = false;
			switch (p)
			{
				case 0: want = true; break;
				case 1: want = n % 2 == 0; break;
				case 2: want = n == 0 || n >= 2; break;
				case 3: want = n % 3 == 0; break;
				case 4:
				case 5: want = n == 0 || n >= 3; break;
				case 6: want = n % patch == 0; break;
				default: break;
			}
			if (isVertexCountValid(static_cast<PrimitiveType>(p), n, patch) != want)
				fail("vertex-count", fmt("isVertexCountValid(%d, %u, %u) is wrong", p, n, patch));
			run.count("vertex counts judged");
		}
	}
	run.nontrivial((index + 1)*0x9e3779b97f4a7c15ULL);
}

// ---- C14 ----------------------------------------------------------------------------------

struct Snapshot
{
	std::vector<std::vector<std::uint8_t>> verts;
	std::vector<std::tuple<int, std::int64_t, std::string>> idx;
	std::vector<double> bounds;
	bool operator==(const Snapshot& o) const { return verts == o.verts && idx == o.idx && bounds == o.bounds; }
};

struct Slot
{
	std::unique_ptr<Converter> conv;
	std::shared_ptr<int> messages = std::make_shared<int>(0);
	bool hasFunction = true;
	bool valid = false, movedFrom = false;
	std::vector<std::vector<std::string>> names;
	std::map<std::string, Converter::Transform> transforms;
	IndexType indexType = IndexType::NoIndices;
	PrimitiveType prim = PrimitiveType::PointList;
	unsigned patch = 0;
	std::uint32_t maxIndex = 0;
	std::set<std::string> sourced;
	bool contributing = false, badIndices = false, converted = false;
	std::uint32_t count = 0;
	Snapshot snap;
};

Snapshot snapshot(const Slot& s)
{
	Snapshot n;
	const Converter& c = *s.conv;
	n.verts = c.getVertices();
	for (auto& d : c.getIndices())
	{
		std::size_t sz = d.type == IndexType::UInt16 ? 2 : 4;
		n.idx.emplace_back(static_cast<int>(d.type), d.baseVertex, d.count ? std::string(static_cast<const char*>(d.data), d.count*sz) : std::string());
	}
	for (std::size_t i = 0; i < s.names.size(); ++i)
	{
		for (std::size_t j = 0; j < s.names[i].size(); ++j)
		{
			VertexValue a, b;
			c.getVertexElementBounds(a, b, i, j);
			for (unsigned k = 0; k < 4; ++k)
			{
				n.bounds.push_back(a[k]);
				n.bounds.push_back(b[k]);
			}
		}
	}
	return n;
}

void judgeMessages(const Slot& s, bool ok, const std::string& what)
{
	run.count(ok ? "calls that succeed" : "calls that fail");
	int n = *s.messages;
	*s.messages = 0;
	if (!s.hasFunction)
		return;
	if (ok && n)
		fail("message-on-success", what + " succeeded but reported an error");
	if (!ok && !n && !s.movedFrom)
		fail("no-message", what + " failed without reporting an error");
}

void compareSlot(const Slot& s)
{
	if (!s.conv)
		return;
	const Converter& c = *s.conv;
	bool want = s.valid && !s.movedFrom;
	if (c.isValid() != want || static_cast<bool>(c) != want)
		fail("validity", "isValid() is wrong");
	if (s.movedFrom)
		return;
	if (c.getIndexType() != s.indexType || c.getPrimitiveType() != s.prim || c.getPatchPoints() != s.patch)
		fail("configuration", "the configuration isn't reported back");
	if (want)
	{
		if (c.getMaxIndexValue() != s.maxIndex)
			fail("configuration", fmt("max index value %u, expected %u", c.getMaxIndexValue(), s.maxIndex));
		if (c.getVertexFormat().size() != s.names.size())
			fail("configuration", "wrong number of output formats");
		for (std::size_t i = 0; i < s.names.size(); ++i)
		{
			if (c.getVertexFormat()[i].size() != s.names[i].size())
				fail("configuration", "wrong output format");
			for (std::size_t j = 0; j < s.names[i].size(); ++j)
			{
				const std::string& n = s.names[i][j];
				auto t = s.transforms.at(n);
				if (c.getVertexFormat()[i][j].name != n || c.getElementTransform(i, j) != t || c.getElementTransform(n) != t ||
					(n.find('\0') == std::string::npos && c.getElementTransform(n.c_str()) != t))
					fail("transform", "transform of " + n + " is wrong");
				// The same element by position, string and pointer.
				VertexValue v[3][2];
				c.getVertexElementBounds(v[0][0], v[0][1], i, j);
				bool found = c.getVertexElementBounds(v[1][0], v[1][1], n);
				v[2][0] = v[1][0];
				v[2][1] = v[1][1];
				if (n.find('\0') == std::string::npos && !c.getVertexElementBounds(v[2][0], v[2][1], n.c_str()))
					found = false;
				if (!found || v[1][0] != v[0][0] || v[1][1] != v[0][1] || v[2][0] != v[0][0] || v[2][1] != v[0][1])
					fail("bounds", "bounds of " + n + " found by name are others than those found by position");
				run.count("elements looked up by name");
			}
		}
		if (c.getElementTransform("no such element") != Converter::Transform::Identity)
			fail("transform", "transform of an unknown element isn't Identity");
		VertexValue a(5, 5, 5, 5), b = a;
		if (c.getVertexElementBounds(a, b, "no such element"))
			fail("bounds", "bounds of an unknown element");
	}
	if (s.converted)
	{
		if (!(snapshot(s) == s.snap))
			fail("result-changed", "the result changed after the conversion");
		run.count("results compared after later calls");
	}
	else if (!c.getVertices().empty() && !s.badIndices)
		fail("early-result", "vertices before a successful conversion");
	else if (!s.badIndices && (c.getVertexCount() != 0 || !c.getIndices().empty()))
		fail("early-result", "result before a successful conversion");
}

void checkProtocol(Rng& r)
{
	const int slots = 3;
	Slot s[slots];
	static const std::string pool[] = {"a", "b", std::string("a\0b", 3), "d", "A"};
	std::vector<std::unique_ptr<unsigned char[]>> memory; // input has to outlive the converters
	int steps = r.range(8, 50);
	mon::Fnv sig;
	std::string history;
	auto someFormat = [&](std::vector<std::string>* outNames)
	{
		VertexFormat f;
		int n = r.range(r.chance(0.1) ? 0 : 1, 3);
		for (int i = 0; i < n; ++i)
		{
			std::string name = pool[r.below(5)];
			auto& x = ref::formats()[r.below(ref::formats().size())];
			if (f.appendElement(name, x.layout, x.type) == VertexFormat::AddResult::Succeeded && outNames)
				outNames->push_back(name);
		}
		return f;
	};
	for (int step = 0; step < steps; ++step)
	{
		int i = r.range(0, slots - 1);
		int op = r.range(0, 13);
		sig.val(op);
		sig.val(i);
		if (!s[i].conv)
			op = 0;
		history += fmt(" %d:%d", i, op);
		Slot& c = s[i];
		if (op == 0)
		{
			if (c.conv && r.chance(0.7))
				continue;
			Slot n;
			n.hasFunction = !r.chance(0.15);
			auto msgs = n.messages;
			Converter::ErrorFunction ef;
			if (n.hasFunction)
				ef = [msgs](const char* m)
				{
					if (!m || !*m)
						mon::fail("empty-message", "empty error message");
					++*msgs;
				};
			std::vector<VertexFormat> fmts;
			int streams = r.chance(0.06) ? 0 : r.range(1, 2);
			bool ok = streams > 0;
			std::set<std::string> used;
			for (int k = 0; k < streams; ++k)
			{
				VertexFormat f;
				std::vector<std::string> names;
				int cnt = r.chance(0.05) ? 0 : r.range(1, 2);
				for (int e = 0; e < cnt; ++e)
				{
					std::string name = pool[r.below(5)];
					if (!used.insert(name).second)
						continue;
					auto& x = ref::formats()[r.below(ref::formats().size())];
					f.appendElement(name, x.layout, x.type);
					names.push_back(name);
					n.transforms[name] = Converter::Transform::Identity;
				}
				if (names.empty())
					ok = false;
				n.names.push_back(names);
				fmts.push_back(std::move(f));
			}
			n.indexType = static_cast<IndexType>(r.range(0, 2));
			n.prim = static_cast<PrimitiveType>(r.range(r.chance(0.08) ? -1 : 0, 6));
			n.patch = static_cast<unsigned>(r.chance(0.2) ? 0 : (r.chance(0.2) ? r.range(6, 200) : r.range(1, 5)));
			if (r.chance(0.03))
				n.patch = 1 + static_cast<unsigned>((r.next() >> (r.chance(0.5) ? 0 : 48)) & 0x7FFFFFFF);
			if (n.prim == PrimitiveType::PatchList && n.patch == 0)
				ok = false;
			if (n.prim == PrimitiveType::Invalid)
				ok = false;
			std::uint32_t typeMax = n.indexType == IndexType::UInt16 ? 0xFFFFu : 0xFFFFFFFFu;
			bool deflt = r.chance(0.3);
			n.maxIndex = n.indexType == IndexType::NoIndices ? 0 : typeMax - 1;
			if (!deflt)
			{
				switch (r.below(5))
				{
					case 0:
						n.maxIndex = static_cast<std::uint32_t>(r.below(6));
						if (n.prim == PrimitiveType::PatchList && r.chance(0.7)) // Next to what a patch needs.
							n.maxIndex = std::max(n.patch, 3u) - static_cast<std::uint32_t>(r.below(4));
						break;
					case 1: n.maxIndex = typeMax; break;
					case 2: n.maxIndex = static_cast<std::uint32_t>(typeMax + 1ULL); break;
					case 3: n.maxIndex = static_cast<std::uint32_t>(r.below(200)); break;
					default: n.maxIndex = static_cast<std::uint32_t>(r.next()); break;
				}
			}
			if (n.indexType != IndexType::NoIndices && n.prim != PrimitiveType::Invalid)
			{
				std::uint32_t need = n.prim == PrimitiveType::PatchList ? std::max(n.patch, 1u) : mesh::primVerts(n.prim, n.patch);
				if (n.maxIndex < need - 1 || n.maxIndex > typeMax)
					ok = false;
			}
			n.valid = ok;
			if (fmts.size() == 1 && r.chance(0.5))
			{
				if (deflt)
					n.conv.reset(new Converter(fmts[0], n.indexType, n.prim, n.patch, ef));
				else
					n.conv.reset(new Converter(fmts[0], n.indexType, n.prim, n.patch, n.maxIndex, ef));
			}
			else if (deflt)
				n.conv.reset(new Converter(fmts, n.indexType, n.prim, n.patch, ef));
			else
				n.conv.reset(new Converter(fmts, n.indexType, n.prim, n.patch, n.maxIndex, ef));
			if (n.conv->isValid() != ok)
				fail("construction", fmt("construction with prim %d patch %u index type %d max %u gives %s converter",
					static_cast<int>(n.prim), n.patch, static_cast<int>(n.indexType), n.maxIndex, ok ? "an invalid" : "a valid"));
			judgeMessages(n, ok, "construction");
			run.count(ok ? "valid converters" : "invalid converters");
			c = std::move(n);
		}
		else if (op <= 6)
		{
			std::vector<std::string> names;
			VertexFormat f = someFormat(&names);
			// Often exactly what is still missing.
			if (c.valid && !c.movedFrom && r.chance(0.6))
			{
				f.clear();
				names.clear();
				bool some = r.chance(0.5);
				for (auto& st : c.names)
				{
					for (auto& nm : st)
					{
						if (!c.sourced.count(nm) && !(some && r.chance(0.4)))
						{
							auto& x = ref::formats()[r.below(ref::formats().size())];
							f.appendElement(nm, x.layout, x.type);
							names.push_back(nm);
						}
					}
				}
			}
			bool indexed = r.chance(0.6);
			IndexType it = indexed ? (r.chance(0.5) ? IndexType::UInt16 : IndexType::UInt32) : IndexType::NoIndices;
			std::uint32_t count = static_cast<std::uint32_t>(r.chance(0.7) ? 6*r.range(0, 2) : r.range(0, 20));
			if ((c.contributing || c.count) && r.chance(0.75))
				count = c.count;
			if (c.prim == PrimitiveType::PatchList && c.patch && c.patch < 1000 && r.chance(0.7) && !(c.contributing || c.count))
				count = c.patch*static_cast<std::uint32_t>(r.range(0, 3));
			std::uint32_t vcount = indexed ? static_cast<std::uint32_t>(r.range(1, 9)) : count;
			std::size_t bytes = static_cast<std::size_t>(f.stride())*vcount;
			memory.emplace_back(new unsigned char[bytes + 1]);
			unsigned char* vd = memory.back().get();
			for (std::size_t b = 0; b < bytes; ++b)
				vd[b] = static_cast<unsigned char>(r.next());
			bool bad = indexed && count && r.chance(0.08);
			unsigned char* id = nullptr;
			if (indexed)
			{
				memory.emplace_back(new unsigned char[static_cast<std::size_t>(count)*4 + 1]);
				id = memory.back().get();
				for (std::uint32_t k = 0; k < count; ++k)
				{
					std::uint32_t v = static_cast<std::uint32_t>(r.below(vcount));
					if (bad && k == count/2)
						v = vcount + 1;
					if (it == IndexType::UInt16)
					{
						auto w = static_cast<std::uint16_t>(v);
						memcpy(id + k*2, &w, 2);
					}
					else
						memcpy(id + k*4, &v, 4);
				}
			}
			bool nullV = r.chance(0.06), nullI = indexed && r.chance(0.06);
			sig.val(count);
			sig.val(nullV);
			// Prediction.
			bool ok = c.valid && !c.movedFrom && !nullV && !nullI;
			if ((c.contributing || c.count > 0) && count != c.count)
				ok = false;
			if (c.valid && !isVertexCountValid(c.prim, count, c.prim == PrimitiveType::PatchList ? c.patch : 1))
				ok = false;
			bool contributes = false;
			if (c.valid)
			{
				for (auto& nm : names)
				{
					if (!c.transforms.count(nm))
						continue;
					contributes = true;
					if (c.sourced.count(nm))
						ok = false;
				}
			}
			bool got = indexed ? c.conv->addVertexStream(f, nullV ? nullptr : vd, vcount, it, nullI ? nullptr : id, count) :
				c.conv->addVertexStream(f, nullV ? nullptr : vd, vcount);
			if (c.converted && !contributes)
			{
				// What an irrelevant stream does after the conversion is nobody's concern.
				*c.messages = 0;
			}
			else
			{
				if (got != ok)
					fail("add-stream", fmt("addVertexStream returned %d, expected %d (count %u, established %u/%d, null %d/%d, "
						"contributes %d)", got, ok, count, c.count, c.contributing, nullV, nullI, contributes));
				judgeMessages(c, ok, "addVertexStream");
			}
			if (ok && got)
			{
				c.count = count;
				if (contributes)
				{
					c.contributing = true;
					c.badIndices = c.badIndices || bad;
					for (auto& nm : names)
					{
						if (c.transforms.count(nm))
							c.sourced.insert(nm);
					}
				}
			}
			run.count(ok ? "streams accepted" : "streams refused");
		}
		else if (op <= 8)
		{
			auto t = static_cast<Converter::Transform>(r.range(0, 3));
			std::string nm = pool[r.below(5)];
			bool ok = c.valid && !c.movedFrom && c.transforms.count(nm);
			if (r.chance(0.5))
			{
				bool got = r.chance(0.5) || nm.find('\0') != std::string::npos ? c.conv->setElementTransform(nm, t) : c.conv->setElementTransform(nm.c_str(), t);
				if (got != ok)
					fail("set-transform", fmt("setElementTransform(%s) returned %d", nm.c_str(), got));
				if (ok)
					c.transforms[nm] = t;
				*c.messages = 0;
			}
			else if (c.valid && !c.movedFrom)
			{
				std::size_t a = r.below(c.names.size()), b = r.below(c.names[a].size());
				c.conv->setElementTransform(a, b, t);
				c.transforms[c.names[a][b]] = t;
			}
			run.count("transforms set");
		}
		else if (op <= 11)
		{
			bool ready = c.valid && !c.movedFrom && !c.converted && c.sourced.size() == c.transforms.size();
			bool ok = ready && !c.badIndices;
			bool got = c.conv->convert();
			if (got != ok)
				fail("convert", fmt("convert() returned %d, expected %d (%zu of %zu elements sourced, converted %d)", got, ok,
					c.sourced.size(), c.transforms.size(), c.converted));
			judgeMessages(c, ok, "convert");
			if (ok)
			{
				c.converted = true;
				c.snap = snapshot(c);
				if (c.snap.verts.size() != c.names.size())
					fail("result", "wrong number of vertex streams");
				run.count("conversions");
			}
			else
				run.count("conversions refused");
		}
		else if (op == 12)
		{
			int j = r.range(0, slots - 1);
			if (j == i)
				continue;
			// The state moves along.
			Slot n;
			n.hasFunction = c.hasFunction;
			n.messages = c.messages;
			n.valid = c.valid;
			n.movedFrom = c.movedFrom;
			n.names = c.names;
			n.transforms = c.transforms;
			n.indexType = c.indexType;
			n.prim = c.prim;
			n.patch = c.patch;
			n.maxIndex = c.maxIndex;
			n.sourced = c.sourced;
			n.contributing = c.contributing;
			n.badIndices = c.badIndices;
			n.converted = c.converted;
			n.count = c.count;
			n.snap = c.snap;
			if (s[j].conv && r.chance(0.5))
			{
				*s[j].conv = std::move(*c.conv);
				n.conv = std::move(s[j].conv);
			}
			else
				n.conv.reset(new Converter(std::move(*c.conv)));
			s[j] = std::move(n);
			c.movedFrom = true;
			c.valid = c.converted = false;
			c.messages = std::make_shared<int>(0);
			run.count("converters moved");
		}
		else
		{
			c = Slot();
			run.count("converters destroyed");
		}
		for (auto& x : s)
			compareSlot(x);
	}
	run.nontrivial(sig.h);
}

void body(std::uint64_t i)
{
	std::uint64_t salt = static_cast<std::uint64_t>(atoi(run.check.c_str() + 1));
	Rng r = mon::caseRng(run.seed, salt, i);
	run.describe = [i] { return fmt("case %llu", static_cast<unsigned long long>(i)); };
	if (run.check == "C12")
	{
		if (i % 300 == 299)
			checkLongFormats(r);
		else
			checkFormats(r);
	}
	else if (run.check == "C13")
		checkNames(i, r);
	else if (run.check == "C14")
		checkProtocol(r);
	else if (run.check == "C16")
	{
		try
		{
			if (i % 8 == 6)
				checkNames(i, r);
			else if (i & 1)
				checkProtocol(r);
			else
				checkFormats(r);
		}
		catch (const mon::Violation&)
		{
			run.count("cases the behavioural monitors object to"); // judged by C12 and C14
		}
	}
	else
		fail("setup", "unknown check");
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	return run.loop(body);
}
