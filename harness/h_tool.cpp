// C19, C20, C25 and the path part of C24: the tool's own units, in process.
#include "refcodec.h"
#include "minijson.h"
#include "Base64.h"
#include "ConfigFile.h"
#include "Path.h"
#include "ResultFile.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <memory>
#include <sstream>

using namespace mon;

namespace
{

Run run;

// ---------------------------------------------------------------------------------------------
// C19

const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string refEncode(const std::vector<std::uint8_t>& d)
{
	// Bit by bit.
	std::string o;
	std::uint32_t acc = 0;
	int bits = 0;
	for (std::uint8_t b : d)
	{
		for (int i = 7; i >= 0; --i)
		{
			acc = acc*2 + ((b >> i) & 1U);
			if (++bits == 6)
			{
				o += alphabet[acc];
				acc = 0;
				bits = 0;
			}
		}
	}
	if (bits)
	{
		o += alphabet[acc << (6 - bits)];
	}
	while (o.size() % 4)
		o += '=';
	return o;
}

bool refDecode(std::vector<std::uint8_t>& out, const std::string& s)
{
	if (s.size() % 4 != 0)
		return false;
	std::size_t pad = 0;
	while (pad < s.size() && s[s.size() - 1 - pad] == '=')
		++pad;
	if (pad > 2)
		return false;
	std::size_t bitCount = 0;
	std::vector<bool> bits;
	for (std::size_t i = 0; i < s.size() - pad; ++i)
	{
		const char* p = s[i] ? strchr(alphabet, s[i]) : nullptr;
		if (!p)
			return false;
		for (int k = 5; k >= 0; --k)
			bits.push_back(((p - alphabet) >> k) & 1);
		bitCount += 6;
	}
	std::size_t n = s.size()/4*3 - pad;
	for (std::size_t i = 0; i < n; ++i)
	{
		unsigned v = 0;
		for (int k = 0; k < 8; ++k)
			v = v*2 + (bits[i*8 + static_cast<std::size_t>(k)] ? 1 : 0);
		out.push_back(static_cast<std::uint8_t>(v));
	}
	return true;
}

std::string printable(const std::string& s) { return jsonStr(s.substr(0, 200)); }

void decodeOne(const std::string& s)
{
	std::vector<std::uint8_t> want, got;
	bool wantOk = refDecode(want, s);
	std::unique_ptr<char[]> mem(new char[s.size() + 1]); // nothing behind the terminator
	memcpy(mem.get(), s.c_str(), s.size() + 1);
	bool ok = base64::decode(got, mem.get());
	if (ok != wantOk)
		fail("decode-acceptance", std::string(ok ? "accepted " : "refused ") + printable(s));
	if (ok && got != want)
		fail("decode-bytes", fmt("%zu bytes decoded from ", got.size()) + printable(s));
	run.count(ok ? "decode accepted" : "decode refused");
}

void encodeOne(const std::vector<std::uint8_t>& d)
{
	std::unique_ptr<std::uint8_t[]> mem(new std::uint8_t[d.size() ? d.size() : 1]);
	if (!d.empty())
		memcpy(mem.get(), d.data(), d.size());
	std::string e = base64::encode(mem.get(), d.size());
	if (e != refEncode(d))
		fail("encode", fmt("%zu bytes encoded as ", d.size()) + printable(e) + " not " + printable(refEncode(d)));
	std::vector<std::uint8_t> back;
	if (!base64::decode(back, e.c_str()) || back != d)
		fail("round-trip", fmt("%zu bytes don't survive ", d.size()) + printable(e));
	run.count("encode round trips");
}

void checkBase64(std::uint64_t i)
{
	Rng r = caseRng(run.seed, 19, i);
	Fnv h;
	h.val(i);
	if (i < 64) // all inputs of up to two bytes
	{
		run.describe = [i] { return fmt("all two byte inputs with the first byte in [%d,%d)", static_cast<int>(i*4), static_cast<int>(i*4 + 4)); };
		if (i == 0)
		{
			encodeOne({});
			if (!base64::encode(nullptr, 0).empty())
				fail("encode", "nothing isn't encoded as nothing");
			for (int a = 0; a < 256; ++a)
				encodeOne({static_cast<std::uint8_t>(a)});
		}
		for (int a = static_cast<int>(i)*4; a < static_cast<int>(i)*4 + 4; ++a)
		{
			for (int b = 0; b < 256; ++b)
				encodeOne({static_cast<std::uint8_t>(a), static_cast<std::uint8_t>(b)});
		}
	}
	else if (i < 128) // every byte value at every position of a group, first, middle and last group
	{
		std::uint64_t k = i - 64;
		std::size_t pos = k % 4, group = k/4 % 3, pads = k/12 % 3;
		run.describe = [=] { return fmt("every byte at position %zu of group %zu, %zu pads", pos, group, pads); };
		std::string s;
		for (int n = 0; n < 12; ++n)
			s += alphabet[r.below(64)];
		for (std::size_t n = 0; n < pads; ++n)
			s[11 - n] = '=';
		for (int c = 1; c < 256; ++c)
		{
			std::string t = s;
			t[group*4 + pos] = static_cast<char>(c);
			decodeOne(t);
			decodeOne(t.substr(0, group*4 + pos + 1)); // incomplete or exactly ended
			decodeOne(t.substr(0, group*4 + 4));
		}
	}
	else if (i < 192) // all strings up to 5 characters over representatives of the classes
	{
		const char reps[] = {'A', 'z', '+', '/', '=', '9', ' ', static_cast<char>(0xC3), '-'};
		std::uint64_t k = i - 128;
		run.describe = [=] { return fmt("all class representatives strings, part %d of 64", static_cast<int>(k)); };
		std::uint64_t n = 0;
		std::string s;
		for (int len = 0; len <= 5; ++len)
		{
			std::uint64_t total = 1;
			for (int q = 0; q < len; ++q)
				total *= sizeof(reps);
			for (std::uint64_t v = 0; v < total; ++v, ++n)
			{
				if (n % 64 != k)
					continue;
				s.clear();
				std::uint64_t w = v;
				for (int q = 0; q < len; ++q, w /= sizeof(reps))
					s += reps[w % sizeof(reps)];
				decodeOne(s);
				decodeOne("QUJD" + s);
			}
		}
		if (k == 0)
		{
			std::vector<std::uint8_t> o;
			if (base64::decode(o, nullptr))
				fail("decode-null", "null accepted");
		}
	}
	else
	{
		// Around every power of two up to 32 MB first, then mostly small.
		std::size_t size = r.below(r.chance(0.02) ? 200000 : (r.chance(0.5) ? 12 : 300));
		if (i < 192 + 68)
			size = (std::size_t(1) << (9 + (i - 192)/4)) - 1 + (i - 192) % 4;
		else if (r.chance(0.001))
			size = static_cast<std::size_t>(std::exp2(16 + 9*r.unit()));
		if (size > (1 << 18))
			run.count("more than 256 KB");
		std::vector<std::uint8_t> d(size);
		for (auto& b : d)
			b = static_cast<std::uint8_t>(r.chance(0.2) ? (r.chance(0.5) ? 0 : 255) : r.next());
		h.bytes(d.data(), d.size());
		auto text = std::make_shared<std::string>(refEncode(d));
		run.describe = [text] { return "mutations of " + printable(*text); };
		encodeOne(d);
		for (int k = 0; k < 12; ++k)
		{
			std::string s = *text;
			if (s.size() > 100000 && r.chance(0.5)) // padding after a chunk
				s.replace(s.size()/2/4*4, 4, "QQ==");
			for (int m = r.range(1, 2); m > 0; --m)
			{
				std::size_t at = s.empty() ? 0 : (r.chance(0.5) ? s.size() - 1 - r.below(std::min<std::size_t>(s.size(), 8)) : r.below(s.size()));
				switch (r.below(6))
				{
					case 0: if (!s.empty()) s.erase(at, 1); break;
					case 1: s.insert(at, 1, static_cast<char>(r.range(1, 255))); break;
					case 2: if (!s.empty()) s[at] = static_cast<char>(r.range(1, 255)); break;
					case 3: if (!s.empty()) s[at] = '='; break;
					case 4: s += r.chance(0.5) ? "=" : "===="; break;
					default: s += r.chance(0.5) ? "\n" : "QUI="; break;
				}
			}
			decodeOne(s);
			if (s.size() > 300)
				break;
		}
	}
	run.nontrivial(h.h);
}

// ---------------------------------------------------------------------------------------------
// C20

struct J; // JSON tree that can be mutated and rendered
using JP = std::shared_ptr<J>;
struct J
{
	enum Kind { Null, Bool, Num, Str, Arr, Obj } kind = Null;
	bool b = false;
	std::string s; // number text or string
	std::vector<JP> items;
	std::vector<std::pair<std::string, JP>> members;
	JP* find(const std::string& k)
	{
		for (auto& m : members)
		{
			if (m.first == k)
				return &m.second;
		}
		return nullptr;
	}
	void erase(const std::string& k)
	{
		for (std::size_t i = 0; i < members.size(); ++i)
		{
			if (members[i].first == k)
			{
				members.erase(members.begin() + static_cast<long>(i));
				return;
			}
		}
	}
};
JP jnull() { return std::make_shared<J>(); }
JP jstr(const std::string& s) { auto j = std::make_shared<J>(); j->kind = J::Str; j->s = s; return j; }
JP jnum(const std::string& s) { auto j = std::make_shared<J>(); j->kind = J::Num; j->s = s; return j; }
JP jbool(bool b) { auto j = std::make_shared<J>(); j->kind = J::Bool; j->b = b; return j; }
JP jarr() { auto j = std::make_shared<J>(); j->kind = J::Arr; return j; }
JP jobj() { auto j = std::make_shared<J>(); j->kind = J::Obj; return j; }

struct Token
{
	std::string text;
	bool space = false;
	bool plainString = false;
};

struct Renderer
{
	Rng& r;
	int style;
	std::vector<Token> out;
	Renderer(Rng& rr, int st) : r(rr), style(st) {}
	void space()
	{
		std::string s;
		if (style == 1)
			s = r.chance(0.5) ? " " : "";
		else if (style == 2)
		{
			static const char* w[] = {"\n", " ", "\t", "\r\n", "", "\n\n  ", "  "};
			s = w[r.below(7)];
		}
		else if (style == 3)
			s = "\n";
		if (!s.empty())
			out.push_back(Token{s, true, false});
	}
	void tok(const std::string& t, bool str = false) { out.push_back(Token{t, false, str}); }
	std::string quote(const std::string& s)
	{
		std::string o = "\"";
		for (std::size_t i = 0; i < s.size();)
		{
			unsigned char c = static_cast<unsigned char>(s[i]);
			int n = c < 0x80 ? 1 : (c < 0xE0 ? 2 : (c < 0xF0 ? 3 : 4));
			if (n == 1)
			{
				switch (c)
				{
					case '"': o += "\\\""; break;
					case '\\': o += "\\\\"; break;
					case '/': o += r.chance(0.3) ? "\\/" : "/"; break;
					case '\n': o += r.chance(0.5) ? "\\n" : "\\u000A"; break;
					case '\t': o += "\\t"; break;
					default:
						if (c < 0x20 || r.chance(0.03))
							o += r.chance(0.5) ? fmt("\\u%04x", c) : fmt("\\u%04X", c);
						else
							o += static_cast<char>(c);
						break;
				}
			}
			else
			{
				unsigned cp = n == 2 ? c & 31U : (n == 3 ? c & 15U : c & 7U);
				for (int k = 1; k < n; ++k)
					cp = (cp << 6) | (static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]) & 63U);
				if (r.chance(0.5))
					o.append(s, i, static_cast<std::size_t>(n));
				else if (cp < 0x10000)
					o += fmt("\\u%04x", cp);
				else
					o += fmt("\\u%04x\\u%04X", 0xD800 + ((cp - 0x10000) >> 10), 0xDC00 + ((cp - 0x10000) & 0x3FF));
			}
			i += static_cast<std::size_t>(n);
		}
		return o + "\"";
	}
	void value(const J& j)
	{
		switch (j.kind)
		{
			case J::Null: tok("null"); break;
			case J::Bool: tok(j.b ? "true" : "false"); break;
			case J::Num: tok(j.s); break;
			case J::Str: tok(quote(j.s), true); break;
			case J::Arr:
				tok("[");
				for (std::size_t i = 0; i < j.items.size(); ++i)
				{
					space();
					value(*j.items[i]);
					space();
					if (i + 1 < j.items.size())
						tok(",");
				}
				space();
				tok("]");
				break;
			case J::Obj:
				tok("{");
				for (std::size_t i = 0; i < j.members.size(); ++i)
				{
					space();
					tok(quote(j.members[i].first), true);
					space();
					tok(":");
					space();
					value(*j.members[i].second);
					space();
					if (i + 1 < j.members.size())
						tok(",");
				}
				space();
				tok("}");
				break;
		}
	}
	std::string text() const
	{
		std::string s;
		for (auto& t : out)
			s += t.text;
		return s;
	}
};

struct Elem
{
	std::string name;
	ref::Format f;
};

struct Model
{
	std::vector<std::vector<Elem>> outs;
	int indexType = 0; // 0 none, 16, 32
	vfc::PrimitiveType prim = vfc::PrimitiveType::TriangleList;
	bool patches = false;
	std::uint32_t patchPoints = 0;
	struct Stream
	{
		std::vector<Elem> elems;
		std::string data, index;
		int indexType = 0;
	};
	std::vector<Stream> streams;
	std::vector<std::pair<std::string, vfc::Converter::Transform>> transforms;
};

std::string anyCase(Rng& r, std::string s)
{
	int style = r.range(0, 3);
	for (auto& c : s)
	{
		bool up = style == 0 ? r.chance(0.5) : style == 1;
		if (style == 3)
			continue;
		c = static_cast<char>(up ? toupper(c) : tolower(c));
	}
	return s;
}

std::string someName(Rng& r)
{
	static const char* base[] = {"position", "Position", "POSITION", "normal", "texCoord", "texcoord", "color", "p", "",
		"\xc3\xa9l\xc3\xa9ment", "\xe2\x82\xac", "\xf0\x9f\x8e\xae", "a\"b", "a\\b", "a/b", "tab\there", "line\nbreak",
		" lead", "trail ", "\x01\x1f", "name", "layout", "null", "base64:"};
	std::string s = base[r.below(sizeof(base)/sizeof(*base))];
	if (r.chance(0.4))
		s += std::to_string(r.below(100));
	if (r.chance(0.01))
		s.append(static_cast<std::size_t>(r.range(100, 5000)), 'n');
	return s;
}

std::string dataString(Rng& r, bool big = false)
{
	if (big && r.chance(0.1))
		return "base64:" + std::string(static_cast<std::size_t>(std::exp2(r.unit()*7 + 12))*4, "QAz+"[r.below(4)]);
	switch (r.below(5))
	{
		case 0: return "base64:QUJDRA==";
		case 1: return "file.dat";
		case 2: return "../x/" + someName(r);
		case 3: return "/abs/" + someName(r);
		default: return r.chance(0.2) ? "base64:" + std::string(r.below(9000)*4, 'A') : someName(r);
	}
}

struct Pos // places of a rendered document that a mutation can address
{
	JP root;
	std::vector<JP> formats;  // arrays of elements
	std::vector<JP> elements; // element objects
	std::vector<JP> streams, transforms;
};

template <typename T> void shuffleMembers(Rng& r, T& m)
{
	if (r.chance(0.6))
		r.shuffle(m);
}

JP elementJson(Rng& r, const Elem& e, Pos& pos)
{
	JP o = jobj();
	const ref::Layout& l = ref::info(e.f.layout);
	o->members = {{"name", jstr(e.name)}, {"layout", jstr(anyCase(r, r.chance(0.3) ? l.color : l.name))},
		{"type", jstr(anyCase(r, ref::typeName(e.f.type)))}};
	shuffleMembers(r, o->members);
	pos.elements.push_back(o);
	return o;
}

void indexTypeMember(Rng& r, JP& o, int t)
{
	if (t)
		o->members.emplace_back("indexType", jstr(anyCase(r, t == 16 ? "UInt16" : "UInt32")));
	else if (r.chance(0.4))
		o->members.emplace_back("indexType", jnull());
}

// A big one has tens of streams, formats or transforms, or elements.
Model makeModel(Rng& r, Pos& pos, bool big = false)
{
	auto many = [&](int few, int lots) { return big && r.chance(0.5) ? lots : few; };
	Model m;
	std::set<std::string> used;
	auto formats = ref::formats();
	auto elems = [&](int n, std::set<std::string>& names)
	{
		std::vector<Elem> v;
		for (int i = 0; i < n; ++i)
		{
			Elem e;
			do
				e.name = someName(r) + (n > 4 ? std::to_string(r.below(100000)) : std::string());
			while (!names.insert(e.name).second);
			e.f = r.pick(formats);
			v.push_back(e);
		}
		return v;
	};
	JP root = jobj();
	pos.root = root;

	JP vf = jarr();
	for (int s = r.range(1, many(3, 40)); s > 0; --s)
	{
		m.outs.push_back(elems(r.range(1, r.chance(0.3) ? many(4, 300) : 4), used));
		JP a = jarr();
		for (auto& e : m.outs.back())
			a->items.push_back(elementJson(r, e, pos));
		pos.formats.push_back(a);
		vf->items.push_back(a);
	}
	root->members.emplace_back("vertexFormat", vf);

	static const int its[] = {0, 16, 32};
	m.indexType = its[r.below(3)];
	indexTypeMember(r, root, m.indexType);

	if (r.chance(0.8))
	{
		static const char* prims[] = {"PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList"};
		static const vfc::PrimitiveType types[] = {vfc::PrimitiveType::PointList, vfc::PrimitiveType::LineList,
			vfc::PrimitiveType::LineStrip, vfc::PrimitiveType::TriangleList, vfc::PrimitiveType::TriangleStrip,
			vfc::PrimitiveType::TriangleFan, vfc::PrimitiveType::PatchList};
		std::size_t k = r.below(7);
		if (r.chance(0.2))
			k = 6;
		m.prim = types[k];
		m.patches = k == 6;
		root->members.emplace_back("primitiveType", jstr(anyCase(r, prims[k])));
		if (m.patches)
		{
			static const std::uint32_t pts[] = {1, 2, 3, 4, 16, 32, 1000, 65535, 2147483647u};
			m.patchPoints = pts[r.below(9)];
			root->members.emplace_back("patchPoints", jnum(std::to_string(m.patchPoints)));
		}
	}
	else if (r.chance(0.4))
		root->members.emplace_back("primitiveType", jnull());

	JP vs = jarr();
	for (int s = r.range(1, many(3, 80)); s > 0; --s)
	{
		Model::Stream st;
		std::set<std::string> local;
		st.elems = elems(r.range(1, r.chance(0.2) ? many(4, 150) : 4), local);
		// Mostly the names of the output elements, in several streams too.
		if (r.chance(0.5))
		{
			const std::string& n = r.pick(r.pick(m.outs)).name;
			if (!local.count(n))
				st.elems[0].name = n;
		}
		st.data = dataString(r, big);
		st.indexType = its[r.below(3)];
		JP o = jobj();
		JP a = jarr();
		for (auto& e : st.elems)
			a->items.push_back(elementJson(r, e, pos));
		pos.formats.push_back(a);
		o->members.emplace_back("vertexFormat", a);
		o->members.emplace_back("vertexData", jstr(st.data));
		indexTypeMember(r, o, st.indexType);
		if (st.indexType)
		{
			st.index = dataString(r, big);
			o->members.emplace_back("indexData", jstr(st.index));
		}
		shuffleMembers(r, o->members);
		pos.streams.push_back(o);
		vs->items.push_back(o);
		m.streams.push_back(st);
	}
	root->members.emplace_back("vertexStreams", vs);

	if (r.chance(0.7))
	{
		JP ts = jarr();
		for (int k = r.range(0, many(4, 300)); k > 0; --k)
		{
			static const char* names[] = {"Identity", "Bounds", "UNormToSNorm", "SNormToUNorm"};
			static const vfc::Converter::Transform types[] = {vfc::Converter::Transform::Identity,
				vfc::Converter::Transform::Bounds, vfc::Converter::Transform::UNormToSNorm,
				vfc::Converter::Transform::SNormToUNorm};
			std::size_t t = r.below(4);
			std::string n = r.chance(0.7) ? r.pick(r.pick(m.outs)).name : someName(r);
			JP o = jobj();
			o->members = {{"name", jstr(n)}, {"transform", jstr(anyCase(r, names[t]))}};
			shuffleMembers(r, o->members);
			m.transforms.emplace_back(n, types[t]);
			pos.transforms.push_back(o);
			ts->items.push_back(o);
		}
		root->members.emplace_back("vertexTransforms", ts);
	}
	shuffleMembers(r, root->members);
	return m;
}

JP otherKind(Rng& r, J::Kind not1, bool allowNull)
{
	for (;;)
	{
		JP j;
		switch (r.below(8))
		{
			case 0: j = jnull(); break;
			case 1: j = jbool(r.chance(0.5)); break;
			case 2: j = jnum("1"); break;
			case 3: j = jnum("1.5e2"); break;
			case 4: j = jstr("x"); break;
			case 5: j = jarr(); break;
			case 6: j = jobj(); break;
			default: j = jarr(); j->items.push_back(jstr("UInt16")); break;
		}
		if (j->kind != not1 && (allowNull || j->kind != J::Null))
			return j;
	}
}

std::string nearMiss(Rng& r, const std::string& s)
{
	switch (r.below(7))
	{
		case 0: return s + " ";
		case 1: return " " + s;
		case 2: return "";
		case 3: return s.substr(0, s.size() - 1) + "~";
		case 4: return s + "s_";
		case 5: return "Invalid";
		default:
		{
			std::string t = s;
			t[r.below(t.size())] = '?';
			return t;
		}
	}
}

// Breaks the document in one place. Returns what was done, or an empty string if it doesn't apply.
std::string violate(Rng& r, Pos& pos, Model& m, std::uint64_t kind)
{
	J& root = *pos.root;
	auto set = [](J& o, const std::string& k, JP v) { *o.find(k) = v; };
	J& el = *r.pick(pos.elements);
	JP st = r.pick(pos.streams);
	JP tr = pos.transforms.empty() ? JP() : r.pick(pos.transforms);
	static const char* elm[] = {"name", "layout", "type"};
	static const char* req[] = {"vertexFormat", "vertexStreams"};
	switch (kind)
	{
		case 0: pos.root = otherKind(r, J::Obj, true); return "root isn't an object";
		case 1: { std::string k = req[r.below(2)]; root.erase(k); return "no " + k; }
		case 2: { std::string k = req[r.below(2)]; set(root, k, otherKind(r, J::Arr, true)); return k + " isn't an array"; }
		case 3: { std::string k = req[r.below(2)]; set(root, k, jarr()); return k + " is empty"; }
		case 4: { JP vf = *root.find("vertexFormat"); vf->items[r.below(vf->items.size())] = otherKind(r, J::Arr, true); return "inner format isn't an array"; }
		case 5: r.pick(pos.formats)->items.clear(); return "format without elements";
		case 6: { JP f = r.pick(pos.formats); f->items[r.below(f->items.size())] = otherKind(r, J::Obj, true); return "element isn't an object"; }
		case 7: { std::string k = elm[r.below(3)]; el.erase(k); return "element without " + k; }
		case 8: { std::string k = elm[r.below(3)]; set(el, k, otherKind(r, J::Str, true)); return "element " + k + " isn't a string"; }
		case 9: { std::string s = nearMiss(r, (*el.find("layout"))->s); set(el, "layout", jstr(s)); return "layout " + s; }
		case 10: { std::string s = nearMiss(r, (*el.find("type"))->s); set(el, "type", jstr(s)); return "type " + s; }
		case 11:
		{
			for (;;)
			{
				const ref::Layout& l = r.pick(ref::layouts());
				auto t = static_cast<ref::ElementType>(r.below(vfc::elementTypeCount));
				if (ref::legal(l.layout, t))
					continue;
				set(el, "layout", jstr(anyCase(r, l.name)));
				set(el, "type", jstr(anyCase(r, ref::typeName(t))));
				return fmt("layout %s with type %s", l.name, ref::typeName(t));
			}
		}
		case 12: // duplicate within one format
		{
			JP f = r.pick(pos.formats);
			Elem e{(*f->items[r.below(f->items.size())]->find("name"))->s, r.pick(ref::formats())};
			f->items.insert(f->items.begin() + static_cast<long>(r.below(f->items.size() + 1)), elementJson(r, e, pos));
			return "duplicate name in a format";
		}
		case 13: // duplicate across output streams
		{
			JP vf = *root.find("vertexFormat");
			if (vf->items.size() < 2)
				return "";
			std::size_t a = r.below(vf->items.size()), b = (a + 1 + r.below(vf->items.size() - 1)) % vf->items.size();
			Elem e{(*r.pick(vf->items[a]->items)->find("name"))->s, r.pick(ref::formats())};
			JP f = vf->items[b];
			f->items.insert(f->items.begin() + static_cast<long>(r.below(f->items.size() + 1)), elementJson(r, e, pos));
			return "duplicate name across output streams";
		}
		case 14:
		{
			J& o = r.chance(0.5) ? root : *st;
			o.erase("indexType");
			o.members.emplace_back("indexType", otherKind(r, J::Str, false));
			return "index type isn't a string";
		}
		case 15:
		{
			J& o = r.chance(0.5) ? root : *st;
			o.erase("indexType");
			static const char* bad[] = {"UInt8", "UInt64", "SInt16", "NoIndices", "", "16", "uint", "UInt161", "UInt3", "uint16 "};
			std::string s = bad[r.below(10)];
			o.members.emplace_back("indexType", jstr(s));
			if (!o.find("indexData") && &o != &root)
				o.members.emplace_back("indexData", jstr("base64:AAAA"));
			return "index type " + s;
		}
		case 16:
			root.erase("primitiveType");
			root.members.emplace_back("primitiveType", otherKind(r, J::Str, false));
			return "primitive type isn't a string";
		case 17:
		{
			root.erase("primitiveType");
			static const char* bad[] = {"Triangles", "", "TriangleLis", "TriangleLists", "LineLoop", "Invalid", "PatchList ", "Points"};
			std::string s = bad[r.below(8)];
			root.members.emplace_back("primitiveType", jstr(s));
			return "primitive type " + s;
		}
		case 18: case 19: case 20:
		{
			root.erase("primitiveType");
			root.members.emplace_back("primitiveType", jstr(anyCase(r, "PatchList")));
			root.erase("patchPoints");
			if (kind == 18)
				return "no patch points";
			if (kind == 19)
			{
				JP v = otherKind(r, J::Num, true);
				root.members.emplace_back("patchPoints", r.chance(0.2) ? jstr("3") : (r.chance(0.2) ? jnum("3.5") : v));
				return "patch points aren't an integer";
			}
			static const char* bad[] = {"0", "-1", "-3", "-2147483648", "-99999999999999999999"};
			std::string s = bad[r.below(5)];
			root.members.emplace_back("patchPoints", jnum(s));
			return "patch points " + s;
		}
		case 21: { JP vs = *root.find("vertexStreams"); vs->items[r.below(vs->items.size())] = otherKind(r, J::Obj, true); return "stream isn't an object"; }
		case 22: { std::string k = r.chance(0.5) ? "vertexFormat" : "vertexData"; st->erase(k); return "stream without " + k; }
		case 23:
			if (r.chance(0.5))
			{
				set(*st, "vertexFormat", otherKind(r, J::Arr, true));
				return "stream format isn't an array";
			}
			set(*st, "vertexData", otherKind(r, J::Str, true));
			return "stream data isn't a string";
		case 24: case 25:
		{
			st->erase("indexType");
			st->erase("indexData");
			st->members.emplace_back("indexType", jstr(anyCase(r, r.chance(0.5) ? "UInt16" : "UInt32")));
			if (kind == 24)
				return "index type without index data";
			st->members.emplace_back("indexData", otherKind(r, J::Str, true));
			return "index data isn't a string";
		}
		case 26:
			root.erase("vertexTransforms");
			root.members.emplace_back("vertexTransforms", otherKind(r, J::Arr, false));
			return "transforms aren't an array";
		case 27:
		{
			if (!tr)
				return "";
			JP ts = *root.find("vertexTransforms");
			ts->items[r.below(ts->items.size())] = otherKind(r, J::Obj, true);
			return "transform isn't an object";
		}
		case 28: { if (!tr) return ""; std::string k = r.chance(0.5) ? "name" : "transform"; tr->erase(k); return "transform without " + k; }
		case 29: { if (!tr) return ""; std::string k = r.chance(0.5) ? "name" : "transform"; set(*tr, k, otherKind(r, J::Str, true)); return "transform " + k + " isn't a string"; }
		case 30: { if (!tr) return ""; std::string s = nearMiss(r, (*tr->find("transform"))->s); set(*tr, "transform", jstr(s)); return "transform " + s; }
		case 31: // embedded null
		{
			std::vector<JP> strings;
			for (auto& e : pos.elements)
				for (auto& x : e->members)
					strings.push_back(x.second);
			for (auto& e : pos.transforms)
				for (auto& x : e->members)
					strings.push_back(x.second);
			for (auto& s : pos.streams)
				for (auto& x : s->members)
					if (x.second->kind == J::Str)
						strings.push_back(x.second);
			JP s = r.pick(strings);
			s->s.insert(r.chance(0.3) ? 0 : s->s.size(), 1, '\0');
			if (r.chance(0.3))
				s->s += "more";
			(void)m;
			return "string with a null character";
		}
		default: return "";
	}
}
const std::uint64_t violationKinds = 32;

void checkFormat(const vfc::VertexFormat& got, const std::vector<Elem>& want, const std::string& where)
{
	if (got.size() != want.size())
		fail("format", where + fmt(" has %zu elements, not %zu", got.size(), want.size()));
	std::uint32_t offset = 0;
	for (std::size_t i = 0; i < want.size(); ++i)
	{
		auto& g = got[i];
		if (g.name != want[i].name || g.layout != want[i].f.layout || g.type != want[i].f.type || g.offset != offset)
			fail("format", where + fmt(" element %zu is wrong: ", i) + jsonStr(g.name) + fmt(" %d %d %u", static_cast<int>(g.layout), static_cast<int>(g.type), static_cast<unsigned>(g.offset)));
		offset += static_cast<std::uint32_t>(ref::info(want[i].f.layout).size);
	}
	if (got.stride() != offset)
		fail("format", where + " has the wrong stride");
}

vfc::IndexType indexType(int t)
{
	return t == 0 ? vfc::IndexType::NoIndices : (t == 16 ? vfc::IndexType::UInt16 : vfc::IndexType::UInt32);
}

void compare(const ConfigFile& c, const Model& m)
{
	if (c.getVertexFormat().size() != m.outs.size())
		fail("format", "wrong number of output streams");
	for (std::size_t i = 0; i < m.outs.size(); ++i)
		checkFormat(c.getVertexFormat()[i], m.outs[i], fmt("output %zu", i));
	if (c.getIndexType() != indexType(m.indexType))
		fail("index-type", fmt("output index type is %d", static_cast<int>(c.getIndexType())));
	if (c.getPrimitiveType() != m.prim)
		fail("primitive-type", fmt("primitive type is %d", static_cast<int>(c.getPrimitiveType())));
	if (c.getPatchPoints() != m.patchPoints)
		fail("patch-points", fmt("%u patch points, not %u", c.getPatchPoints(), m.patchPoints));
	if (c.getVertexStreams().size() != m.streams.size())
		fail("streams", "wrong number of streams");
	for (std::size_t i = 0; i < m.streams.size(); ++i)
	{
		auto& g = c.getVertexStreams()[i];
		auto& w = m.streams[i];
		checkFormat(g.vertexFormat, w.elems, fmt("stream %zu", i));
		if (g.indexType != indexType(w.indexType))
			fail("stream-index-type", fmt("stream %zu has index type %d", i, static_cast<int>(g.indexType)));
		if (g.vertexData != w.data)
			fail("stream-data", "vertex data " + printable(g.vertexData) + " not " + printable(w.data));
		if (w.indexType && g.indexData != w.index)
			fail("stream-data", "index data " + printable(g.indexData) + " not " + printable(w.index));
	}
	if (c.getTransforms() != m.transforms)
		fail("transforms", fmt("%zu transforms, wrong ones", c.getTransforms().size()));
}

struct Loaded
{
	std::unique_ptr<ConfigFile> file;
	bool ok = false;
	std::vector<std::string> messages;
};

Loaded loadConfig(const std::string& text, const std::string& name, int how, const std::string& before = "")
{
	Loaded l;
	l.file.reset(new ConfigFile);
	if (!before.empty()) // the object was used for something else
	{
		l.file->load(before.c_str(), "before", [](const char*) {});
		run.count("objects loaded into again");
	}
	auto ef = [&](const char* m) { l.messages.push_back(m ? m : ""); };
	if (how == 0)
	{
		std::unique_ptr<char[]> mem(new char[text.size() + 1]);
		memcpy(mem.get(), text.c_str(), text.size() + 1);
		l.ok = l.file->load(mem.get(), name.c_str(), ef);
	}
	else if (how == 1)
	{
		std::istringstream s(text);
		l.ok = l.file->load(s, name.c_str(), ef);
	}
	else
	{
		{
			std::ofstream s(name, std::ios::binary | std::ios::trunc);
			s << text;
		}
		l.ok = l.file->load(name.c_str(), ef);
		unlink(name.c_str());
	}
	return l;
}

std::string messagesOf(const Loaded& l)
{
	std::string s;
	for (auto& m : l.messages)
		s += printable(m) + " ";
	return s;
}

void requireRefused(const Loaded& l, const std::string& name, const std::string& what)
{
	if (l.ok)
		fail("accepted", "accepted although: " + what);
	if (l.messages.empty())
		fail("silent", "no message although: " + what);
	for (auto& m : l.messages)
	{
		if (m.compare(0, name.size(), name) != 0 || m.size() <= name.size() + 1 || m[name.size()] != ':')
			fail("message", "message doesn't start with the file name " + printable(name) + ": " + messagesOf(l) + "for: " + what);
	}
}

void checkConfig(std::uint64_t i)
{
	Rng r = caseRng(run.seed, 20, i);
	Pos pos;
	bool big = r.chance(0.03);
	Model m = makeModel(r, pos, big);
	if (big)
		run.count("big configurations");
	static const char* names[] = {"foo.json", "stdin", "dir/some file.json", "./a:b.json", "/abs/x"};
	std::string name = names[r.below(5)];
	int how = static_cast<int>(r.below(2));
	if (i % 16 == 7 && !run.stateFile.empty())
	{
		how = 2;
		name = run.stateFile + fmt(".cfg%d.json", static_cast<int>(i % 1000));
	}
	int style = static_cast<int>(r.below(4));
	std::string before;
	if (r.chance(0.25))
	{
		Pos p;
		Model o = makeModel(r, p);
		if (r.chance(0.3))
			violate(r, p, o, r.below(violationKinds));
		Renderer w(r, 0);
		w.value(*p.root);
		before = w.text();
	}
	Fnv h;
	auto text = std::make_shared<std::string>();
	auto what = std::make_shared<std::string>("valid");
	run.describe = [text, what] { return *what + ": " + text->substr(0, 6000); };
	switch (i % 3)
	{
		case 0:
		{
			Renderer w(r, style);
			w.space();
			w.value(*pos.root);
			w.space();
			*text = w.text();
			// Ends where a buffer of some size does.
			if (r.chance(0.1))
			{
				while (text->size() > 1 && (text->back() == ' ' || text->back() == '\n' || text->back() == '\t' || text->back() == '\r'))
					text->pop_back();
				std::size_t size = std::size_t(1) << r.range(8, 16);
				text->insert(0, (size - text->size() % size) % size + (r.chance(0.3) ? 1U : 0U), ' ');
				run.count("texts ending at a multiple of a power of two");
			}
			Loaded l = loadConfig(*text, name, how, before);
			if (!l.ok)
				fail("refused", "valid configuration refused: " + messagesOf(l));
			if (!l.messages.empty())
				fail("message-on-success", "message for a valid configuration: " + messagesOf(l));
			compare(*l.file, m);
			run.count("valid configurations");
			break;
		}
		case 1:
		{
			std::uint64_t kind = i/3 % violationKinds;
			*what = violate(r, pos, m, kind);
			if (what->empty())
			{
				run.count("violation didn't apply");
				return;
			}
			Renderer w(r, style);
			w.value(*pos.root);
			*text = w.text();
			requireRefused(loadConfig(*text, name, how, before), name, *what);
			run.count("violations");
			run.count(fmt("violation kind %02d", static_cast<int>(kind)));
			break;
		}
		default:
		{
			Renderer w(r, style);
			w.space();
			w.value(*pos.root);
			std::vector<Token>& t = w.out;
			std::size_t k = r.below(t.size() + 1);
			std::string tail;
			int mode = static_cast<int>(i/3 % 6);
			std::size_t lo = 0, hi = 0; // acceptable range of byte offsets of the error
			std::string full;
			for (std::size_t q = 0; q < k; ++q)
				full += t[q].text;
			if (mode <= 1)
			{
				static const char* bad[] = {"@", "#", "%", "?", "\\", "'", "=", "(", "\x01", "$"};
				*what = "illegal character";
				lo = hi = full.size();
				full += bad[r.below(10)];
				for (std::size_t q = k; q < t.size(); ++q)
					full += t[q].text;
			}
			else if (mode == 2)
			{
				*what = "truncated";
				if (k == t.size())
					k = t.size() - 1;
				while (k > 0 && t[k - 1].space)
					--k;
				full.clear();
				for (std::size_t q = 0; q < k; ++q)
					full += t[q].text;
				lo = hi = full.size();
			}
			else if (mode == 5)
			{
				*what = "null character";
				if (how == 0)
					how = 1;
				lo = hi = full.size();
				full += '\0';
				if (r.chance(0.8))
				{
					for (std::size_t q = k; q < t.size(); ++q)
						full += t[q].text;
				}
			}
			else
			{
				std::vector<std::size_t> strings;
				for (std::size_t q = 0; q < t.size(); ++q)
				{
					if (t[q].plainString && t[q].text.size() > 2)
						strings.push_back(q);
				}
				k = r.pick(strings);
				full.clear();
				for (std::size_t q = 0; q < k; ++q)
					full += t[q].text;
				lo = full.size();
				std::string s = t[k].text;
				bool cut = r.chance(0.3);
				if (mode == 4)
				{
					static const char* bad[] = {"1.", "1e", "1e+", "-", "1.x", "1e999", "-1e999", ".5", "+1", "01", "0x1", "tru", "nul", "falsy", "True",
						"Infinity", "NaN", "1E400", "-01", "--1", "1.e5", "undefined"};
					*what = "malformed number or literal";
					s = bad[r.below(22)];
					full += s;
					hi = full.size();
					for (std::size_t q = k + 1; q < t.size(); ++q)
						full += t[q].text;
				}
				else if (cut)
				{
					*what = "unterminated string";
					full += s.substr(0, s.size() - 1);
					hi = full.size();
				}
				else
				{
					static const char* bad[] = {"\\q", "\\u12G4", "\x02", "\\x41", "\t", "\\'", "\\uD800", "\\uD800\\u0041", "\\uD83D\\uD83D", "\\uDC00\\u"};
					*what = "bad string";
					full += s.substr(0, s.size() - 1);
					full += bad[r.below(10)];
					hi = full.size();
					full += "\"";
					for (std::size_t q = k + 1; q < t.size(); ++q)
						full += t[q].text;
				}
			}
			*text = full;
			Loaded l = loadConfig(*text, name, how, before);
			requireRefused(l, name, *what);
			int line = 0, col = 0;
			const std::string& msg = l.messages[0];
			if (sscanf(msg.c_str() + name.size(), ":%d:%d:", &line, &col) != 2)
				fail("position", "no line and column in " + messagesOf(l));
			// Columns may count bytes or characters.
			std::size_t begin = 0;
			int wantLine = 1;
			for (std::size_t q = 0; q < lo; ++q)
			{
				if (full[q] == '\n')
				{
					++wantLine;
					begin = q + 1;
				}
			}
			auto chars = [&](std::size_t to)
			{
				int n = 0;
				for (std::size_t q = begin; q < to; ++q)
					n += (full[q] & 0xC0) != 0x80;
				return n;
			};
			int minCol = std::min<int>(chars(lo), static_cast<int>(lo - begin)) + 1;
			int maxCol = static_cast<int>(hi - begin) + 1;
			bool ascii = chars(lo) == static_cast<int>(lo - begin);
			bool ok = line == wantLine && (lo == hi ? (col == maxCol || (!ascii && col == minCol)) : (col >= minCol && col <= maxCol));
			if (!ok)
				fail("position", *what + fmt(" at line %d column %d..%d reported at %d:%d: ", wantLine, minCol, maxCol, line, col) + messagesOf(l));
			run.count("syntax errors: " + *what);
			break;
		}
	}
	h.str(*text);
	run.nontrivial(h.h);
}

// ---------------------------------------------------------------------------------------------
// C25

std::string utf8Name(Rng& r)
{
	std::string s;
	for (int n = r.range(0, r.chance(0.05) ? 300 : 12); n > 0; --n)
	{
		switch (r.below(8))
		{
			case 0: s += static_cast<char>(r.range(1, 31)); break;
			case 1: s += "\"\\/\b\f\n\r\t\x7f"[r.below(9)]; break;
			case 2: mj::Parser::utf8(s, static_cast<unsigned>(r.range(0x80, 0x7FF))); break;
			case 3: mj::Parser::utf8(s, static_cast<unsigned>(r.chance(0.5) ? r.range(0x800, 0xD7FF) : r.range(0xE000, 0xFFFF))); break;
			case 4: mj::Parser::utf8(s, static_cast<unsigned>(r.range(0x10000, 0x10FFFF))); break;
			default: s += static_cast<char>(r.range(32, 126)); break;
		}
	}
	return s;
}

double anyFinite(Rng& r)
{
	for (;;)
	{
		double d;
		switch (r.below(9))
		{
			case 0: d = 0; break;
			case 1: d = -0.0; break;
			case 2: d = r.range(-1000, 1000); break;
			case 3: d = r.unit(); break;
			case 4: d = static_cast<float>(r.unit()*2 - 1); break;
			case 5: d = std::numeric_limits<double>::denorm_min()*static_cast<double>(r.below(100)); break;
			case 6: d = r.chance(0.5) ? std::numeric_limits<double>::max() : -std::numeric_limits<double>::max(); break;
			case 7: d = std::ldexp(r.unit() + 0.5, r.range(-1070, 1023)); break;
			default: { std::uint64_t u = r.next(); memcpy(&d, &u, 8); break; }
		}
		if (std::isfinite(d))
			return d;
	}
}

const mj::Value& member(const mj::Value& o, const char* k, mj::Value::Kind kind)
{
	const mj::Value* v = o.kind == mj::Value::Object ? o.find(k) : nullptr;
	if (!v)
		fail("member", std::string("no member ") + k);
	if (v->kind != kind)
		fail("member", std::string("member ") + k + " has the wrong JSON type");
	return *v;
}

void wantString(const mj::Value& o, const char* k, const std::string& want)
{
	auto& v = member(o, k, mj::Value::String);
	if (v.text != want)
		fail("string", std::string(k) + " is " + printable(v.text) + " not " + printable(want));
}

void wantInt(const mj::Value& o, const char* k, long long want)
{
	auto& v = member(o, k, mj::Value::Number);
	if (v.text != std::to_string(want))
		fail("integer", std::string(k) + " is " + v.text + fmt(" not %lld", want));
}

void wantVector(const mj::Value& o, const char* k, const double* want)
{
	auto& v = member(o, k, mj::Value::Array);
	if (v.items.size() != 4)
		fail("vector", std::string(k) + " doesn't have 4 items");
	for (std::size_t i = 0; i < 4; ++i)
	{
		double d = v.items[i].num;
		if (v.items[i].kind != mj::Value::Number || !(d == want[i]) || std::signbit(d) != std::signbit(want[i]))
			fail("vector", std::string(k) + fmt("[%zu] is %s not %.17g", i, v.items[i].text.c_str(), want[i]));
	}
}

void checkResult(std::uint64_t i)
{
	Rng r = caseRng(run.seed, 25, i);
	Fnv h;
	std::vector<vfc::VertexFormat> formats;
	std::vector<std::vector<Bounds>> bounds;
	std::vector<std::vector<Elem>> elems;
	std::vector<std::string> data;
	bool finite = true;
	std::set<std::string> used;
	// Now and then one with many streams, elements or index buffers, up to tens of thousands.
	int big = i % 300 == 8 ? r.range(1, 3) : 0;
	int lots = big ? static_cast<int>(std::exp2(r.unit()*(big == 3 ? 6.5 : 4.5) + 8.5)) : 0;
	if (big)
		run.count(big == 1 ? "documents of many streams" : big == 2 ? "documents of many elements" : "documents of many index buffers");
	auto dataRef = [&]() -> std::string
	{
		if (r.chance(0.3))
			return "base64:" + std::string(r.below(r.chance(0.1) ? 30000 : 40)*4, 'Q');
		return r.chance(0.5) ? utf8Name(r) : "out/vertices." + std::to_string(r.below(20)) + ".dat";
	};
	for (int s = r.range(1, r.chance(0.1) ? 12 : 3) + (big == 1 ? lots/8 : 0); s > 0; --s)
	{
		formats.emplace_back();
		bounds.emplace_back();
		elems.emplace_back();
		for (int e = r.range(1, r.chance(0.1) ? 20 : 4) + (big == 2 && s == 1 ? lots : 0); e > 0; --e)
		{
			Elem el{utf8Name(r), r.pick(ref::formats())};
			if (big == 2 && s == 1) // as wide as possible
			{
				el.name += std::to_string(e);
				if (lots & 1)
					el.f.layout = vfc::ElementLayout::X64Y64Z64W64, el.f.type = vfc::ElementType::Float;
			}
			if (!used.insert(el.name).second)
				continue;
			if (formats.back().appendElement(el.name, el.f.layout, el.f.type) != vfc::VertexFormat::AddResult::Succeeded)
				fail("setup", "appendElement refused " + printable(el.name));
			elems.back().push_back(el);
			Bounds b;
			for (unsigned k = 0; k < 4; ++k)
			{
				b.min[k] = anyFinite(r);
				b.max[k] = anyFinite(r);
			}
			if (r.chance(big ? 0.0001 : 0.01))
			{
				(r.chance(0.5) ? b.min : b.max)[static_cast<unsigned>(r.below(4))] = r.chance(0.5) ? std::numeric_limits<double>::quiet_NaN() : -std::numeric_limits<double>::infinity();
				finite = false;
			}
			for (unsigned k = 0; k < 4; ++k)
			{
				h.val(b.min[k]);
				h.val(b.max[k]);
			}
			h.str(el.name);
			bounds.back().push_back(b);
		}
		data.push_back(dataRef());
	}
	auto edge = [&]() { return static_cast<std::uint32_t>(r.chance(0.3) ? (r.chance(0.5) ? 0xFFFFFFFFu : 0x80000000u) : r.below(r.chance(0.5) ? 100 : 0x100000000ULL)); };
	std::uint32_t vertexCount = edge();
	static const vfc::IndexType types[] = {vfc::IndexType::NoIndices, vfc::IndexType::UInt16, vfc::IndexType::UInt32};
	vfc::IndexType type = types[r.below(3)];
	std::vector<std::string> files;
	std::vector<IndexFileData> index;
	if (big == 3 && type == vfc::IndexType::NoIndices)
		type = vfc::IndexType::UInt16;
	if (type != vfc::IndexType::NoIndices)
	{
		int n = (big == 3 ? lots : 0) + r.range(r.chance(0.1) ? 0 : 1, r.chance(0.05) ? 200 : 4);
		for (int k = 0; k < n; ++k)
			files.push_back(n > 1000 ? "out/indices." + std::to_string(k) + ".dat" : dataRef());
		for (auto& f : files)
			index.push_back(IndexFileData{edge(), static_cast<std::int32_t>(edge()), f.c_str()});
	}
	auto text = std::make_shared<std::string>(resultFile(formats, bounds, data, vertexCount, type, index));
	run.describe = [text] { return text->substr(0, 6000); };
	h.str(*text);
	run.nontrivial(h.h);
	if (!finite)
	{
		run.count("bounds that JSON can't express");
		if (text->empty())
			return;
	}
	mj::Value v;
	std::string e = mj::parse(*text, v);
	if (!e.empty())
		fail("not-json", e);
	if (!finite)
		return;
	auto& verts = member(v, "vertices", mj::Value::Array);
	if (verts.items.size() != formats.size())
		fail("streams", fmt("%zu vertex streams", verts.items.size()));
	for (std::size_t s = 0; s < formats.size(); ++s)
	{
		auto& o = verts.items[s];
		auto& f = member(o, "vertexFormat", mj::Value::Array);
		if (f.items.size() != elems[s].size())
			fail("elements", fmt("%zu elements", f.items.size()));
		std::uint32_t offset = 0;
		for (std::size_t k = 0; k < f.items.size(); ++k)
		{
			auto& el = elems[s][k];
			wantString(f.items[k], "name", el.name);
			wantString(f.items[k], "layout", ref::info(el.f.layout).name);
			wantString(f.items[k], "type", ref::typeName(el.f.type));
			wantInt(f.items[k], "offset", offset);
			double mn[4], mx[4];
			for (unsigned q = 0; q < 4; ++q)
			{
				mn[q] = bounds[s][k].min[q];
				mx[q] = bounds[s][k].max[q];
			}
			wantVector(f.items[k], "minValue", mn);
			wantVector(f.items[k], "maxValue", mx);
			offset += static_cast<std::uint32_t>(ref::info(el.f.layout).size);
			run.count("elements compared");
		}
		wantInt(o, "vertexStride", offset);
		wantString(o, "vertexData", data[s]);
	}
	wantInt(v, "vertexCount", vertexCount);
	if (type == vfc::IndexType::NoIndices)
	{
		if (v.find("indexType") || v.find("indexBuffers"))
			fail("index-members", "index members without an index type");
	}
	else
	{
		wantString(v, "indexType", type == vfc::IndexType::UInt16 ? "UInt16" : "UInt32");
		if (!index.empty())
		{
			auto& b = member(v, "indexBuffers", mj::Value::Array);
			if (b.items.size() != index.size())
				fail("index-buffers", fmt("%zu index buffers not %zu", b.items.size(), index.size()));
			for (std::size_t k = 0; k < index.size(); ++k)
			{
				wantInt(b.items[k], "indexCount", index[k].count);
				wantInt(b.items[k], "baseVertex", index[k].baseVertex);
				wantString(b.items[k], "indexData", files[k]);
				run.count("index buffers compared");
			}
		}
	}
	run.count("documents");
}

// ---------------------------------------------------------------------------------------------
// C24 (in process part)

std::string collapse(const std::string& p)
{
	std::string o;
	for (char c : p)
	{
		if (c == '/' && !o.empty() && o.back() == '/')
			continue;
		o += c;
	}
	return o;
}
std::string noTrail(std::string p)
{
	p = collapse(p);
	while (p.size() > 1 && p.back() == '/')
		p.pop_back();
	return p;
}

std::string somePath(Rng& r)
{
	std::string s;
	if (r.chance(0.35))
		s = "/";
	for (int n = r.range(0, 4); n > 0; --n)
	{
		static const char* part[] = {"a", "b.dat", "..", ".", "dir", "c:", "x\\y", "\xc3\xa9", " ", "long name", "base64:QQ=="};
		s += part[r.below(11)];
		if (n > 1 || r.chance(0.2))
			s += r.chance(0.15) ? "//" : "/";
	}
	return s;
}

void checkPaths(std::uint64_t i)
{
	Rng r = caseRng(run.seed, 24, i);
	auto a = std::make_shared<std::string>(somePath(r)), b = std::make_shared<std::string>(somePath(r));
	if (i < 40)
	{
		static const char* fixed[] = {"", "/", "a", "a/", "/a", "a/b", "a/b/", "/a/b", "../a", "//a"};
		*a = fixed[i % 10];
		*b = fixed[(i/10 + i) % 10];
	}
	run.describe = [=] { return "'" + *a + "' and '" + *b + "'"; };
	Fnv h;
	h.str(*a);
	h.str(*b);
	run.nontrivial(h.h);
	bool absA = !a->empty() && (*a)[0] == '/', absB = !b->empty() && (*b)[0] == '/';
	if (path::isAbsolute(*a) != absA)
		fail("is-absolute", "isAbsolute is wrong for " + *a);
	std::string j = path::join(*a, *b);
	std::string want;
	if (absB || a->empty())
		want = *b;
	else if (b->empty())
		want = *a;
	else
		want = a->back() == '/' ? *a + *b : *a + "/" + *b;
	// A separator more or less doesn't name a different file.
	if (noTrail(j) != noTrail(want))
		fail("join", "join gives '" + j + "' not '" + want + "'");
	if (path::isAbsolute(j) != (absB || (absA)))
		fail("join", "join of these paths gives " + j);
	std::string dir = path::getParentDirectory(*a), file = path::getFileName(*a);
	std::size_t sep = a->rfind('/');
	std::string wantFile = sep == std::string::npos ? *a : a->substr(sep + 1);
	if (file != wantFile)
		fail("file-name", "file name of '" + *a + "' is '" + file + "'");
	std::string wantDir = sep == std::string::npos ? "" : (a->find_first_not_of('/') > sep ? "/" : a->substr(0, sep));
	if (noTrail(dir) != noTrail(wantDir))
		fail("parent", "parent of '" + *a + "' is '" + dir + "' not '" + wantDir + "'");
	if (collapse(path::join(dir, file)) != (file.empty() ? noTrail(*a) : collapse(*a)) && noTrail(path::join(dir, file)) != noTrail(*a))
		fail("rejoin", "'" + *a + "' splits into '" + dir + "' and '" + file + "'");
	if (!b->empty() && b->find('/') == std::string::npos && !a->empty())
	{
		if (path::getFileName(j) != *b || noTrail(path::getParentDirectory(j)) != noTrail(*a))
			fail("resplit", "'" + j + "' doesn't split into what it was joined from");
	}
	run.count("path pairs");
}

void body(std::uint64_t i)
{
	const std::string& id = run.check;
	if (id == "C19")
		checkBase64(i);
	else if (id == "C20")
		checkConfig(i);
	else if (id == "C25")
		checkResult(i);
	else if (id == "C24")
		checkPaths(i);
	else
		fail("setup", "unknown check " + id);
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	return run.loop(body);
}
