// Strict RFC 8259 parser, independent of the one the tool uses. Strings are kept as UTF-8.
#pragma once
#include "common.h"

namespace mj
{

struct Value
{
	enum Kind { Null, Bool, Number, String, Array, Object } kind = Null;
	bool b = false;
	double num = 0;
	std::string text; // string contents or the number as written
	std::vector<Value> items;
	std::vector<std::pair<std::string, Value>> members;

	const Value* find(const std::string& k) const
	{
		for (auto& m : members)
		{
			if (m.first == k)
				return &m.second;
		}
		return nullptr;
	}
};

struct Parser
{
	const std::string& s;
	std::size_t p = 0;
	std::string error;
	explicit Parser(const std::string& t) : s(t) {}

	bool bad(const std::string& e)
	{
		if (error.empty())
			error = e + " at offset " + std::to_string(p);
		return false;
	}
	void ws()
	{
		while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r'))
			++p;
	}
	bool lit(const char* l)
	{
		std::size_t n = strlen(l);
		if (s.compare(p, n, l) != 0)
			return bad("bad literal");
		p += n;
		return true;
	}
	static bool digit(char c) { return c >= '0' && c <= '9'; }
	bool number(Value& v)
	{
		std::size_t b = p;
		auto at = [&](std::size_t i) { return i < s.size() ? s[i] : '\0'; };
		if (at(p) == '-')
			++p;
		if (!digit(at(p)))
			return bad("bad number");
		if (at(p) == '0')
			++p;
		else
			while (digit(at(p)))
				++p;
		if (at(p) == '.')
		{
			++p;
			if (!digit(at(p)))
				return bad("bad fraction");
			while (digit(at(p)))
				++p;
		}
		if (at(p) == 'e' || at(p) == 'E')
		{
			++p;
			if (at(p) == '+' || at(p) == '-')
				++p;
			if (!digit(at(p)))
				return bad("bad exponent");
			while (digit(at(p)))
				++p;
		}
		v.kind = Value::Number;
		v.text = s.substr(b, p - b);
		v.num = strtod(v.text.c_str(), nullptr);
		return true;
	}
	bool hex4(unsigned& u)
	{
		u = 0;
		for (int i = 0; i < 4; ++i, ++p)
		{
			char c = p < s.size() ? s[p] : '\0';
			if (digit(c)) u = u*16 + static_cast<unsigned>(c - '0');
			else if (c >= 'a' && c <= 'f') u = u*16 + static_cast<unsigned>(c - 'a' + 10);
			else if (c >= 'A' && c <= 'F') u = u*16 + static_cast<unsigned>(c - 'A' + 10);
			else return bad("bad \\u");
		}
		return true;
	}
	static void utf8(std::string& o, unsigned c)
	{
		if (c < 0x80) o += static_cast<char>(c);
		else if (c < 0x800) { o += static_cast<char>(0xC0 | (c >> 6)); o += static_cast<char>(0x80 | (c & 63)); }
		else if (c < 0x10000)
		{
			o += static_cast<char>(0xE0 | (c >> 12));
			o += static_cast<char>(0x80 | ((c >> 6) & 63));
			o += static_cast<char>(0x80 | (c & 63));
		}
		else
		{
			o += static_cast<char>(0xF0 | (c >> 18));
			o += static_cast<char>(0x80 | ((c >> 12) & 63));
			o += static_cast<char>(0x80 | ((c >> 6) & 63));
			o += static_cast<char>(0x80 | (c & 63));
		}
	}
	bool string(std::string& o)
	{
		if (p >= s.size() || s[p] != '"')
			return bad("expected a string");
		++p;
		for (;;)
		{
			if (p >= s.size())
				return bad("unterminated string");
			unsigned char c = static_cast<unsigned char>(s[p]);
			if (c == '"')
			{
				++p;
				return true;
			}
			if (c < 0x20)
				return bad("control character in a string");
			if (c != '\\')
			{
				// Well formed UTF-8 only.
				int n = c < 0x80 ? 0 : (c >= 0xC2 && c <= 0xDF ? 1 : (c >= 0xE0 && c <= 0xEF ? 2 : (c >= 0xF0 && c <= 0xF4 ? 3 : -1)));
				if (n < 0 || p + static_cast<std::size_t>(n) >= s.size())
					return bad("bad UTF-8");
				for (int i = 1; i <= n; ++i)
				{
					if ((s[p + static_cast<std::size_t>(i)] & 0xC0) != 0x80)
						return bad("bad UTF-8");
				}
				o.append(s, p, static_cast<std::size_t>(n) + 1);
				p += static_cast<std::size_t>(n) + 1;
				continue;
			}
			++p;
			char e = p < s.size() ? s[p] : '\0';
			++p;
			switch (e)
			{
				case '"': o += '"'; break;
				case '\\': o += '\\'; break;
				case '/': o += '/'; break;
				case 'b': o += '\b'; break;
				case 'f': o += '\f'; break;
				case 'n': o += '\n'; break;
				case 'r': o += '\r'; break;
				case 't': o += '\t'; break;
				case 'u':
				{
					unsigned u;
					if (!hex4(u))
						return false;
					if (u >= 0xDC00 && u <= 0xDFFF)
						return bad("lone surrogate");
					if (u >= 0xD800 && u <= 0xDBFF)
					{
						unsigned w;
						if (s.compare(p, 2, "\\u") != 0)
							return bad("lone surrogate");
						p += 2;
						if (!hex4(w))
							return false;
						if (w < 0xDC00 || w > 0xDFFF)
							return bad("lone surrogate");
						u = 0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00);
					}
					utf8(o, u);
					break;
				}
				default:
					return bad("bad escape");
			}
		}
	}
	bool value(Value& v, int depth)
	{
		if (depth > 64)
			return bad("too deep");
		ws();
		if (p >= s.size())
			return bad("unexpected end");
		switch (s[p])
		{
			case 'n': v.kind = Value::Null; return lit("null");
			case 't': v.kind = Value::Bool; v.b = true; return lit("true");
			case 'f': v.kind = Value::Bool; return lit("false");
			case '"': v.kind = Value::String; return string(v.text);
			case '[':
				v.kind = Value::Array;
				++p;
				ws();
				if (p < s.size() && s[p] == ']') { ++p; return true; }
				for (;;)
				{
					v.items.emplace_back();
					if (!value(v.items.back(), depth + 1))
						return false;
					ws();
					if (p < s.size() && s[p] == ',') { ++p; continue; }
					if (p < s.size() && s[p] == ']') { ++p; return true; }
					return bad("expected ',' or ']'");
				}
			case '{':
				v.kind = Value::Object;
				++p;
				ws();
				if (p < s.size() && s[p] == '}') { ++p; return true; }
				for (;;)
				{
					std::string k;
					ws();
					if (!string(k))
						return false;
					if (v.find(k))
						return bad("duplicate member " + k);
					ws();
					if (p >= s.size() || s[p] != ':')
						return bad("expected ':'");
					++p;
					v.members.emplace_back(k, Value());
					if (!value(v.members.back().second, depth + 1))
						return false;
					ws();
					if (p < s.size() && s[p] == ',') { ++p; continue; }
					if (p < s.size() && s[p] == '}') { ++p; return true; }
					return bad("expected ',' or '}'");
				}
			default:
				return number(v);
		}
	}
};

// Empty when the text is well formed, otherwise why it is not.
inline std::string parse(const std::string& text, Value& v)
{
	Parser p(text);
	if (p.value(v, 0))
	{
		p.ws();
		if (p.p != text.size())
			p.bad("text after the document");
	}
	return p.error;
}

} // namespace mj
