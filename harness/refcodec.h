// Independent reading of the vertex formats, written from the format definitions. It shares nothing
// with the library but the enums.
#pragma once
#include "common.h"
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>
#include <array>

namespace ref
{

using vfc::ElementLayout;
using vfc::ElementType;

enum Kind { Plain, Packed2101010, PackedUFloat, SharedExp };

struct Comp
{
	int bits;  // bits of the component
	int shift; // bit offset within the packed word, or byte offset*8 for plain layouts
};

struct Layout
{
	ElementLayout layout;
	const char* name;
	const char* color;
	Kind kind;
	int size; // bytes
	int count;
	Comp comp[4];
};

inline const std::vector<Layout>& layouts()
{
	static const std::vector<Layout> all = []
	{
		using L = ElementLayout;
		std::vector<Layout> v;
		struct P { L l; const char* n; const char* c; int bits; int count; };
		const P plain[] = {
			{L::X8, "X8", "R8", 8, 1}, {L::X8Y8, "X8Y8", "R8G8", 8, 2},
			{L::X8Y8Z8, "X8Y8Z8", "R8G8B8", 8, 3}, {L::X8Y8Z8W8, "X8Y8Z8W8", "R8G8B8A8", 8, 4},
			{L::X16, "X16", "R16", 16, 1}, {L::X16Y16, "X16Y16", "R16G16", 16, 2},
			{L::X16Y16Z16, "X16Y16Z16", "R16G16B16", 16, 3},
			{L::X16Y16Z16W16, "X16Y16Z16W16", "R16G16B16A16", 16, 4},
			{L::X32, "X32", "R32", 32, 1}, {L::X32Y32, "X32Y32", "R32G32", 32, 2},
			{L::X32Y32Z32, "X32Y32Z32", "R32G32B32", 32, 3},
			{L::X32Y32Z32W32, "X32Y32Z32W32", "R32G32B32A32", 32, 4},
			{L::X64, "X64", "R64", 64, 1}, {L::X64Y64, "X64Y64", "R64G64", 64, 2},
			{L::X64Y64Z64, "X64Y64Z64", "R64G64B64", 64, 3},
			{L::X64Y64Z64W64, "X64Y64Z64W64", "R64G64B64A64", 64, 4}};
		for (auto& p : plain)
		{
			Layout o{p.l, p.n, p.c, Plain, p.bits/8*p.count, p.count, {}};
			for (int i = 0; i < p.count; ++i)
				o.comp[i] = Comp{p.bits, i*p.bits};
			v.push_back(o);
		}
		v.push_back(Layout{L::W2X10Y10Z10, "W2X10Y10Z10", "A2R10G10B10", Packed2101010, 4, 4,
			{{10, 20}, {10, 10}, {10, 0}, {2, 30}}});
		v.push_back(Layout{L::W2Z10Y10X10, "W2Z10Y10X10", "A2B10G10R10", Packed2101010, 4, 4,
			{{10, 0}, {10, 10}, {10, 20}, {2, 30}}});
		v.push_back(Layout{L::Z10Y11X11_UFloat, "Z10Y11X11_UFloat", "B10G11R11_UFloat", PackedUFloat,
			4, 3, {{11, 0}, {11, 11}, {10, 22}, {0, 0}}});
		v.push_back(Layout{L::E5Z9Y9X9_UFloat, "E5Z9Y9X9_UFloat", "E5B9G9R9_UFloat", SharedExp, 4, 3,
			{{9, 0}, {9, 9}, {9, 18}, {0, 0}}});
		return v;
	}();
	return all;
}

inline const Layout& info(ElementLayout l)
{
	for (auto& x : layouts())
	{
		if (x.layout == l)
			return x;
	}
	abort();
}

inline const char* typeName(ElementType t)
{
	switch (t)
	{
		case ElementType::UNorm: return "UNorm";
		case ElementType::SNorm: return "SNorm";
		case ElementType::UInt: return "UInt";
		case ElementType::SInt: return "SInt";
		case ElementType::Float: return "Float";
		default: return "Invalid";
	}
}

inline bool legal(ElementLayout l, ElementType t)
{
	const Layout& i = info(l);
	if (i.kind == PackedUFloat || i.kind == SharedExp)
		return t == ElementType::Float;
	if (i.kind == Packed2101010 || i.comp[0].bits == 8)
		return t == ElementType::UNorm || t == ElementType::SNorm || t == ElementType::UInt ||
			t == ElementType::SInt;
	if (i.comp[0].bits == 16)
		return true;
	return t == ElementType::UInt || t == ElementType::SInt || t == ElementType::Float;
}

struct Format
{
	ElementLayout layout;
	ElementType type;
};

inline const std::vector<Format>& formats()
{
	static const std::vector<Format> all = []
	{
		std::vector<Format> v;
		for (auto& l : layouts())
		{
			for (ElementType t : {ElementType::UNorm, ElementType::SNorm, ElementType::UInt,
				ElementType::SInt, ElementType::Float})
			{
				if (legal(l.layout, t))
					v.push_back(Format{l.layout, t});
			}
		}
		return v;
	}();
	return all;
}

inline std::string name(const Format& f) { return std::string(info(f.layout).name) + ":" + typeName(f.type); }

// Raw code of a component, zero extended.
inline std::uint64_t code(const void* data, const Layout& l, int i)
{
	const auto* b = static_cast<const unsigned char*>(data);
	if (l.kind == Plain)
	{
		std::uint64_t v = 0;
		int n = l.comp[i].bits/8;
		for (int k = 0; k < n; ++k)
			v |= static_cast<std::uint64_t>(b[l.comp[i].shift/8 + k]) << (8*k); // little endian target
		return v;
	}
	std::uint32_t w = 0;
	for (int k = 0; k < 4; ++k)
		w |= static_cast<std::uint32_t>(b[k]) << (8*k);
	return (w >> l.comp[i].shift) & ((1U << l.comp[i].bits) - 1);
}

inline void setCode(void* data, const Layout& l, int i, std::uint64_t v)
{
	auto* b = static_cast<unsigned char*>(data);
	if (l.kind == Plain)
	{
		for (int k = 0; k < l.comp[i].bits/8; ++k)
			b[l.comp[i].shift/8 + k] = static_cast<unsigned char>(v >> (8*k));
		return;
	}
	std::uint32_t w = 0;
	for (int k = 0; k < 4; ++k)
		w |= static_cast<std::uint32_t>(b[k]) << (8*k);
	std::uint32_t m = ((1U << l.comp[i].bits) - 1) << l.comp[i].shift;
	w = (w & ~m) | ((static_cast<std::uint32_t>(v) << l.comp[i].shift) & m);
	for (int k = 0; k < 4; ++k)
		b[k] = static_cast<unsigned char>(w >> (8*k));
}

inline std::int64_t signExtend(std::uint64_t c, int bits)
{
	if (bits == 64)
		return static_cast<std::int64_t>(c);
	std::uint64_t sign = 1ULL << (bits - 1);
	return static_cast<std::int64_t>((c ^ sign)) - static_cast<std::int64_t>(sign);
}

inline std::uint64_t maxCode(int bits) { return bits == 64 ? ~0ULL : (1ULL << bits) - 1; }

// Small float: sign bit optional, 5 exponent bits, m mantissa bits, bias 15.
inline double smallFloat(std::uint64_t c, int m, bool sign)
{
	int e = static_cast<int>((c >> m) & 31);
	double f = static_cast<double>(c & ((1ULL << m) - 1));
	double s = sign && ((c >> (m + 5)) & 1) ? -1.0 : 1.0;
	double p = std::pow(2.0, m);
	if (e == 31)
		return f != 0 ? std::numeric_limits<double>::quiet_NaN() : s*std::numeric_limits<double>::infinity();
	if (e == 0)
		return s*(f/p)*std::pow(2.0, -14);
	return s*(1.0 + f/p)*std::pow(2.0, e - 15);
}

inline double decodeComp(std::uint64_t c, int bits, ElementType t, Kind kind)
{
	switch (t)
	{
		case ElementType::UNorm:
			return static_cast<double>(static_cast<long double>(c)/static_cast<long double>(maxCode(bits)));
		case ElementType::SNorm:
		{
			long double u = static_cast<long double>(signExtend(c, bits)) + std::pow(2.0L, bits - 1);
			return static_cast<double>(u/static_cast<long double>(maxCode(bits))*2 - 1);
		}
		case ElementType::UInt:
			return static_cast<double>(c);
		case ElementType::SInt:
			return static_cast<double>(signExtend(c, bits));
		default:
			break;
	}
	if (kind == PackedUFloat)
		return smallFloat(c, bits - 5, false);
	if (bits == 16)
		return smallFloat(c, 10, true);
	if (bits == 32)
	{
		std::uint32_t u = static_cast<std::uint32_t>(c);
		float f;
		memcpy(&f, &u, 4);
		return f;
	}
	double d;
	memcpy(&d, &c, 8);
	return d;
}

using Vec = std::array<double, 4>;

inline Vec decode(const void* data, const Format& f)
{
	const Layout& l = info(f.layout);
	Vec v{{0, 0, 0, 1}};
	if (l.kind == SharedExp)
	{
		const auto* b = static_cast<const unsigned char*>(data);
		int e = b[3] >> 3;
		for (int i = 0; i < 3; ++i)
			v[static_cast<std::size_t>(i)] = static_cast<double>(code(data, l, i))*std::pow(2.0, e - 15 - 9);
		return v;
	}
	for (int i = 0; i < l.count; ++i)
		v[static_cast<std::size_t>(i)] = decodeComp(code(data, l, i), l.comp[i].bits, f.type, l.kind);
	return v;
}

inline bool sameValue(double a, double b, ElementType t)
{
	if (std::isnan(a) || std::isnan(b))
		return std::isnan(a) && std::isnan(b);
	if (t == ElementType::UNorm || t == ElementType::SNorm)
		return std::fabs(a - b) <= 1e-15;
	return a == b;
}

// Nearest distance of a finite value to a small float grid, saturating to max finite.
inline double smallFloatMax(int m) { return (2.0 - std::pow(2.0, -m))*32768.0; }

inline double nearestSmall(double x, int m)
{
	double a = std::fabs(x);
	int e;
	double r;
	if (a == 0)
		r = 0;
	else
	{
		std::frexp(a, &e);
		--e;
		if (e < -14)
			e = -14;
		double q = std::ldexp(1.0, e - m);
		r = std::nearbyint(a/q)*q;
	}
	return x < 0 ? -r : r;
}

// Empty string when the stored code is an acceptable encoding of x.
inline std::string judgeComp(double x, std::uint64_t c, int bits, ElementType t, Kind kind)
{
	const double tieSlack = 1e-9;
	switch (t)
	{
		case ElementType::UNorm:
		{
			if (std::isnan(x))
				return c == 0 ? "" : "NaN not stored as 0";
			long double k = std::fmin(std::fmax(x, 0.0), 1.0);
			long double want = k*static_cast<long double>(maxCode(bits));
			if (std::fabs(static_cast<double>(static_cast<long double>(c) - want)) > 0.5 + tieSlack)
				return mon::fmt("UNorm code %llu, exact position %.17Lg", static_cast<unsigned long long>(c), want);
			return "";
		}
		case ElementType::SNorm:
		{
			long double u = static_cast<long double>(signExtend(c, bits)) + std::pow(2.0L, bits - 1);
			long double k = std::isnan(x) ? 0 : std::fmin(std::fmax(x, -1.0), 1.0);
			long double want = (k*0.5L + 0.5L)*static_cast<long double>(maxCode(bits));
			if (std::fabs(static_cast<double>(u - want)) > 0.5 + tieSlack)
				return mon::fmt("SNorm code %lld, exact position %.17Lg of 0..%llu",
					static_cast<long long>(signExtend(c, bits)), want, static_cast<unsigned long long>(maxCode(bits)));
			return "";
		}
		case ElementType::UInt:
		case ElementType::SInt:
		{
			long double lo = 0, hi = static_cast<long double>(maxCode(bits)), got = static_cast<long double>(c);
			if (t == ElementType::SInt)
			{
				lo = -std::pow(2.0L, bits - 1);
				hi = std::pow(2.0L, bits - 1) - 1;
				got = static_cast<long double>(signExtend(c, bits));
			}
			long double want = std::isnan(x) ? 0 : x;
			if (want < lo) want = lo;
			if (want > hi) want = hi;
			if (got - want > 0.5L || want - got > 0.5L)
				return mon::fmt("integer %.0Lf stored for %.17g, expected nearest of %.17Lg", got, x, want);
			return "";
		}
		default:
			break;
	}
	double got = decodeComp(c, bits, t, kind);
	if (std::isnan(x))
		return std::isnan(got) ? "" : "NaN not stored as NaN";
	if (kind == PackedUFloat)
	{
		int m = bits - 5;
		if (x <= 0)
			return got == 0 ? "" : mon::fmt("%.17g stored for non-positive %.17g", got, x);
		if (std::isinf(x))
			return std::isinf(got) || got == smallFloatMax(m) ? "" : mon::fmt("%.17g stored for infinity", got);
		double want = x >= smallFloatMax(m) ? smallFloatMax(m) : nearestSmall(x, m);
		want = std::fmin(want, smallFloatMax(m));
		double best = std::fabs(want - std::fmin(x, smallFloatMax(m)));
		if (!(std::fabs(got - std::fmin(x, smallFloatMax(m))) <= best*(1 + 1e-6)))
			return mon::fmt("%.17g stored for %.17g, nearest is %.17g", got, x, want);
		return "";
	}
	if (bits == 16)
	{
		float f = static_cast<float>(x);
		if (std::fabs(f) >= 65520.0f || std::fabs(x) >= 65520.0)
		{
			bool ok = std::isinf(got) && std::signbit(got) == std::signbit(x);
			// 65520 itself is a tie between 65504 and infinity for a value just below it.
			if (!ok && std::fabs(x) < 65520.0)
				ok = std::fabs(got) == 65504.0;
			return ok ? "" : mon::fmt("%.17g stored for %.17g, expected infinity", got, x);
		}
		double dx = std::fabs(nearestSmall(x, 10) - x), df = std::fabs(nearestSmall(f, 10) - f);
		bool ok = std::fabs(got - x) <= dx || std::fabs(got - f) <= df;
		if (!ok || (got == 0 && x != 0 && std::signbit(got) != std::signbit(x)))
			return mon::fmt("half %.17g stored for %.17g, nearest is %.17g", got, x, nearestSmall(x, 10));
		return "";
	}
	if (bits == 32)
	{
		float f = static_cast<float>(x);
		std::uint32_t u;
		memcpy(&u, &f, 4);
		return u == static_cast<std::uint32_t>(c) ? "" : mon::fmt("float bits %08x stored for %.17g, expected %08x",
			static_cast<unsigned>(c), x, u);
	}
	std::uint64_t u;
	memcpy(&u, &x, 8);
	return u == c ? "" : mon::fmt("double bits %016llx stored for %.17g", static_cast<unsigned long long>(c), x);
}

// Judges an encoded element as a whole.
inline std::string judge(const Vec& x, const void* data, const Format& f)
{
	const Layout& l = info(f.layout);
	if (l.kind == SharedExp)
	{
		const double maxVal = 65408.0;
		double v[3], mx = 0;
		for (int i = 0; i < 3; ++i)
		{
			double a = x[static_cast<std::size_t>(i)];
			v[i] = a > 0 ? std::fmin(a, maxVal) : 0.0;
			mx = std::fmax(mx, v[i]);
		}
		// Smallest exponent with which the largest component rounds to at most 511.
		int e = 0;
		while (e < 31 && std::floor(mx/std::pow(2.0, e - 24) + 0.5) > 511)
			++e;
		double q = std::pow(2.0, e - 24);
		Vec got = decode(data, f);
		for (int i = 0; i < 3; ++i)
		{
			double g = got[static_cast<std::size_t>(i)];
			if (!(std::fabs(g - v[i]) <= 0.5*q*(1 + 1e-6)))
				return mon::fmt("component %d: %.17g stored for %.17g (quantum %.17g)", i, g, x[static_cast<std::size_t>(i)], q);
		}
		return "";
	}
	for (int i = 0; i < l.count; ++i)
	{
		std::string s = judgeComp(x[static_cast<std::size_t>(i)], code(data, l, i), l.comp[i].bits, f.type, l.kind);
		if (!s.empty())
			return mon::fmt("component %d: ", i) + s;
	}
	return "";
}

} // namespace ref
