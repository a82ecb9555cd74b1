// Monitors of single value decoding and encoding: C08 - C11, C16, and of the helpers around them: C28.
#include "refcodec.h"
#include <VFC/Converter.h>
#include <algorithm>
#include <map>
#include <memory>
#include <sys/mman.h>

using mon::fail;
using mon::fmt;
using mon::Rng;
using vfc::VertexFormat;
using vfc::VertexValue;

static mon::Run run;

namespace
{

std::string hex(const void* p, std::size_t n)
{
	std::string s;
	for (std::size_t i = 0; i < n; ++i)
		s += fmt("%02x", static_cast<const unsigned char*>(p)[i]);
	return s;
}

// Exactly sized heap blocks, one per alignment.
struct Blocks
{
	std::unique_ptr<unsigned char[]> mem[8];
	std::size_t size;
	explicit Blocks(std::size_t n) : size(n)
	{
		for (std::size_t a = 0; a < 8; ++a)
			mem[a].reset(new unsigned char[n + a]);
	}
	unsigned char* at(std::size_t a) { return mem[a].get() + a; }
};

std::uint64_t interesting(Rng& r, int bits, ref::ElementType t)
{
	std::uint64_t m = ref::maxCode(bits);
	if (t == ref::ElementType::Float && bits >= 32 && r.chance(0.7))
	{
		double d;
		switch (r.below(12))
		{
			case 0: d = 0; break;
			case 1: d = -0.0; break;
			case 2: d = std::numeric_limits<double>::infinity(); break;
			case 3: d = -std::numeric_limits<double>::infinity(); break;
			case 4: d = std::numeric_limits<double>::quiet_NaN(); break;
			case 5: d = std::ldexp(r.unit(), -1060); break;
			case 6: d = std::ldexp(r.unit(), -135); break;
			case 7: d = r.range(-100, 100); break;
			case 8: d = std::numeric_limits<float>::max(); break;
			case 9: d = 1 + std::ldexp(1, -r.range(0, 52)); break;
			default: d = std::ldexp(r.unit()*2 - 1, r.range(-100, 100)); break;
		}
		std::uint64_t u;
		if (bits == 64)
			memcpy(&u, &d, 8);
		else
		{
			float f = static_cast<float>(d);
			std::uint32_t w;
			memcpy(&w, &f, 4);
			u = w;
		}
		return u;
	}
	switch (r.below(10))
	{
		case 0: return 0;
		case 1: return 1;
		case 2: return m;
		case 3: return m - 1;
		case 4: return m >> 1;
		case 5: return (m >> 1) + 1;
		case 6: return (m >> 1) + 2;
		case 7: return (1ULL << r.below(static_cast<std::uint64_t>(bits))) & m;
		case 8: return ((1ULL << r.below(static_cast<std::uint64_t>(bits))) - 1) & m;
		default: return r.next() & m;
	}
}

constexpr std::uint64_t chunks = 8;

// Calls f with the bytes of many elements of a format. Chunks 0-7 of a format enumerate every code of every
// component up to 16 bits, with the other components varying; later ones are random.
void eachElement(const ref::Format& f, std::uint64_t chunk, Rng& r, const std::function<void(const unsigned char*)>& g)
{
	const ref::Layout& l = ref::info(f.layout);
	unsigned char data[64];
	auto randomize = [&]
	{
		for (int i = 0; i < l.size; ++i)
			data[i] = static_cast<unsigned char>(r.next());
		for (int i = 0; i < l.count; ++i)
			ref::setCode(data, l, i, interesting(r, l.comp[i].bits, f.type));
		if (l.kind == ref::SharedExp)
			data[3] = static_cast<unsigned char>((data[3] & 7) | (r.below(32) << 3));
	};
	bool small = l.comp[0].bits <= 16;
	if (chunk < chunks && small)
	{
		for (int i = 0; i < l.count; ++i)
		{
			std::uint64_t n = ref::maxCode(l.comp[i].bits) + 1;
			std::uint64_t b = n*chunk/chunks, e = n*(chunk + 1)/chunks;
			int exps = l.kind == ref::SharedExp ? 32 : 1;
			for (int x = 0; x < exps; ++x)
			{
				for (std::uint64_t c = b; c < e; ++c)
				{
					randomize();
					ref::setCode(data, l, i, c);
					if (l.kind == ref::SharedExp)
						data[3] = static_cast<unsigned char>((data[3] & 7) | (x << 3));
					g(data);
				}
			}
			run.count("component codes enumerated", (e - b)*static_cast<std::uint64_t>(exps));
		}
		return;
	}
	for (int k = 0; k < 1500; ++k)
	{
		randomize();
		g(data);
	}
}

// ---- C08 ----------------------------------------------------------------------------------

void checkDecode(const ref::Format& f, std::uint64_t chunk, Rng& r)
{
	const ref::Layout& l = ref::info(f.layout);
	Blocks blocks(static_cast<std::size_t>(l.size));
	eachElement(f, chunk, r, [&](const unsigned char* data)
	{
		std::size_t a = r.below(8);
		unsigned char* p = blocks.at(a);
		memcpy(p, data, static_cast<std::size_t>(l.size));
		double junk = std::ldexp(r.unit(), 3);
		VertexValue v(junk, -junk, junk, -junk);
		if (!v.fromData(p, f.layout, f.type))
			fail("refused", "fromData refused " + ref::name(f));
		ref::Vec want = ref::decode(data, f);
		for (unsigned i = 0; i < 4; ++i)
		{
			ref::ElementType t = static_cast<int>(i) < l.count ? f.type : ref::ElementType::UInt;
			if (!ref::sameValue(v[i], want[i], t) || (v[i] == 0 && std::signbit(v[i]) != std::signbit(want[i]) &&
					f.type == ref::ElementType::Float))
				fail("decode", fmt("%s bytes %s at alignment %zu: component %u is %.17g, expected %.17g", ref::name(f).c_str(),
					hex(data, static_cast<std::size_t>(l.size)).c_str(), a, i, v[i], want[i]));
			// The ends and the order of normalized values are exact.
			if (static_cast<int>(i) < l.count && (f.type == ref::ElementType::UNorm || f.type == ref::ElementType::SNorm) &&
				(want[i] == 0 || want[i] == 1 || want[i] == -1) && v[i] != want[i])
				fail("decode", fmt("%s bytes %s: component %u is %.17g, expected exactly %.17g", ref::name(f).c_str(),
					hex(data, static_cast<std::size_t>(l.size)).c_str(), i, v[i], want[i]));
		}
		if (memcmp(p, data, static_cast<std::size_t>(l.size)) != 0)
			fail("modified", "fromData modified its input");
		run.count("elements decoded");
	});
}

// ---- C09 ----------------------------------------------------------------------------------

double interestingValue(Rng& r, const ref::Format& f, int comp)
{
	const ref::Layout& l = ref::info(f.layout);
	int bits = l.comp[comp].bits;
	static const double specials[] = {0, -0.0, 1, -1, 0.5, -0.5, 2, -2, 1e-300, -1e-300, 5e-324, -5e-324, 1e300, -1e300,
		65504, 65519, 65519.99, 65520, 65520.01, 65536, 65535, 65408, 65409, 65472, 64512, 65024, 65025, 32768, 32767,
		-32768, -32769, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0,
		4294967295.5, 9007199254740992.0, 9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0,
		-9223372036854777856.0, 18446744073709551615.0, 18446744073709549568.0, 1e19, 1e20, -1e19, 3.4028234663852886e38,
		3.4028235677973366e38, 3.4028234663852887e38, 1e39, 127, 128, -128, -129, 255, 255.5, 256, 511, 511.5, 512, 1023, 1023.5,
		1024, 1.5, 2.5, 3.5, -1.5, -2.5, 0.499999999999999944, 0.50000000000000011};
	const double inf = std::numeric_limits<double>::infinity();
	double d;
	switch (r.below(12))
	{
		case 0: return specials[r.below(sizeof(specials)/sizeof(*specials))];
		case 1: return r.chance(0.5) ? std::nextafter(specials[r.below(sizeof(specials)/sizeof(*specials))], inf) :
			std::nextafter(specials[r.below(sizeof(specials)/sizeof(*specials))], -inf);
		case 2:
		{
			std::uint64_t u = r.next();
			memcpy(&d, &u, 8);
			return d;
		}
		case 3: return r.chance(0.4) ? std::numeric_limits<double>::quiet_NaN() : (r.chance(0.5) ? inf : -inf);
		case 4: return std::ldexp(r.unit()*2 - 1, r.range(-40, 70));
		case 5: return r.unit()*2.2 - 1.1;
		case 6: return std::ldexp(r.unit()*2 - 1, r.range(-30, -10));
		default: break;
	}
	// A representable value, a midpoint, or close to either.
	std::uint64_t c = r.next() & ref::maxCode(bits);
	if (r.chance(0.15))
		c = r.below(4);
	if (r.chance(0.15))
		c = ref::maxCode(bits) - r.below(4);
	if (l.kind == ref::SharedExp)
		d = static_cast<double>(c)*std::pow(2.0, r.range(0, 31) - 24);
	else
		d = ref::decodeComp(c, bits, f.type, l.kind);
	double half = 0;
	switch (f.type)
	{
		case ref::ElementType::UNorm: half = 0.5/static_cast<double>(ref::maxCode(bits)); break;
		case ref::ElementType::SNorm: half = 1.0/static_cast<double>(ref::maxCode(bits)); break;
		case ref::ElementType::UInt:
		case ref::ElementType::SInt: half = 0.5; break;
		default:
		{
			double d2 = l.kind == ref::SharedExp ? d + std::pow(2.0, r.range(0, 31) - 24) :
				ref::decodeComp((c + 1) & ref::maxCode(bits), bits, f.type, l.kind);
			if (std::isfinite(d) && std::isfinite(d2))
				half = d2/2 - d/2;
			break;
		}
	}
	switch (r.below(6))
	{
		case 0: return d;
		case 1: return d + half;
		case 2: return std::nextafter(d + half, inf);
		case 3: return std::nextafter(d + half, -inf);
		case 4: return d - half;
		default: return d + (r.unit()*2 - 1)*2*half;
	}
}

void checkEncode(const ref::Format& f, Rng& r)
{
	const ref::Layout& l = ref::info(f.layout);
	Blocks blocks(static_cast<std::size_t>(l.size));
	auto encode = [&](const ref::Vec& x, unsigned char* out)
	{
		std::size_t a = r.below(8);
		unsigned char* p = blocks.at(a);
		memset(p, static_cast<int>(r.below(256)), static_cast<std::size_t>(l.size));
		VertexValue v(x[0], x[1], x[2], x[3]);
		if (!v.toData(p, f.layout, f.type))
			fail("refused", "toData refused " + ref::name(f));
		memcpy(out, p, static_cast<std::size_t>(l.size));
		run.count("elements encoded");
	};
	unsigned char out[64];
	for (int k = 0; k < 900; ++k)
	{
		ref::Vec x;
		for (int i = 0; i < 4; ++i)
			x[static_cast<std::size_t>(i)] = interestingValue(r, f, i < l.count ? i : 0);
		encode(x, out);
		std::string m = ref::judge(x, out, f);
		if (!m.empty())
			fail("encode", fmt("%s from (%.17g, %.17g, %.17g, %.17g) gives %s: ", ref::name(f).c_str(), x[0], x[1], x[2], x[3],
				hex(out, static_cast<std::size_t>(l.size)).c_str()) + m);
		for (double d : x)
		{
			if (std::isnan(d))
				run.count("NaN components encoded");
			else if (std::isinf(d))
				run.count("infinite components encoded");
			else if (d != 0 && std::fabs(d) < 2.3e-308)
				run.count("denormal components encoded");
		}
	}
	// Monotonic in each component.
	for (int i = 0; i < l.count; ++i)
	{
		std::vector<double> xs;
		for (int k = 0; k < 120; ++k)
		{
			double d = interestingValue(r, f, i);
			if (std::isnan(d))
				continue;
			xs.push_back(d);
			if (r.chance(0.5))
				xs.push_back(std::nextafter(d, 1e308));
		}
		std::sort(xs.begin(), xs.end());
		double last = -std::numeric_limits<double>::infinity(), lastX = last;
		for (double d : xs)
		{
			ref::Vec x{{0, 0, 0, 0}};
			x[static_cast<std::size_t>(i)] = d;
			encode(x, out);
			double got = ref::decode(out, f)[static_cast<std::size_t>(i)];
			if (got < last)
				fail("monotonic", fmt("%s component %d: %.17g stored as %.17g but the larger %.17g as %.17g", ref::name(f).c_str(),
					i, lastX, last, d, got));
			last = got;
			lastX = d;
			run.count("order comparisons");
		}
	}
}

// ---- C10 ----------------------------------------------------------------------------------

// Whether the bytes of a component have to survive.
bool survives(const ref::Format& f, const ref::Layout& l, int i, std::uint64_t c)
{
	int bits = l.comp[i].bits;
	if (f.type == ref::ElementType::Float)
	{
		double d = ref::decodeComp(c, bits, f.type, l.kind);
		if (std::isnan(d))
			return false;
		return l.kind != ref::PackedUFloat || std::isfinite(d);
	}
	if (bits == 64)
	{
		// Beyond 2^53 a double can't hold every integer.
		std::int64_t s = f.type == ref::ElementType::SInt ? ref::signExtend(c, 64) : 0;
		if (f.type == ref::ElementType::SInt)
			return s >= -(1LL << 53) && s <= (1LL << 53);
		return c <= (1ULL << 53);
	}
	return true;
}

std::vector<ref::Format> widerFormats(const ref::Format& f)
{
	std::vector<ref::Format> v;
	const ref::Layout& l = ref::info(f.layout);
	for (auto& g : ref::formats())
	{
		const ref::Layout& m = ref::info(g.layout);
		if (m.kind != ref::Plain || m.count != l.count || g.type != f.type)
			continue;
		int widest = 0;
		for (int i = 0; i < l.count; ++i)
			widest = std::max(widest, l.comp[i].bits);
		bool fl = f.type == ref::ElementType::Float;
		if (m.comp[0].bits > widest && (!fl || l.kind == ref::Plain || m.comp[0].bits >= 32))
			v.push_back(g);
	}
	return v;
}

void compareBack(const ref::Format& f, const unsigned char* data, const unsigned char* back, const std::string& how)
{
	const ref::Layout& l = ref::info(f.layout);
	if (l.kind == ref::SharedExp)
	{
		ref::Vec a = ref::decode(data, f), b = ref::decode(back, f);
		if (a != b)
			fail("lossy", fmt("%s %s comes back as %s %s", ref::name(f).c_str(), hex(data, 4).c_str(), hex(back, 4).c_str(), how.c_str()));
		return;
	}
	for (int i = 0; i < l.count; ++i)
	{
		std::uint64_t c = ref::code(data, l, i), d = ref::code(back, l, i);
		if (c != d && survives(f, l, i, c))
			fail("lossy", fmt("%s component %d: %llx comes back as %llx %s", ref::name(f).c_str(), i,
				static_cast<unsigned long long>(c), static_cast<unsigned long long>(d), how.c_str()));
	}
}

void checkRoundTrip(const ref::Format& f, std::uint64_t chunk, Rng& r)
{
	const ref::Layout& l = ref::info(f.layout);
	auto size = static_cast<std::size_t>(l.size);
	std::vector<ref::Format> wider = widerFormats(f);
	std::vector<unsigned char> all;
	eachElement(f, chunk, r, [&](const unsigned char* data)
	{
		VertexValue v;
		unsigned char back[64], mid[64];
		memset(back, 0xAA, sizeof(back));
		if (!v.fromData(data, f.layout, f.type) || !v.toData(back, f.layout, f.type))
			fail("refused", "refused " + ref::name(f));
		compareBack(f, data, back, "when encoded again");
		run.count("round trips");
		if (!wider.empty())
		{
			const ref::Format& w = wider[r.below(wider.size())];
			VertexValue u;
			v.toData(mid, w.layout, w.type);
			u.fromData(mid, w.layout, w.type);
			u.toData(back, f.layout, f.type);
			compareBack(f, data, back, "through " + ref::name(w));
			run.count("round trips through a wider type");
		}
		if (all.size() < 4000*size)
			all.insert(all.end(), data, data + size);
	});
	// The same through the converter.
	auto n = static_cast<std::uint32_t>(all.size()/size);
	VertexFormat fmtV;
	fmtV.appendElement("v", f.layout, f.type);
	std::string err;
	vfc::Converter conv(fmtV, vfc::IndexType::NoIndices, vfc::PrimitiveType::PointList, 0, [&](const char* m) { err += m; });
	if (!conv.addVertexStream(fmtV, all.data(), n) || !conv.convert())
		fail("refused", "conversion refused: " + err);
	if (conv.getVertexCount() != n || conv.getVertices().size() != 1 || conv.getVertices()[0].size() != all.size())
		fail("converter", "wrong amount of vertices");
	for (std::uint32_t i = 0; i < n; ++i)
		compareBack(f, all.data() + i*size, conv.getVertices()[0].data() + i*size, "through a conversion between identical formats");
	run.count("vertices through identity conversions", n);
}

// ---- C11 ----------------------------------------------------------------------------------

struct Guarded
{
	unsigned char* base;
	std::size_t page = static_cast<std::size_t>(sysconf(_SC_PAGESIZE));
	Guarded()
	{
		base = static_cast<unsigned char*>(mmap(nullptr, page*3, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (base == MAP_FAILED || mprotect(base + page, page, PROT_READ | PROT_WRITE) != 0)
			abort();
	}
	unsigned char* begin() { return base + page; }
	unsigned char* end() { return base + 2*page; }
};

void checkExtent(int layoutInt, int typeInt, Rng& r)
{
	static Guarded guard;
	auto layout = static_cast<ref::ElementLayout>(layoutInt);
	auto type = static_cast<ref::ElementType>(typeInt);
	bool known = layoutInt >= 0 && layoutInt < static_cast<int>(vfc::elementLayoutCount) && typeInt >= 0 &&
		typeInt < static_cast<int>(vfc::elementTypeCount);
	bool legal = known && ref::legal(layout, type);
	// 32 and 64-bit normalized values can't be put in a format, but VertexValue has code for them. Whether it takes or
	// refuses them isn't promised; that it stays within the element, and within defined behaviour, is.
	bool extra = known && !legal && ref::info(layout).kind == ref::Plain && ref::info(layout).comp[0].bits >= 32 &&
		type != ref::ElementType::Float;
	std::string what = fmt("layout %d type %d", layoutInt, typeInt);
	if (typeInt >= -1 && typeInt < static_cast<int>(vfc::elementTypeCount) && vfc::isElementValid(layout, type) != legal)
		fail("legality", what + ": isElementValid is wrong");
	if (typeInt >= -1 && typeInt < static_cast<int>(vfc::elementTypeCount))
	{
		VertexFormat vf;
		bool added = vf.appendElement("e", layout, type) == VertexFormat::AddResult::Succeeded;
		if (added != legal)
			fail("legality", what + ": appendElement disagrees");
		run.count("layout/type pairs checked for legality");
	}
	std::size_t size = known ? static_cast<std::size_t>(ref::info(layout).size) : 4;

	auto sameBits = [](const VertexValue& a, const VertexValue& b)
	{
		for (unsigned i = 0; i < 4; ++i)
		{
			double x = a[i], y = b[i];
			if (memcmp(&x, &y, 8))
				return false;
		}
		return true;
	};
	for (int k = 0; k < 60; ++k)
	{
		// Null.
		VertexValue v(r.unit(), r.unit(), r.unit(), r.unit()), before = v;
		if (v.fromData(nullptr, layout, type) || v.toData(nullptr, layout, type) || v.toData(nullptr, layout, type, v, v))
			fail("null", what + ": null data accepted");
		if (!sameBits(v, before))
			fail("null", what + ": value changed by a refused call");
		run.count("null calls");

		// Somewhere in the page, at its end, at its beginning.
		unsigned char* p;
		int where = static_cast<int>(r.below(3));
		if (where == 0)
			p = guard.end() - size;
		else if (where == 1)
			p = guard.begin();
		else
			p = guard.begin() + 64 + r.below(64);
		for (std::size_t i = 0; i < guard.page; ++i)
			guard.begin()[i] = static_cast<unsigned char>(i*7 + static_cast<std::size_t>(k));
		for (std::size_t i = 0; i < size; ++i)
			p[i] = static_cast<unsigned char>(r.next());
		std::vector<unsigned char> copy(guard.begin(), guard.end());
		std::size_t off = static_cast<std::size_t>(p - guard.begin());

		v = before;
		bool ok = v.fromData(p, layout, type);
		run.count("guarded reads");
		if (legal && !ok)
			fail("legality", what + ": fromData refuses a legal pair");
		if (!legal && !extra && ok)
			fail("legality", what + ": fromData accepts an illegal pair");
		if (!ok && !sameBits(v, before))
			fail("refused-changes", what + ": refused fromData changed the value");
		if (memcmp(copy.data(), guard.begin(), guard.page) != 0)
			fail("input-written", what + ": fromData wrote memory");

		VertexValue w(interestingValue(r, ref::formats()[r.below(ref::formats().size())], 0), r.unit()*10, -r.unit(), r.unit());
		VertexValue lo(-1, -2, -3, -4), hi(4, 4, 4, 4);
		bool bounded = r.chance(0.4);
		bool ok2 = bounded ? w.toData(p, layout, type, lo, hi) : w.toData(p, layout, type);
		run.count("guarded writes");
		if (legal && !ok2)
			fail("legality", what + ": toData refuses a legal pair");
		if (!legal && !extra && ok2)
			fail("legality", what + ": toData accepts an illegal pair");
		for (std::size_t i = 0; i < guard.page; ++i)
		{
			bool inside = ok2 && i >= off && i < off + size;
			if (!inside && copy[i] != guard.begin()[i])
				fail("outside-written", what + fmt(": toData changed byte %ld relative to the element (size %zu, returned %d)",
					static_cast<long>(i) - static_cast<long>(off), size, ok2));
		}
		if (ok2)
		{
			// Every byte of the element is written: writing over different bytes gives the same.
			std::vector<unsigned char> one(p, p + size);
			for (std::size_t i = 0; i < size; ++i)
				p[i] = static_cast<unsigned char>(~one[i]);
			if (bounded)
				w.toData(p, layout, type, lo, hi);
			else
				w.toData(p, layout, type);
			if (memcmp(p, one.data(), size) != 0)
				fail("partly-written", what + ": the stored bytes depend on what was there before");
		}
	}
}

// ---- C28 ----------------------------------------------------------------------------------

// Any double, with the special ones often.
double anyDouble(Rng& r)
{
	std::uint64_t u = interesting(r, 64, r.chance(0.8) ? ref::ElementType::Float : ref::ElementType::UInt);
	double d;
	memcpy(&d, &u, 8);
	return d;
}

bool sameBits(double a, double b)
{
	return memcmp(&a, &b, 8) == 0;
}

void checkIndexHelpers(Rng& r)
{
	static Guarded guard;
	using vfc::IndexType;
	struct Type
	{
		IndexType type;
		std::size_t size;
		std::uint32_t restart, max;
	};
	const Type types[3] = {{IndexType::NoIndices, 0, 0xFFFFFFFFU, 0}, {IndexType::UInt16, 2, 0xFFFFU, 0xFFFEU}, {IndexType::UInt32, 4, 0xFFFFFFFFU, 0xFFFFFFFEU}};
	const Type& t = types[r.below(3)];
	// Values that aren't enumerators have no size and no indices.
	bool odd = r.chance(0.1);
	IndexType type = odd ? static_cast<IndexType>(3 + r.below(253)) : t.type;
	std::size_t size = odd ? 0 : t.size;
	std::string what = fmt("index type %d", static_cast<int>(type));
	if (vfc::indexSize(type) != size)
		fail("index-size", what + fmt(": indexSize is %u", vfc::indexSize(type)));
	if (!odd && (vfc::maxIndexValue(type) != t.max || (size && vfc::primitiveRestartIndexValue(type) != t.restart)))
		fail("index-limits", what + fmt(": maximum %u, restart %u", vfc::maxIndexValue(type), vfc::primitiveRestartIndexValue(type)));
	run.count("index limits checked");

	// A buffer of n indices that ends (or begins) where the accessible memory does.
	std::size_t n = 1 + r.below(size ? guard.page/size : 64), bytes = n*size;
	unsigned char* p = r.chance(0.5) ? guard.end() - (bytes ? bytes : 8) : guard.begin();
	for (std::size_t i = 0; i < guard.page; ++i)
		guard.begin()[i] = static_cast<unsigned char>(r.next());
	std::vector<unsigned char> model(guard.begin(), guard.end());
	std::size_t off = static_cast<std::size_t>(p - guard.begin());
	std::uint32_t def = r.chance(0.3) ? 0 : static_cast<std::uint32_t>(r.next());
	for (int k = 0; k < 40; ++k)
	{
		std::size_t i = r.chance(0.2) ? n - 1 : r.chance(0.2) ? 0 : r.below(n);
		std::uint32_t value = static_cast<std::uint32_t>(interesting(r, 32, ref::ElementType::UInt));
		if (r.chance(0.3))
			value = static_cast<std::uint32_t>(0xFFFF + r.range(-2, 2));
		if (r.chance(0.1))
		{
			// No data.
			bool set = vfc::setIndexValue(type, nullptr, i, value);
			std::uint32_t got = vfc::getIndexValue(type, nullptr, i, def), plain = vfc::getIndexValue(type, nullptr, i);
			if (set || got != def || plain != 0xFFFFFFFFU)
				fail("index-null", what + fmt(": without data, setIndexValue returns %d, getIndexValue %u (default %u) and %u", set, got, def, plain));
			run.count("index calls without data");
			continue;
		}
		bool write = r.chance(0.5);
		if (write)
		{
			bool ok = vfc::setIndexValue(type, p, i, value);
			if (ok != (size != 0))
				fail("index-write", what + fmt(": setIndexValue returns %d", ok));
			for (std::size_t b = 0; b < size; ++b)
				model[off + i*size + b] = static_cast<unsigned char>(value >> 8*b);
		}
		std::uint32_t expected = def;
		if (size)
		{
			expected = 0;
			for (std::size_t b = 0; b < size; ++b)
				expected |= static_cast<std::uint32_t>(model[off + i*size + b]) << 8*b;
		}
		std::uint32_t got = vfc::getIndexValue(type, p, i, def);
		std::uint32_t plain = vfc::getIndexValue(type, p, i);
		if (got != expected || plain != (size ? expected : 0xFFFFFFFFU))
			fail("index-read", what + fmt(": getIndexValue of index %zu is %u and %u, not %u", i, got, plain, expected));
		run.count(size ? (write ? "indices written and read" : "indices read") : "index calls without a type");
	}
	if (memcmp(model.data(), guard.begin(), guard.page) != 0)
		fail("index-bytes", what + ": bytes other than those of the indices set were changed");
}

// Positions of billions: a mapping of which only the pages used take memory.
void checkFarIndices(Rng& r)
{
	static unsigned char* base = nullptr;
	const std::uint64_t last = (std::uint64_t(1) << 32) + 64, bytes = last*4;
	if (!base)
	{
		void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED)
			fail("setup", "no address space for 17 GB");
		base = static_cast<unsigned char*>(p);
	}
	bool wide = r.chance(0.5);
	vfc::IndexType type = wide ? vfc::IndexType::UInt32 : vfc::IndexType::UInt16;
	std::size_t size = wide ? 4 : 2;
	const int shifts[] = {32, 32, 31, 30, 29, 16, 15};
	std::map<std::uint64_t, std::uint32_t> written;
	memset(base, 0, 4096);
	for (int k = 0; k < 12; ++k)
	{
		std::uint64_t i = (std::uint64_t(1) << shifts[r.below(7)]) + r.below(24) - (r.chance(0.4) ? 24 : 0);
		if (r.chance(0.2))
			i = r.below(24);
		std::uint32_t value = static_cast<std::uint32_t>(1 + r.below(wide ? 0xFFFFFFFFU : 0xFFFFU));
		if (!vfc::setIndexValue(type, base, i, value))
			fail("index-write", fmt("setIndexValue refuses index %llu", static_cast<unsigned long long>(i)));
		written[i] = value;
		for (auto& w : written)
		{
			std::uint32_t raw = 0;
			for (std::size_t b = 0; b < size; ++b)
				raw |= static_cast<std::uint32_t>(base[w.first*size + b]) << 8*b;
			std::uint32_t got = vfc::getIndexValue(type, base, w.first), def = vfc::getIndexValue(type, base, w.first, 5);
			if (raw != w.second || got != w.second || def != w.second)
				fail("index-far", fmt("index %llu was set to %u: %u is stored, %u and %u are read", static_cast<unsigned long long>(w.first), w.second, raw, got, def));
			run.count("far indices read");
		}
	}
}

void checkValueHelpers(Rng& r)
{
	// Missing components are (0, 0, 0, 1).
	double v[4];
	for (double& d : v)
		d = anyDouble(r);
	int given = r.range(0, 4);
	VertexValue value = given == 0 ? VertexValue() : given == 1 ? VertexValue(v[0]) : given == 2 ? VertexValue(v[0], v[1]) :
		given == 3 ? VertexValue(v[0], v[1], v[2]) : VertexValue(v[0], v[1], v[2], v[3]);
	const double defaults[4] = {0, 0, 0, 1};
	for (int i = given; i < 4; ++i)
		v[i] = defaults[i];
	const VertexValue& view = value;
	for (unsigned i = 0; i < 4; ++i)
	{
		if (!sameBits(view[i], v[i]) || !sameBits(value[i], v[i]))
			fail("value-components", fmt("component %u of a value made from %d components is %a, not %a", i, given, view[i], v[i]));
	}
	run.count("values constructed");

	// Equality is that of the numbers, component by component.
	VertexValue other = value;
	bool equal = true;
	for (unsigned i = 0; i < 4; ++i)
	{
		double d = v[i];
		if (r.chance(0.15))
			d = r.chance(0.3) ? -d : r.chance(0.5) ? std::nextafter(d, 1e300) : anyDouble(r);
		other[i] = d;
		if (!sameBits(view[i], v[i]))
			fail("value-copy", "changing a copy changes the value");
		equal = equal && v[i] == d;
	}
	if ((value == other) != equal || (value != other) == equal || (other == value) != equal)
		fail("value-equality", fmt("(%a, %a, %a, %a) and (%a, %a, %a, %a) compare wrongly", v[0], v[1], v[2], v[3], other[0], other[1], other[2], other[3]));
	run.count(equal ? "equal values compared" : "different values compared");

	// Bounds over a few values: the least and greatest of each component, NaN aside.
	VertexValue lo = VertexValue::initialBoundsMin, hi = VertexValue::initialBoundsMax;
	int count = r.range(0, 6);
	double least[4], greatest[4];
	bool any[4] = {false, false, false, false};
	for (unsigned i = 0; i < 4; ++i)
	{
		if (!(lo[i] > hi[i]))
			fail("bounds-initial", "the initial bounds hold something");
		least[i] = lo[i];
		greatest[i] = hi[i];
	}
	std::string given2;
	for (int k = 0; k < count; ++k)
	{
		VertexValue w(anyDouble(r), anyDouble(r), anyDouble(r), anyDouble(r));
		given2 += fmt(" (%a, %a, %a, %a)", w[0], w[1], w[2], w[3]);
		VertexValue copy = w;
		w.expandBounds(lo, hi);
		for (unsigned i = 0; i < 4; ++i)
		{
			if (!sameBits(w[i], copy[i]))
				fail("bounds-value", "expandBounds changed the value");
			// Infinities: nothing here says what initial bounds do with nothing else (listed for C06).
			if (std::isnan(w[i]))
				continue;
			least[i] = any[i] ? std::min(least[i], w[i]) : w[i];
			greatest[i] = any[i] ? std::max(greatest[i], w[i]) : w[i];
			any[i] = true;
		}
		for (unsigned i = 0; i < 4; ++i)
		{
			bool finite = std::isfinite(least[i]) && std::isfinite(greatest[i]);
			if (any[i] && !finite)
				continue;
			if (lo[i] != least[i] || hi[i] != greatest[i])
				fail("bounds-expanded", fmt("component %u: [%a, %a] instead of [%a, %a] after", i, lo[i], hi[i], least[i], greatest[i]) + given2);
			run.count("bounds compared");
		}
	}
}

void checkIgnoredBounds(const ref::Format& f, Rng& r)
{
	const ref::Layout& l = ref::info(f.layout);
	std::size_t size = static_cast<std::size_t>(l.size);
	Blocks one(size), two(size);
	bool norm = f.type == ref::ElementType::UNorm || f.type == ref::ElementType::SNorm;
	for (int k = 0; k < 60; ++k)
	{
		VertexValue v(interestingValue(r, f, 0), interestingValue(r, f, l.count > 1 ? 1 : 0), interestingValue(r, f, l.count > 2 ? 2 : 0),
				interestingValue(r, f, l.count > 3 ? 3 : 0)), lo(anyDouble(r), anyDouble(r), anyDouble(r), anyDouble(r)),
			hi(anyDouble(r), anyDouble(r), anyDouble(r), anyDouble(r));
		if (norm)
		{
			// The bounds of the type itself change nothing for unsigned values, but for rounding of the signed ones.
			if (f.type == ref::ElementType::SNorm)
				return;
			lo = VertexValue(0, 0, 0, 0);
			hi = VertexValue(1, 1, 1, 1);
			for (unsigned i = 0; i < 4; ++i)
			{
				if (std::isnan(v[i]))
					v[i] = r.unit();
			}
		}
		unsigned char* a = one.at(r.below(8));
		unsigned char* b = two.at(r.below(8));
		memset(a, k & 1 ? 0xA5 : 0, size);
		memset(b, k & 1 ? 0xA5 : 0, size);
		const VertexValue before = v;
		if (!v.toData(a, f.layout, f.type) || !v.toData(b, f.layout, f.type, lo, hi))
			fail("ignored-bounds", ref::name(f) + ": refused");
		if (memcmp(a, b, size) != 0)
		{
			fail("ignored-bounds", ref::name(f) + fmt(": (%a, %a, %a, %a) is stored as ", v[0], v[1], v[2], v[3]) + hex(a, size) +
				" without bounds and as " + hex(b, size) + (norm ? " with bounds of 0 and 1" : " with bounds"));
		}
		for (unsigned i = 0; i < 4; ++i)
		{
			if (!sameBits(v[i], before[i]))
				fail("value-changed", ref::name(f) + ": toData changed the value");
		}
		run.count(norm ? "unit bounds compared" : "ignored bounds compared");
	}
}

void checkHelpers(std::uint64_t i, Rng& r)
{
	run.describe = [=] { return fmt("helpers, case %llu", static_cast<unsigned long long>(i)); };
	for (int k = 0; k < 4; ++k)
		checkIndexHelpers(r);
	checkFarIndices(r);
	for (int k = 0; k < 60; ++k)
		checkValueHelpers(r);
	checkIgnoredBounds(ref::formats()[i % ref::formats().size()], r);
}

void body(std::uint64_t i)
{
	std::uint64_t salt = static_cast<std::uint64_t>(atoi(run.check.c_str() + 1));
	Rng r = mon::caseRng(run.seed, salt, i);
	run.note(run.check);
	if (run.check == "C11")
	{
		// -1 .. 22 x -1 .. 6, over and over.
		int layout = static_cast<int>(i % 24) - 1, type = static_cast<int>(i/24 % 8) - 1;
		if (i >= 192 && i % 31 == 0)
			layout = r.range(-128, 127);
		run.describe = [=] { return fmt("layout %d type %d", layout, type); };
		checkExtent(layout, type, r);
		run.nontrivial(mon::caseRng(5, static_cast<std::uint64_t>(layout + 200), static_cast<std::uint64_t>(type + 200)).next() ^ (i/192)*77777);
		return;
	}
	if (run.check == "C28")
	{
		checkHelpers(i, r);
		run.nontrivial((i + 1)*0x9e3779b97f4a7c15ULL);
		return;
	}
	const auto& fs = ref::formats();
	const ref::Format f = fs[i % fs.size()];
	std::uint64_t chunk = i/fs.size();
	run.describe = [=] { return fmt("%s chunk %llu", ref::name(f).c_str(), static_cast<unsigned long long>(chunk)); };
	if (run.check == "C08")
		checkDecode(f, chunk, r);
	else if (run.check == "C09")
		checkEncode(f, r);
	else if (run.check == "C10")
		checkRoundTrip(f, chunk, r);
	else
		fail("setup", "unknown check");
	run.count("formats visited " + ref::name(f));
	run.nontrivial((i + 1)*0x9e3779b97f4a7c15ULL);
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	return run.loop(body);
}
