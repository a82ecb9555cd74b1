// Monitor of calls that end in an exception: C29. Allocations are made to fail, one after the other, and error functions to
// throw; the objects are compared with ones nothing happened to.
#include "mesh.h"
#include <new>
#include <tuple>

using namespace mesh;
using mon::fail;
using mon::fmt;

static mon::Run run;

// ---- memory that runs out --------------------------------------------------------------------

static bool armed = false;
static bool sticky = false;      // from that one on
static std::uint64_t countdown = 0, allocations = 0, failures = 0;
static std::int64_t live = 0;

static void* allocate(std::size_t n)
{
	++allocations;
	if (armed)
	{
		if (countdown == 0)
		{
			++failures;
			if (!sticky)
				armed = false;
			return nullptr;
		}
		--countdown;
	}
	void* p = std::malloc(n ? n : 1);
	if (p)
		++live;
	return p;
}

void* operator new(std::size_t n)
{
	void* p = allocate(n);
	if (!p)
		throw std::bad_alloc();
	return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void* p) noexcept
{
	if (p)
		--live;
	std::free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

namespace
{

struct Interrupted {};

// What an error function saw, and when it throws.
struct Errors
{
	std::vector<std::string> messages;
	std::int64_t throwAt = -1;
	std::uint64_t thrown = 0;
};

void errorFunction(Errors& e, const char* m)
{
	if (e.throwAt == 0)
	{
		e.throwAt = -1;
		++e.thrown;
		throw Interrupted();
	}
	if (e.throwAt > 0)
		--e.throwAt;
	bool wasArmed = armed;
	armed = false;
	e.messages.push_back(m ? m : "(null)");
	armed = wasArmed;
}

// Which faults to try for a call with n points where one can happen.
std::vector<std::uint64_t> points(std::uint64_t n, Rng& r)
{
	std::vector<std::uint64_t> p;
	if (n <= 40)
	{
		for (std::uint64_t i = 0; i < n; ++i)
			p.push_back(i);
	}
	else
	{
		for (std::uint64_t i = 0; i < 12; ++i)
			p.push_back(i);
		for (int i = 0; i < 16; ++i)
			p.push_back(r.below(n));
		for (std::uint64_t i = 1; i <= 8; ++i)
			p.push_back(n - i);
	}
	if (r.chance(0.5))
		r.shuffle(p);
	return p;
}

// Calls f with the k-th allocation failing. Returns whether it ended in an exception.
template <typename F> bool withoutMemory(std::uint64_t k, bool stick, const std::string& what, const F& f)
{
	std::uint64_t before = failures;
	bool threw = false, other = false;
	countdown = k;
	sticky = stick;
	armed = true;
	try
	{
		f();
	}
	catch (const std::bad_alloc&)
	{
		threw = true;
	}
	catch (...)
	{
		other = true;
	}
	armed = false;
	if (other)
		fail("other-exception", what + " throws something else when an allocation fails");
	if (threw && failures == before)
		fail("spurious", what + " throws std::bad_alloc when no allocation failed");
	if (failures != before)
		run.count("allocations made to fail");
	if (threw)
		run.count("calls of " + what + " ended by an exception");
	else if (failures != before)
		run.count("failed allocations absorbed");
	return threw;
}

template <typename F> std::uint64_t counted(const F& f)
{
	std::uint64_t before = allocations;
	f();
	return allocations - before;
}

// ---- vertex formats --------------------------------------------------------------------------

void same(const VertexFormat& a, const VertexFormat& b, const std::string& what)
{
	bool ok = a == b && a.size() == b.size() && a.stride() == b.stride();
	for (std::size_t i = 0; ok && i < a.size(); ++i)
	{
		ok = a[i].name == b[i].name && a[i].layout == b[i].layout && a[i].type == b[i].type && a[i].offset == b[i].offset &&
			a.find(b[i].name) == a.begin() + static_cast<std::ptrdiff_t>(i);
	}
	if (!ok)
	{
		std::string s = what + ": the format has";
		for (auto& e : a)
			s += fmt(" %s@%u", e.name.c_str(), e.offset);
		s += fmt(" (stride %u) rather than", a.stride());
		for (auto& e : b)
			s += fmt(" %s@%u", e.name.c_str(), e.offset);
		fail("format-changed", s + fmt(" (stride %u)", b.stride()));
	}
	run.count("formats compared");
}

std::string longName(Rng& r)
{
	std::string s = randomName(r, static_cast<int>(r.below(6)));
	return r.chance(0.7) ? s + " that is too long for the string itself" : s;
}

void checkFormats(Rng& r)
{
	constexpr std::size_t slots = 3;
	VertexFormat good[slots], bad[slots];
	int steps = r.range(4, 25);
	mon::Fnv sig;
	for (int k = 0; k < steps; ++k)
	{
		std::size_t i = r.below(slots), j = r.below(slots);
		int op = r.range(0, 6);
		sig.val(op);
		bool stick = r.chance(0.4);
		auto sweep = [&](const char* what, const std::function<void(VertexFormat*)>& f)
		{
			VertexFormat scratch[slots] = {good[0], good[1], good[2]};
			std::uint64_t n = counted([&] { f(scratch); });
			for (std::uint64_t p : points(n + 1, r))
			{
				if (!withoutMemory(p, stick, what, [&] { f(bad); }))
				{
					// It went through: as if nothing had happened. Back to before.
					for (std::size_t s = 0; s < slots; ++s)
					{
						same(bad[s], scratch[s], what);
						bad[s] = good[s];
					}
					continue;
				}
				for (std::size_t s = 0; s < slots; ++s)
					same(bad[s], good[s], std::string(what) + " without memory");
			}
			f(good);
			f(bad);
		};
		if (op <= 3)
		{
			std::string name = longName(r);
			auto& x = ref::formats()[r.below(ref::formats().size())];
			bool wrong = r.chance(0.1);
			sweep("appendElement", [&](VertexFormat* f) { f[i].appendElement(name, wrong ? ref::ElementLayout::Invalid : x.layout, x.type); });
		}
		else if (op == 4)
			sweep("format assignment", [&](VertexFormat* f) { f[i] = f[j]; });
		else if (op == 5)
			sweep("format copy", [&](VertexFormat* f) { VertexFormat copy(f[j]); f[i] = std::move(copy); });
		else
		{
			good[i].clear();
			bad[i].clear();
		}
		for (std::size_t s = 0; s < slots; ++s)
			same(bad[s], good[s], "afterwards");
	}
	run.nontrivial(sig.h ^ r.next());
}

// ---- converters ------------------------------------------------------------------------------

struct World
{
	std::unique_ptr<Converter> conv;
	std::shared_ptr<Errors> errors = std::make_shared<Errors>();
};

bool sameBounds(const VertexValue& a, const VertexValue& b)
{
	for (unsigned i = 0; i < 4; ++i)
	{
		double x = a[i], y = b[i];
		if (memcmp(&x, &y, 8) != 0)
			return false;
	}
	return true;
}

void sameConverter(const Converter& a, const Converter& b, bool converted, const std::string& what)
{
	if (a.isValid() != b.isValid() || a.getIndexType() != b.getIndexType() || a.getPrimitiveType() != b.getPrimitiveType() ||
		a.getPatchPoints() != b.getPatchPoints() || a.getMaxIndexValue() != b.getMaxIndexValue())
		fail("configuration-changed", what + ": the configuration of the converter changed");
	if (a.getVertexFormat() != b.getVertexFormat())
		fail("configuration-changed", what + ": the output formats changed");
	for (std::size_t i = 0; i < b.getVertexFormat().size(); ++i)
	{
		for (std::size_t j = 0; j < b.getVertexFormat()[i].size(); ++j)
		{
			if (a.getElementTransform(i, j) != b.getElementTransform(i, j))
				fail("transform-changed", what + ": a transform changed");
			if (!converted)
				continue;
			VertexValue v[4];
			a.getVertexElementBounds(v[0], v[1], i, j);
			b.getVertexElementBounds(v[2], v[3], i, j);
			if (!sameBounds(v[0], v[2]) || !sameBounds(v[1], v[3]))
				fail("result-differs", what + ": other bounds");
		}
	}
	if (!converted)
	{
		if (a.getIndices().size() || a.getVertexCount() != 0)
			fail("partial-result", what + fmt(": %zu index buffers and %u vertices without a conversion", a.getIndices().size(), a.getVertexCount()));
		for (auto& v : a.getVertices())
		{
			if (!v.empty())
				fail("partial-result", what + ": vertex data without a conversion");
		}
		run.count("unconverted states compared");
		return;
	}
	if (a.getVertices() != b.getVertices() || a.getVertexCount() != b.getVertexCount())
		fail("result-differs", what + ": other vertices");
	if (a.getIndices().size() != b.getIndices().size())
		fail("result-differs", what + ": another number of index buffers");
	for (std::size_t i = 0; i < b.getIndices().size(); ++i)
	{
		auto &x = a.getIndices()[i], &y = b.getIndices()[i];
		std::size_t n = static_cast<std::size_t>(y.count)*(y.type == IndexType::UInt16 ? 2 : 4);
		if (x.type != y.type || x.count != y.count || x.baseVertex != y.baseVertex || (n && memcmp(x.data, y.data, n) != 0))
			fail("result-differs", what + ": other indices");
	}
	run.count("results compared");
}

// One call on a world without faults, then on one with a fault at every point, then once more without.
void step(World& good, World& bad, const std::string& what, Rng& r, bool& converted, const std::function<int(World&)>& call)
{
	bool wasConverted = converted;
	// The number of messages and allocations, and the outcome, of the undisturbed call; there's no copying a converter, so
	// what's compared with after a fault is what was seen before.
	std::size_t firstMessage = good.errors->messages.size();
	struct Before
	{
		bool valid;
		std::vector<VertexFormat> formats;
	};
	bool exists = good.conv != nullptr;
	Before before{exists && good.conv->isValid(), exists ? good.conv->getVertexFormat() : std::vector<VertexFormat>()};
	std::vector<std::vector<Transform>> transforms;
	if (exists && before.valid)
	{
		for (std::size_t i = 0; i < before.formats.size(); ++i)
		{
			transforms.emplace_back();
			for (std::size_t j = 0; j < before.formats[i].size(); ++j)
				transforms.back().push_back(good.conv->getElementTransform(i, j));
		}
	}
	int expected = 0;
	std::uint64_t n = counted([&] { expected = call(good); });
	std::vector<std::string> said(good.errors->messages.begin() + static_cast<std::ptrdiff_t>(firstMessage), good.errors->messages.end());
	bool nowConverted = converted;

	auto untouched = [&](const std::string& how)
	{
		std::string w = what + how;
		if (!exists)
		{
			if (bad.conv)
				fail("constructed", w + ": a converter anyway");
			return;
		}
		if (bad.conv->isValid() != before.valid || bad.conv->getVertexFormat() != before.formats)
			fail("configuration-changed", w + ": the converter changed");
		for (std::size_t i = 0; i < transforms.size(); ++i)
		{
			for (std::size_t j = 0; j < transforms[i].size(); ++j)
			{
				if (bad.conv->getElementTransform(i, j) != transforms[i][j])
					fail("transform-changed", w + ": a transform changed");
			}
		}
		sameConverter(*bad.conv, wasConverted ? *good.conv : *bad.conv, wasConverted, w);
	};

	bool done = false;
	int got = 0;
	std::vector<std::pair<bool, std::uint64_t>> faults; // throw?, where
	for (std::uint64_t p : points(n, r))
		faults.emplace_back(false, p);
	for (std::uint64_t p : points(said.size(), r))
		faults.emplace_back(true, p);
	if (r.chance(0.3))
		std::reverse(faults.begin(), faults.end());
	for (auto& f : faults)
	{
		bad.errors->messages.clear();
		bool threw;
		if (f.first)
		{
			threw = false;
			bad.errors->throwAt = static_cast<std::int64_t>(f.second);
			try
			{
				got = call(bad);
			}
			catch (const Interrupted&)
			{
				threw = true;
				run.count("calls of " + what + " ended by the error function");
			}
			catch (...)
			{
				fail("other-exception", what + " turns the exception of the error function into another");
			}
			bad.errors->throwAt = -1;
		}
		else
			threw = withoutMemory(f.second, r.chance(0.4), what, [&] { got = call(bad); });
		if (threw)
		{
			converted = wasConverted;
			untouched(f.first ? " when the error function throws" : " without memory");
			continue;
		}
		// It went through (fewer points than before, or the fault was dealt with).
		done = true;
		break;
	}
	if (!done)
	{
		bad.errors->messages.clear();
		got = call(bad);
	}
	converted = nowConverted;
	if (got != expected)
		fail("outcome-differs", what + fmt(" returns %d when repeated, and %d when nothing failed before", got, expected));
	if (bad.errors->messages != said)
	{
		fail("messages-differ", what + fmt(" reports %zu errors when repeated (%s), and %zu when nothing failed before (%s)", bad.errors->messages.size(),
			bad.errors->messages.empty() ? "" : bad.errors->messages[0].c_str(), said.size(), said.empty() ? "" : said[0].c_str()));
	}
	if (good.conv)
		sameConverter(*bad.conv, *good.conv, converted, what + " repeated");
	run.count("calls repeated after failures: " + what);
}

void checkConverter(const Case& c, Rng r, mon::Fnv* sig)
{
	World good, bad;
	bool converted = false;
	std::vector<VertexFormat> outs, ins;
	for (auto& o : c.outs)
		outs.push_back(makeFormat(o));
	for (auto& s : c.ins)
		ins.push_back(makeFormat(s.elems));
	bool broken = r.chance(0.12); // an invalid converter, which reports an error on construction
	step(good, bad, "construction", r, converted, [&](World& w)
	{
		Errors* e = w.errors.get();
		Converter::ErrorFunction ef = [e](const char* m) { errorFunction(*e, m); };
		w.conv.reset();
		std::vector<VertexFormat> f = outs;
		if (broken)
			f.emplace_back();
		if (f.size() == 1 && c.ctorVariant == 0)
			w.conv.reset(new Converter(f[0], c.outIndex, c.prim, c.patch, c.maxIndex, ef));
		else
			w.conv.reset(new Converter(std::move(f), c.outIndex, c.prim, c.patch, c.maxIndex, ef));
		return w.conv->isValid() ? 1 : 0;
	});
	bool early = r.chance(0.3);
	auto tryConvert = [&](const char* what)
	{
		step(good, bad, what, r, converted, [&](World& w)
		{
			bool ok = w.conv->convert();
			if (ok)
				converted = true;
			return ok ? 1 : 0;
		});
	};
	auto add = [&](std::size_t i, const char* what, std::uint32_t vertexCount)
	{
		const InStream& s = c.ins[i];
		step(good, bad, what, r, converted, [&](World& w)
		{
			if (s.indexType == IndexType::NoIndices)
				return w.conv->addVertexStream(ins[i], s.dataBlock.data(), vertexCount) ? 1 : 0;
			return w.conv->addVertexStream(ins[i], s.dataBlock.data(), vertexCount, s.indexType, s.indexBlock.data(), c.count) ? 1 : 0;
		});
	};
	auto transforms = [&]
	{
		for (auto& o : c.outs)
		{
			for (auto& e : o)
			{
				step(good, bad, "setElementTransform", r, converted, [&](World& w) { return w.conv->setElementTransform(e.name, e.transform) ? 1 : 0; });
			}
		}
	};
	if (c.transformsFirst)
		transforms();
	bool outOfRange = r.chance(0.1);
	for (std::size_t i : c.addOrder)
	{
		if (early && r.chance(0.5))
			tryConvert("convert (too early)");
		bool cut = outOfRange && c.ins[i].indexType != IndexType::NoIndices && c.ins[i].vertexCount > 1;
		add(i, "addVertexStream", cut ? c.ins[i].vertexCount - 1 : c.ins[i].vertexCount);
		if (r.chance(0.15))
			add(i, "addVertexStream (again)", c.ins[i].vertexCount);
	}
	if (!c.transformsFirst)
		transforms();
	if (r.chance(0.05))
		return; // destroyed before converting
	tryConvert("convert");
	if (r.chance(0.4))
		tryConvert("convert (again)");
	if (sig)
		sig->val(converted);
	run.count(converted ? "meshes converted" : "meshes refused");
	// After all that: moving works, and keeps the result.
	if (converted && r.chance(0.3))
	{
		Converter moved(std::move(*bad.conv));
		sameConverter(moved, *good.conv, true, "a move");
	}
}

void body(std::uint64_t i)
{
	Rng r = mon::caseRng(run.seed, 29, i);
	if (i % 4 == 0)
	{
		run.note("formats");
		run.describe = [i] { return fmt("formats, case %" PRIu64, i); };
		checkFormats(r);
		return;
	}
	Profile p;
	p.maxCount = i % 16 == 5 ? 300 : 36;
	p.wideChance = 0.02;
	auto c = std::make_shared<Case>(generate(r, p, i));
	// Names too long for short strings, so that copying them needs memory.
	if (r.chance(0.6))
	{
		for (auto& o : c->outs)
		{
			for (auto& e : o)
				e.name += " that is too long for the string itself";
		}
		for (auto& s : c->ins)
		{
			for (auto& e : s.elems)
				e.name += " that is too long for the string itself";
		}
	}
	run.describe = [c] { return describe(*c); };
	run.note("converter");
	mon::Fnv sig;
	sig.val(signature(*c));
	Rng again = r;
	{
		std::int64_t before = live;
		checkConverter(*c, again, &sig);
		std::int64_t first = live - before;
		if (first > 0)
		{
			// Something stayed. Tables that are made once don't grow any further.
			before = live;
			checkConverter(*c, again, nullptr);
			std::int64_t second = live - before;
			before = live;
			checkConverter(*c, again, nullptr);
			std::int64_t third = live - before;
			if (second > 0 && third > 0)
				fail("leak", fmt("%" PRId64 " blocks of memory are never freed, and as many more every time", third));
		}
		run.count("leak balances");
	}
	run.nontrivial(sig.h);
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	return run.loop(body);
}
