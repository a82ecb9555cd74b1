// Monitor of concurrent use: C18. Built with ThreadSanitizer, which judges the accesses; the results are compared
// with those of running alone.
#include "mesh.h"
#include <atomic>
#include <sched.h>
#include <thread>
#include <time.h>

using namespace mesh;
using mon::fail;

static mon::Run run;

namespace
{

std::uint64_t digest(const Conversion& k)
{
	mon::Fnv h;
	h.val(k.res.added);
	h.val(k.res.ok);
	for (auto& v : k.res.verts)
		h.bytes(v.data(), v.size());
	for (auto& b : k.res.bufs)
	{
		h.val(b.base);
		h.bytes(b.idx.data(), b.idx.size()*4);
	}
	for (auto& s : k.res.bounds)
	{
		for (auto& e : s)
		{
			for (unsigned m = 0; m < 4; ++m)
			{
				h.val(e.first[m]);
				h.val(e.second[m]);
			}
		}
	}
	for (auto& e : k.res.errors)
		h.str(e);
	return h.h;
}

struct Barrier
{
	std::atomic<int> waiting{0};
	int n;
	explicit Barrier(int c) : n(c) {}
	void wait()
	{
		++waiting;
		while (waiting.load() < n)
			sched_yield();
	}
};

void jitter(Rng& r)
{
	switch (r.below(4))
	{
		case 0: sched_yield(); break;
		case 1:
		{
			timespec t{0, static_cast<long>(r.below(30000))};
			nanosleep(&t, nullptr);
			break;
		}
		default: break;
	}
}

// Uses of formats, names and values that share only constant data.
std::uint64_t utilities(Rng r, const vfc::VertexFormat& shared, const std::vector<unsigned char>& bytes)
{
	mon::Fnv h;
	for (int k = 0; k < 30; ++k)
	{
		auto& f = ref::formats()[r.below(ref::formats().size())];
		VertexValue v;
		h.val(v.fromData(bytes.data() + r.below(32), f.layout, f.type));
		unsigned char out[64] = {};
		h.val(v.toData(out, f.layout, f.type));
		h.bytes(out, sizeof(out));
		h.val(vfc::elementLayoutFromName(ref::info(f.layout).color));
		h.val(vfc::elementTypeFromName(ref::typeName(f.type)));
		h.val(vfc::primitiveTypeFromName("trianglestrip"));
		h.str(vfc::elementLayoutName(f.layout, r.chance(0.5)));
		h.val(shared.find("b") != shared.end());
		h.val(shared.containsElements(shared));
		vfc::VertexFormat copy(shared);
		copy.appendElement("z", f.layout, f.type);
		h.val(copy.stride());
		h.val(vfc::isElementValid(f.layout, f.type));
		h.val(vfc::isVertexCountValid(vfc::PrimitiveType::PatchList, 12, 3));
	}
	return h.h;
}

void body(std::uint64_t i)
{
	Profile p;
	p.maxCount = 30;
	p.wideChance = 0.02;
	Rng r = mon::caseRng(run.seed, 18, i);
	const int threads = 4;
	const int jobs = 6;
	std::vector<std::shared_ptr<Case>> cases;
	for (int k = 0; k < 3; ++k)
	{
		auto c = std::make_shared<Case>(generate(r, p, 0));
		if (k == 2 && r.chance(0.6) && c->count)
		{
			// One that fails, so that errors are reported concurrently.
			for (auto& s : c->ins)
			{
				if (s.used && s.indexType != IndexType::NoIndices)
				{
					s.indices[r.below(c->count)] = s.vertexCount + 5;
					s.finishIndices();
					break;
				}
			}
		}
		cases.push_back(c);
	}
	run.describe = [cases] { return describe(*cases[0]) + "\n" + describe(*cases[1]) + "\n" + describe(*cases[2]); };
	vfc::VertexFormat shared;
	shared.appendElement("a", vfc::ElementLayout::X32, vfc::ElementType::Float);
	shared.appendElement("b", vfc::ElementLayout::X8Y8, vfc::ElementType::UNorm);
	std::vector<unsigned char> bytes(96);
	for (auto& b : bytes)
		b = static_cast<unsigned char>(r.next());
	std::uint64_t seed = r.next();

	struct Out
	{
		std::vector<std::uint64_t> conv;
		std::uint64_t util = 0;
		std::vector<std::pair<std::uint64_t, std::uint64_t>> spans;
		std::string failure;
	};
	std::vector<Out> out(threads);
	std::atomic<std::uint64_t> clock{0};
	Barrier barrier(threads);
	std::vector<std::thread> pool;
	// The concurrent run comes first, so that whatever is initialised on first use is initialised concurrently.
	for (int t = 0; t < threads; ++t)
	{
		pool.emplace_back([&, t]
		{
			Rng own(seed + static_cast<std::uint64_t>(t));
			barrier.wait();
			try
			{
				for (int k = 0; k < jobs; ++k)
				{
					jitter(own);
					std::uint64_t a = clock.fetch_add(1, std::memory_order_relaxed);
					out[static_cast<std::size_t>(t)].conv.push_back(digest(convert(*cases[static_cast<std::size_t>((k + t) % 3)])));
					out[static_cast<std::size_t>(t)].spans.emplace_back(a, clock.fetch_add(1, std::memory_order_relaxed));
				}
				out[static_cast<std::size_t>(t)].util = utilities(Rng(seed + 100 + static_cast<std::uint64_t>(t)), shared, bytes);
			}
			catch (const mon::Violation& v)
			{
				out[static_cast<std::size_t>(t)].failure = v.message;
			}
		});
	}
	for (auto& t : pool)
		t.join();
	std::uint64_t overlaps = 0;
	mon::Fnv order;
	for (int t = 0; t < threads; ++t)
	{
		for (auto& s : out[static_cast<std::size_t>(t)].spans)
		{
			order.val(s);
			if (s.second > s.first + 1)
				++overlaps;
		}
	}
	run.count("concurrent conversions", threads*jobs);
	run.count("conversions that overlapped another one", overlaps);
	for (auto& o : out)
	{
		if (!o.failure.empty())
			fail("concurrent", o.failure);
	}
	std::uint64_t alone[3];
	for (int k = 0; k < 3; ++k)
		alone[k] = digest(convert(*cases[static_cast<std::size_t>(k)]));
	for (int t = 0; t < threads; ++t)
	{
		for (int k = 0; k < jobs; ++k)
		{
			if (out[static_cast<std::size_t>(t)].conv[static_cast<std::size_t>(k)] != alone[(k + t) % 3])
				fail("concurrent", fmt("thread %d got another result than a conversion that runs alone", t));
		}
		if (out[static_cast<std::size_t>(t)].util != utilities(Rng(seed + 100 + static_cast<std::uint64_t>(t)), shared, bytes))
			fail("concurrent", fmt("thread %d got other values than when running alone", t));
	}
	run.nontrivial(order.h);
}

} // namespace

int main(int argc, char** argv)
{
	if (!run.args(argc, argv))
		return 64;
	return run.loop(body);
}
