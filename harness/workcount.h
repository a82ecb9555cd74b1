// Counting the work done by the code under test: basic blocks entered (the code is compiled with
// -fsanitize-coverage=trace-pc), bytes moved, compared or cleared by the C library, and heap memory.
#pragma once
#include <cstddef>
#include <cstdint>

struct WorkCount
{
	std::uint64_t blocks, bytes, allocations, live, peak;
};
extern "C"
{
extern WorkCount workCount;
extern int workCounting;
}
inline void workStart()
{
	workCount = WorkCount{};
	workCounting = 1;
}
inline WorkCount workStop()
{
	workCounting = 0;
	return workCount;
}
