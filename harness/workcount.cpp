// See workcount.h. Replaces the C library's memory functions, so nothing here may be turned into calls of them.
#pragma GCC optimize("no-tree-loop-distribute-patterns", "no-sanitize-coverage")
#include "workcount.h"
#include <cstddef>
#include <malloc.h>

#define PLAIN __attribute__((no_sanitize_coverage, visibility("default"), noinline))

extern "C"
{
WorkCount workCount;
int workCounting;

PLAIN void __sanitizer_cov_trace_pc()
{
	if (workCounting)
		++workCount.blocks;
}

PLAIN void* memcpy(void* __restrict d, const void* __restrict s, std::size_t n)
{
	if (workCounting)
		workCount.bytes += n;
	void* r = d;
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
	return r;
}

PLAIN void* memmove(void* d, const void* s, std::size_t n)
{
	if (workCounting)
		workCount.bytes += n;
	if (static_cast<unsigned char*>(d) - static_cast<const unsigned char*>(s) >= static_cast<std::ptrdiff_t>(n) || d <= s)
	{
		void* r = d;
		__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
		return r;
	}
	auto a = static_cast<unsigned char*>(d);
	auto b = static_cast<const unsigned char*>(s);
	while (n--)
		a[n] = b[n];
	return d;
}

PLAIN void* memset(void* d, int v, std::size_t n)
{
	if (workCounting)
		workCount.bytes += n;
	void* r = d;
	__asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
	return r;
}

PLAIN int memcmp(const void* x, const void* y, std::size_t n)
{
	auto a = static_cast<const unsigned char*>(x);
	auto b = static_cast<const unsigned char*>(y);
	for (std::size_t i = 0; i < n; ++i)
	{
		if (a[i] != b[i])
		{
			if (workCounting)
				workCount.bytes += i;
			return a[i] < b[i] ? -1 : 1;
		}
	}
	if (workCounting)
		workCount.bytes += n;
	return 0;
}

PLAIN std::size_t strlen(const char* s)
{
	std::size_t n = 0;
	while (s[n])
		++n;
	if (workCounting)
		workCount.bytes += n;
	return n;
}

void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void __libc_free(void*);

static PLAIN void taken(void* p)
{
	if (workCounting && p)
	{
		++workCount.allocations;
		workCount.live += malloc_usable_size(p);
		if (static_cast<std::int64_t>(workCount.live) > static_cast<std::int64_t>(workCount.peak))
			workCount.peak = workCount.live;
	}
}

static PLAIN void given(void* p)
{
	if (workCounting && p)
		workCount.live -= malloc_usable_size(p);
}

PLAIN void* malloc(std::size_t n)
{
	void* p = __libc_malloc(n);
	taken(p);
	return p;
}

PLAIN void* calloc(std::size_t n, std::size_t m)
{
	void* p = __libc_calloc(n, m);
	if (workCounting)
		workCount.bytes += n*m;
	taken(p);
	return p;
}

PLAIN void* realloc(void* q, std::size_t n)
{
	// The worst case, in which everything moves.
	if (workCounting && q)
		workCount.bytes += malloc_usable_size(q);
	given(q);
	void* p = __libc_realloc(q, n);
	taken(p);
	return p;
}

PLAIN void free(void* p)
{
	given(p);
	__libc_free(p);
}
}
