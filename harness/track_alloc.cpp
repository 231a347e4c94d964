// track_alloc.cpp - stands in for src/memory/default_alloc.cpp: the default allocator with a ledger.
// Every block must come back once, with the size it was requested with.
#include "memory/default_alloc.hpp"
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
namespace { struct ledger : std::unordered_map<void*, size_t> {}; ledger& led () { static ledger* l = new ledger; return *l; } }
size_t vh_blocks_live () { return led().size(); }
size_t vh_blocks_seen = 0;
namespace nnet
{
const size_t default_alloc::alloc_id = 0;
default_alloc* default_alloc::clone (void) const { return static_cast<default_alloc*>(clone_impl()); }
default_alloc* default_alloc::move (void) { return static_cast<default_alloc*>(move_impl()); }
void* default_alloc::get_raw (size_t, size_t n)
{
	void* p = malloc(n ? n : 1);
	if (p) { led()[p] = n; vh_blocks_seen++; }
	return p;
}
void default_alloc::del_raw (void* p, size_t n)
{
	auto it = led().find(p);
	if (led().end() == it || it->second != n)
	{
		if (led().end() == it) fprintf(stderr, "FATAL allocator ledger: a block was returned twice or was never handed out\n");
		else fprintf(stderr, "FATAL allocator ledger: a block of %zu bytes was returned as one of %zu bytes\n", it->second, n);
		fflush(stderr);
		abort();
	}
	led().erase(it);
	free(p);
}
iallocator* default_alloc::clone_impl (void) const { return new default_alloc(); }
iallocator* default_alloc::move_impl (void) { return new default_alloc(std::move(*this)); }
}
