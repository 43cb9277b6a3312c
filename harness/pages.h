// Interposed mmap/munmap (-Wl,--wrap): every page of a page_pool gets an identity, released pages become inaccessible.
#pragma once
#include <sys/mman.h>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
extern "C" void* __real_mmap(void*, std::size_t, int, int, int, long);
extern "C" int __real_munmap(void*, std::size_t);
namespace pages {
constexpr std::size_t psize = 2UL * 1024 * 1024;
struct book {
    std::map<std::uintptr_t, int> live{};   // base address -> page id
    std::vector<int> mapped{}, unmapped{};  // since last take
    std::vector<std::uintptr_t> spare{};
    int next{0}; bool refuse_huge{true}; int fail_after{-1};
    static book& get() { static book b; return b; }
    void* map() {
        if (fail_after == 0) return MAP_FAILED;
        if (fail_after > 0) --fail_after;
        std::uintptr_t a{};
        if (! spare.empty()) { a = spare.front(); spare.erase(spare.begin()); mprotect(reinterpret_cast<void*>(a), psize, PROT_READ | PROT_WRITE); } // addresses get reused
        else {
            // aligned to 4096 only, inaccessible guard around
            auto* p = static_cast<char*>(__real_mmap(nullptr, psize + 16384, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            a = reinterpret_cast<std::uintptr_t>(p) + 4096;
            if (a % 8192 == 0) a += 4096;
            mprotect(reinterpret_cast<void*>(a), psize, PROT_READ | PROT_WRITE);
        }
        live[a] = ++next; mapped.push_back(next);
        return reinterpret_cast<void*>(a);
    }
    int unmap(void* p) {
        auto a = reinterpret_cast<std::uintptr_t>(p);
        auto it = live.find(a);
        if (it == live.end()) { unmapped.push_back(0); return -1; }
        unmapped.push_back(it->second);
        live.erase(it);
        mprotect(p, psize, PROT_NONE);
        spare.push_back(a);
        return 0;
    }
    // page id and offset of an address; id 0 when it is in no page
    std::pair<int, std::size_t> find(void const* p) const {
        auto a = reinterpret_cast<std::uintptr_t>(p);
        auto it = live.upper_bound(a);
        if (it == live.begin()) return {0, 0};
        --it;
        if (a - it->first >= psize) return {0, 0};
        return {it->second, a - it->first};
    }
};
} // namespace pages
extern "C" void* __wrap_mmap(void* ad, std::size_t n, int prot, int flags, int fd, long off) {
    if (n != pages::psize) return __real_mmap(ad, n, prot, flags, fd, off);
    if ((flags & MAP_HUGETLB) != 0 && pages::book::get().refuse_huge) return MAP_FAILED;
    return pages::book::get().map();
}
extern "C" int __wrap_munmap(void* p, std::size_t n) {
    if (n != pages::psize) return __real_munmap(p, n);
    return pages::book::get().unmap(p);
}
