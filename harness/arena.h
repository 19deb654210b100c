// A bump allocator standing in for one shared memory object: fixed addresses, reset for every execution.
#ifndef VERIF_ARENA_H
#define VERIF_ARENA_H
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/memory_resource_proxy.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "mc.h"
#include <cstring>

struct Arena final : score::memory::shared::ManagedMemoryResource
{
    static constexpr std::size_t kSize = 1u << 18;
    alignas(4096) unsigned char buf[kSize];
    std::size_t used{0};
    std::uint64_t id;
    score::memory::shared::MemoryResourceProxy* proxy;

    explicit Arena(std::uint64_t ident) : id{ident}
    {
        reset();
        score::memory::shared::MemoryResourceRegistry::getInstance().insert_resource({id, this});
    }
    void reset()
    {
        std::memset(buf, 0, used ? used : kSize);
        proxy = new (buf) score::memory::shared::MemoryResourceProxy(id);
        used = 64;
    }
    void* getBaseAddress() const noexcept override { return const_cast<unsigned char*>(buf); }
    void* getUsableBaseAddress() const noexcept override { return const_cast<unsigned char*>(buf); }
    std::size_t GetUserAllocatedBytes() const noexcept override { return used - 64; }

  private:
    const void* getEndAddress() const noexcept override { return buf + kSize; }
    const score::memory::shared::MemoryResourceProxy* getMemoryResourceProxy() noexcept override { return proxy; }
    void* do_allocate(const std::size_t bytes, const std::size_t alignment) override
    {
        used = (used + alignment - 1) / alignment * alignment;
        void* p = buf + used;
        used += bytes;
        if (used > kSize) std::abort();
        return p;
    }
    void do_deallocate(void*, const std::size_t, const std::size_t) override {}
    bool do_is_equal(const score::cpp::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

inline Arena& arena(int n = 0)
{
    static Arena a0{900001}, a1{900002}, a2{900003};
    return n == 0 ? a0 : n == 1 ? a1 : a2;
}
#endif
