// One registry of memory resources and one shared-memory factory per simulated process (both are process singletons).
// The harness links with --wrap for MemoryResourceRegistry::getInstance.
#ifndef VERIF_PROCS_H
#define VERIF_PROCS_H
#include "mc.h"
#include <map>
#include <memory>
#include <optional>
#include <shared_mutex>
#include <sstream>
#include <unordered_map>
#include <vector>
#include "score/memory/shared/memory_region_map.h"
#define private public
#include "score/memory/shared/managed_memory_resource.h"
#include "score/memory/shared/memory_resource_registry.h"
#undef private
#include "score/memory/shared/shared_memory_factory_impl.h"

namespace procs
{
namespace ms = score::memory::shared;
constexpr int kMax = 8;
struct Proc
{
    alignas(ms::MemoryResourceRegistry) unsigned char r[sizeof(ms::MemoryResourceRegistry)];
    alignas(ms::SharedMemoryFactoryImpl) unsigned char f[sizeof(ms::SharedMemoryFactoryImpl)];
    bool live{false};
    ms::MemoryResourceRegistry& reg() { return *reinterpret_cast<ms::MemoryResourceRegistry*>(r); }
    ms::SharedMemoryFactoryImpl& fac() { return *reinterpret_cast<ms::SharedMemoryFactoryImpl*>(f); }
};
inline Proc (&all())[kMax] { static Proc p[kMax]; return p; }
// Fresh processes for an execution.
inline int& as();
inline void reset() { as() = -1; for (auto& p : all()) { if (p.live) { p.fac().~SharedMemoryFactoryImpl(); p.reg().~MemoryResourceRegistry(); } p.live = false; } }
inline int& as() { static int p = -1; return p; }   // operation sequences: which process is acting
inline Proc& cur()
{
    Proc& p = all()[as() >= 0 ? as() : mc::cur_proc()];
    if (!p.live) { mc::NoPreempt np; new (p.r) ms::MemoryResourceRegistry(); new (p.f) ms::SharedMemoryFactoryImpl(); p.live = true; }
    return p;
}
inline ms::SharedMemoryFactoryImpl& factory() { return cur().fac(); }
}  // namespace procs
extern "C" score::memory::shared::MemoryResourceRegistry& __wrap__ZN5score6memory6shared22MemoryResourceRegistry11getInstanceEv() { return procs::cur().reg(); }
#endif
