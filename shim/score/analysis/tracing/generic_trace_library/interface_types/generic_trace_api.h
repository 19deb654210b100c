#ifndef VSHIM_GENERIC_TRACE_API_H
#define VSHIM_GENERIC_TRACE_API_H
#include "score/analysis/tracing/common/interface_types/types.h"
#include <functional>
#include <string>
namespace vshim
{
/// The trace daemon, as the harness decides it answers. Unset hooks answer "success".
struct TraceHooks
{
    using namespace_t = int;
    std::function<score::analysis::tracing::RegisterClientResult(score::analysis::tracing::BindingType, const std::string&)> register_client;
    std::function<score::analysis::tracing::RegisterTraceDoneCallBackResult(score::analysis::tracing::TraceClientId, score::analysis::tracing::TraceDoneCallBackType)> register_done;
    std::function<score::analysis::tracing::RegisterSharedMemoryObjectResult(score::analysis::tracing::TraceClientId, int)> register_shm;
    std::function<score::analysis::tracing::UnregisterSharedMemoryObjectResult(score::analysis::tracing::TraceClientId, score::analysis::tracing::ShmObjectHandle)> unregister_shm;
    std::function<score::analysis::tracing::TraceResult(score::analysis::tracing::TraceClientId, const score::analysis::tracing::AraComMetaInfo&, score::analysis::tracing::ShmDataChunkList&, score::analysis::tracing::TraceContextId)> trace_shm;
    std::function<score::analysis::tracing::TraceResult(score::analysis::tracing::TraceClientId, const score::analysis::tracing::AraComMetaInfo&, score::analysis::tracing::LocalDataChunkList&)> trace_local;
    static TraceHooks& get() { static TraceHooks h; return h; }
};
}
namespace score::analysis::tracing
{
class GenericTraceAPI
{
  public:
    static RegisterClientResult RegisterClient(BindingType b, const std::string& app)
    {
        auto& h = vshim::TraceHooks::get();
        return h.register_client ? h.register_client(b, app) : RegisterClientResult{TraceClientId{1}};
    }
    static RegisterTraceDoneCallBackResult RegisterTraceDoneCB(TraceClientId c, TraceDoneCallBackType cb)
    {
        auto& h = vshim::TraceHooks::get();
        return h.register_done ? h.register_done(c, std::move(cb)) : RegisterTraceDoneCallBackResult{score::Blank{}};
    }
    static RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId c, int fd)
    {
        auto& h = vshim::TraceHooks::get();
        return h.register_shm ? h.register_shm(c, fd) : RegisterSharedMemoryObjectResult{ShmObjectHandle{fd}};
    }
    static RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId c, const std::string&)
    {
        auto& h = vshim::TraceHooks::get();
        return h.register_shm ? h.register_shm(c, -1) : RegisterSharedMemoryObjectResult{ShmObjectHandle{0}};
    }
    static UnregisterSharedMemoryObjectResult UnregisterShmObject(TraceClientId c, ShmObjectHandle s)
    {
        auto& h = vshim::TraceHooks::get();
        return h.unregister_shm ? h.unregister_shm(c, s) : UnregisterSharedMemoryObjectResult{score::Blank{}};
    }
    static TraceResult Trace(TraceClientId c, const AraComMetaInfo& m, ShmDataChunkList& d, TraceContextId id)
    {
        auto& h = vshim::TraceHooks::get();
        return h.trace_shm ? h.trace_shm(c, m, d, id) : TraceResult{score::Blank{}};
    }
    static TraceResult Trace(TraceClientId c, const AraComMetaInfo& m, LocalDataChunkList& d)
    {
        auto& h = vshim::TraceHooks::get();
        return h.trace_local ? h.trace_local(c, m, d) : TraceResult{score::Blank{}};
    }
};
}  // namespace score::analysis::tracing
#endif
