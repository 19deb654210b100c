#ifndef VSHIM_TRACE_TYPES_H
#define VSHIM_TRACE_TYPES_H
#include "score/analysis/tracing/generic_trace_library/interface_types/error_code/error_code.h"
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#include "score/optional.hpp"
#include "score/result/result.h"
#include <cstdint>
#include <ostream>
#include <variant>
#include <vector>
namespace score::analysis::tracing
{
enum class BindingType : std::uint8_t { kUndefined = 0, kLoLa, kVector };
enum class TracePointType : std::uint8_t
{
    kInvalid = 0,
    kProxyEventSub, kProxyEventUnsub, kProxyEventSubstateChange, kProxyEventSetChghdl, kProxyEventUnsetChghdl,
    kProxyEventChghdl, kProxyEventSetRechdl, kProxyEventUnsetRechdl, kProxyEventRechdl, kProxyEventGetSamples,
    kProxyEventSampleCb,
    kProxyFieldSub, kProxyFieldUnsub, kProxyFieldSubstateChange, kProxyFieldSetChghdl, kProxyFieldUnsetChghdl,
    kProxyFieldChghdl, kProxyFieldSetRechdl, kProxyFieldUnsetRechdl, kProxyFieldRechdl, kProxyFieldGetSamples,
    kProxyFieldSampleCb, kProxyFieldGet, kProxyFieldGetResult, kProxyFieldSet, kProxyFieldSetResult,
    kSkelEventSnd, kSkelEventSndA, kSkelFieldUpd, kSkelFieldUpdA, kSkelFieldGetCall, kSkelFieldGetCallResult,
    kSkelFieldSetCall, kSkelFieldSetCallResult,
};
using TraceClientId = std::uint8_t;
using ShmObjectHandle = std::int32_t;
using TraceContextId = std::uint64_t;
using TraceResult = score::Result<score::Blank>;
using RegisterClientResult = score::Result<TraceClientId>;
using RegisterTraceDoneCallBackResult = score::Result<score::Blank>;
using RegisterSharedMemoryObjectResult = score::Result<ShmObjectHandle>;
using UnregisterSharedMemoryObjectResult = score::Result<score::Blank>;
using TraceDoneCallBackType = score::safecpp::MoveOnlyScopedFunction<void(TraceContextId)>;

struct SharedMemoryLocation { ShmObjectHandle shm_object_handle; std::size_t offset; };
struct SharedMemoryChunk { SharedMemoryLocation start; std::size_t size; };
struct LocalDataChunk { const void* start; std::size_t size; };
class ShmDataChunkList
{
  public:
    explicit ShmDataChunkList(const SharedMemoryChunk& r) : root_{r} {}
    const SharedMemoryChunk& root() const { return root_; }
  private:
    SharedMemoryChunk root_;
};
class LocalDataChunkList
{
  public:
    explicit LocalDataChunkList(const LocalDataChunk& r) : root_{r} {}
    const LocalDataChunk& root() const { return root_; }
  private:
    LocalDataChunk root_;
};

struct ServiceInstanceElement
{
    using ServiceIdType = std::uint32_t;
    using InstanceIdType = std::uint32_t;
    using EventIdType = std::uint32_t;
    using VersionType = std::uint32_t;
    struct EventId { EventIdType id; friend bool operator==(EventId a, EventId b) { return a.id == b.id; } };
    struct FieldId { EventIdType id; friend bool operator==(FieldId a, FieldId b) { return a.id == b.id; } };
    struct MethodId { EventIdType id; friend bool operator==(MethodId a, MethodId b) { return a.id == b.id; } };
    using StdVariantType = std::variant<EventId, FieldId, MethodId>;
    ServiceInstanceElement(ServiceIdType s, VersionType ma, VersionType mi, InstanceIdType i, StdVariantType e)
        : service_id{s}, major_version{ma}, minor_version{mi}, instance_id{i}, element_id{e} {}
    ServiceIdType service_id;
    VersionType major_version;
    VersionType minor_version;
    InstanceIdType instance_id;
    StdVariantType element_id;
    friend bool operator==(const ServiceInstanceElement& a, const ServiceInstanceElement& b)
    {
        return a.service_id == b.service_id && a.major_version == b.major_version &&
               a.minor_version == b.minor_version && a.instance_id == b.instance_id && a.element_id == b.element_id;
    }
};
class AraComProperties
{
  public:
    using TracePointDataId = std::uint32_t;
    AraComProperties(TracePointType t, ServiceInstanceElement e, score::cpp::optional<TracePointDataId> d)
        : trace_point_type{t}, service_instance_element{e}, trace_point_data_id{d} {}
    TracePointType trace_point_type;
    ServiceInstanceElement service_instance_element;
    score::cpp::optional<TracePointDataId> trace_point_data_id;
};
struct AraComMetaInfo
{
    explicit AraComMetaInfo(AraComProperties p) : properties{std::move(p)} {}
    void SetDataLossBit() { data_loss = true; }
    AraComProperties properties;
    bool data_loss{false};
};
}  // namespace score::analysis::tracing
#endif
