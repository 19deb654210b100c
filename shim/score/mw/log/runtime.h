#pragma once
namespace score::mw::log
{
class Recorder {};
inline Recorder& GetDefaultLogRecorder() noexcept { static Recorder r; return r; }
inline Recorder& GetFallbackLogRecorder() noexcept { static Recorder r; return r; }
}
