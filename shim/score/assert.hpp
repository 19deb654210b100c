// Stand-in for score_baselibs (futurecpp) assertions. Part of the verification environment, not of the code under test.
#pragma once
#include <utility>
namespace score::cpp
{
struct handler_parameters { const char* file; int line; const char* function; const char* condition; const char* message; };
using assertion_handler = void (*)(const handler_parameters&);
}  // namespace score::cpp
namespace vshim { [[noreturn]] void assert_fail(const char* file, int line, const char* func, const char* cond, const char* msg); }
#define VSHIM_ASSERT_IMPL(cond, msg) \
    (static_cast<bool>(cond) ? static_cast<void>(0) : ::vshim::assert_fail(__FILE__, __LINE__, __func__, #cond, msg))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT(cond) VSHIM_ASSERT_IMPL(cond, "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_MESSAGE(cond, msg) VSHIM_ASSERT_IMPL(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(cond) VSHIM_ASSERT_IMPL(cond, "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(cond, msg) VSHIM_ASSERT_IMPL(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(cond) VSHIM_ASSERT_IMPL(cond, "")
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(cond, msg) VSHIM_ASSERT_IMPL(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION(cond) VSHIM_ASSERT_IMPL(cond, "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_MESSAGE(cond, msg) VSHIM_ASSERT_IMPL(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(cond) VSHIM_ASSERT_IMPL(cond, "")
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(cond, msg) VSHIM_ASSERT_IMPL(cond, msg)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE() ::vshim::assert_fail(__FILE__, __LINE__, __func__, "unreachable", "")
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(msg) ::vshim::assert_fail(__FILE__, __LINE__, __func__, "unreachable", msg)
