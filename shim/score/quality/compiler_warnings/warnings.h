#pragma once
#define DISABLE_WARNING_PUSH
#define DISABLE_WARNING_POP
#define DISABLE_WARNING_CAST_ALIGN
#define DISABLE_WARNING_NULL_DEREFERENCE
#define DISABLE_WARNING_OLD_STYLE_CAST
#define DISABLE_WARNING_MAYBE_UNINITIALIZED
#define DISABLE_WARNING_ARRAY_BOUNDS
#define DISABLE_WARNING(x)
