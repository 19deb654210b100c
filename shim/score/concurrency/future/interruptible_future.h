#pragma once
#include "score/concurrency/future/interruptible_promise.h"
