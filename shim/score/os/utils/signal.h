#pragma once
#include "score/os/utils/signal_impl.h"
