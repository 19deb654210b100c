#pragma once
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
