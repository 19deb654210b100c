#pragma once
#include "score/json/internal/model/any.h"
