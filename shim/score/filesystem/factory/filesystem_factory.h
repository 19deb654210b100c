#pragma once
#include "score/filesystem/filesystem.h"
