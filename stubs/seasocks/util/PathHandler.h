#pragma once
#include "../PageHandler.h"
