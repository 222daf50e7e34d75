#pragma once
#include "pm_filters.h"
