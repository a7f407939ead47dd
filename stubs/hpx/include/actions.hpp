#pragma once
#include "vf_hpx.h"
