#pragma once
#include "dense.h"
