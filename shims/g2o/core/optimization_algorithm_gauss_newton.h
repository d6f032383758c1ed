#pragma once
#include <g2o/core/block_solver.h>
