#pragma once
#include "minientt.hpp"
