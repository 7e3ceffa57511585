#pragma once
#include <climits>
#include <cfloat>
#include <cmath>
#include <vector>
#include <string>
#include <stdexcept>
#define THROWS(e) ([&]() -> bool { try { e; } catch (const std::exception&) { return true; } return false; }())
