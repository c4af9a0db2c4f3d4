#include "sapporo.hpp"
