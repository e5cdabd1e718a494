#pragma once
#include "kit.hpp"
kit::base_resource& domain_memory(); // of the driver
