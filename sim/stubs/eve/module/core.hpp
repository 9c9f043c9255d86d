#pragma once
#include "../wide.hpp"
