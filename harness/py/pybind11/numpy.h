#include "../vh_std.hpp"
