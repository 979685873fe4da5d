#include "ops.hpp"
World w_c22();
World g_worlds[] = {w_c22(), {nullptr, nullptr, nullptr}};
