#include "ops.hpp"
World w_c02();
World w_c03();
World g_worlds[] = {w_c02(), w_c03(), {nullptr, nullptr, nullptr}};
