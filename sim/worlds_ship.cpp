#include "ops.hpp"
World w_c01();
World w_c04();
World w_c04long();
World w_c05();
World w_c05long();
World w_c06();
World w_c07();
World w_c08();
World w_c09();
World w_c10();
World w_c11();
World w_c12();
World w_c12long();
World w_c24();
World g_worlds[] = {w_c01(), w_c04(), w_c04long(), w_c05(), w_c05long(), w_c06(), w_c07(), w_c08(), w_c09(), w_c10(), w_c11(), w_c12(), w_c12long(), w_c24(), {nullptr, nullptr, nullptr}};
