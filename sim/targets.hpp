// Generators and printers of the library, by name.
#pragma once
#include "ops.hpp"
struct RandTarget { void* fn = nullptr; void* ser = nullptr; size_t obj = 0, bytes = 0, lane = 0, align = 1; bool mod448 = false; };
RandTarget rand_target(const std::string& kind, int lib, size_t n);
extern const std::vector<const char*> RAND_KINDS;   // the last one is the generator itself
struct Prt { void* fn = nullptr; void *unser = nullptr, *add = nullptr; size_t obj = 0, lane = 0; int lanes = 1; bool m4 = false, raw = true, point = false; };
Prt printer(const std::string& kind, int lib);
extern const std::vector<const char*> PRINT_KINDS;
