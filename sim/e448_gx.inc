0x2626a82bc70cc05eull, 0x433b80e18b00938eull, 0x12ae1af72ab66511ull, 0xea6de324a3d3a464ull, 0x9e146570470f1767ull, 0x221d15a622bf36daull, 0x4f1970c66bed0dedull
