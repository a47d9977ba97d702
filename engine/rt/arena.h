#define VP_ARENA 0x100000000000ull
#define VP_ARENA_SIZE (64ull << 30)
