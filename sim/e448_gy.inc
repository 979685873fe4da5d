0x9808795bf230fa14ull, 0xfdbd132c4ed7c8adull, 0x3ad3ff1ce67c39c4ull, 0x87789c1e05a0c2d7ull, 0x4bea73736ca39840ull, 0x8876203756c9c762ull, 0x693f46716eb6bc24ull
