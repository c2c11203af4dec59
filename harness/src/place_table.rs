table! {
    1 L1: 0 1 2 3 7 8 9 15 16 17 24 31 33 64 100 256 1000 1007 1008 1009 1016 1023 1024 1025 1040 2048;
    2 L2: 0 2 4 8 10 16 18 24 32 34 64 100 256 1000 1008 1010 1016 1024 1026 1040 2048;
    4 L4: 0 4 8 12 16 20 24 32 36 64 100 256 1000 1008 1012 1016 1024 1028 1040 2048;
    8 L8: 0 8 16 24 32 40 64 104 256 1000 1008 1016 1024 1032 1040 2048;
    16 L16: 0 16 32 48 64 112 256 1008 1024 1040 2048;
    32 L32: 0 32 64 128 256 1024 1056 2048;
    64 L64: 0 64 128 256 1024 1088 2048;
    128 L128: 0 128 256 1024 1152 2048;
    256 L256: 0 256 1024 1280 2048;
    512 L512: 0 512 1024 1536 2048;
    1024 L1024: 0 1024 2048;
    2048 L2048: 0 2048;
}
