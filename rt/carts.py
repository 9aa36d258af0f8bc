"""Cartridge types: (type, name, size in K, layout or None).
layout: (main size, main offset, main address[, bank size, bank offset, bank address]), K

From the atari800 cartridge documentation, written out independently of the library."""
CARTS = [
    (57, 'Standard 2 KB', 2, (2, 0, 0xb800)),
    (58, 'Standard 4 KB', 4, (4, 0, 0xb000)),
    (59, 'Right slot 4 KB', 4, (4, 0, 0x9000)),
    (1, 'Standard 8 KB', 8, (8, 0, 0xa000)),
    (21, 'Right slot 8 KB', 8, None),
    (2, 'Standard 16 KB', 16, (16, 0, 0x8000)),
    (44, 'OSS 8 KB', 8, None),
    (15, 'OSS one chip 16 KB', 16, None),
    (3, 'OSS two chip (034M) 16 KB', 16, (4, 12, 0xb000, 4, 0, 0xa000)),
    (45, 'OSS two chip (043M) 16 KB', 16, (4, 12, 0xb000, 4, 0, 0xa000)),
    (12, 'XEGS 32 KB', 32, (8, 24, 0xa000, 8, 0, 0x8000)),
    (13, 'XEGS (banks 0-7) 64 KB', 64, (8, 56, 0xa000, 8, 0, 0x8000)),
    (67, 'XEGS (banks 8-15) 64 KB', 64, (8, 56, 0xa000, 8, 0, 0x8000)),
    (14, 'XEGS 128 KB', 128, (8, 120, 0xa000, 8, 0, 0x8000)),
    (23, 'XEGS 256 KB', 256, (8, 248, 0xa000, 8, 0, 0x8000)),
    (24, 'XEGS 512 KB', 512, (8, 504, 0xa000, 8, 0, 0x8000)),
    (25, 'XEGS 1 MB', 1024, (8, 1016, 0xa000, 8, 0, 0x8000)),
    (33, 'Switchable XEGS 32 KB', 32, (8, 24, 0xa000, 8, 0, 0x8000)),
    (34, 'Switchable XEGS 64 KB', 64, (8, 56, 0xa000, 8, 0, 0x8000)),
    (35, 'Switchable XEGS 128 KB', 128, (8, 120, 0xa000, 8, 0, 0x8000)),
    (36, 'Switchable XEGS 256 KB', 256, (8, 248, 0xa000, 8, 0, 0x8000)),
    (37, 'Switchable XEGS 512 KB', 512, (8, 504, 0xa000, 8, 0, 0x8000)),
    (38, 'Switchable XEGS 1 MB', 1024, (8, 1016, 0xa000, 8, 0, 0x8000)),
    (22, 'Williams 32 KB', 32, None),
    (8, 'Williams 64 KB', 64, None),
    (9, 'Express 64 KB', 64, None),
    (10, 'Diamond 64 KB', 64, None),
    (11, 'SpartaDOS X 64 KB', 64, None),
    (43, 'SpartaDOS X 128 KB', 128, None),
    (17, 'Atrax 128 KB', 128, None),
    (18, 'Bounty Bob 40 KB', 40, None),
    (26, 'MegaCart 16 KB', 16, None),
    (27, 'MegaCart 32 KB', 32, None),
    (28, 'MegaCart 64 KB', 64, None),
    (29, 'MegaCart 128 KB', 128, None),
    (30, 'MegaCart 256 KB', 256, None),
    (31, 'MegaCart 512 KB', 512, None),
    (32, 'MegaCart 1 MB', 1024, None),
    (39, 'Phoenix 8 KB', 8, None),
    (46, 'Blizzard 4 KB', 4, None),
    (40, 'Blizzard 16 KB', 16, (16, 0, 0x8000)),
    (60, 'Blizzard 32 KB', 32, None),
    (41, 'Atarimax 128 KB Flash', 128, None),
    (42, 'Atarimax 1 MB Flash', 1024, None),
    (47, 'AST 32 KB', 32, None),
    (48, 'Atrax SDX 64 KB', 64, None),
    (49, 'Atrax SDX 128 KB', 128, None),
    (50, 'Turbosoft 64 KB', 64, None),
    (51, 'Turbosoft 128 KB', 128, None),
    (52, 'Ultracart 32 KB', 32, None),
    (53, 'Low bank 8 KB', 8, (8, 0, 0x8000)),
    (5, 'DB 32 KB', 32, None),
    (54, 'SIC! 128 KB', 128, None),
    (55, 'SIC! 256 KB', 256, None),
    (56, 'SIC! 512 KB', 512, None),
    (61, 'MegaMax 2 MB', 2048, None),
    (62, 'The!Cart 128 MB', 131072, None),
    (63, 'Flash MegaCart 4 MB', 4096, None),
    (64, 'MegaCart 2 MB', 2048, None),
    (65, 'The!Cart 32 MB', 32768, None),
    (66, 'The!Cart 64 MB', 65536, None),
    (20, 'Standard 4 KB 5200', 4, (4, 0, 0x8000)),
    (19, 'Standard 8 KB 5200', 8, (8, 0, 0x8000)),
    (4, 'Standard 32 KB 5200', 32, (32, 0, 0x4000)),
    (16, 'One chip 16 KB 5200', 16, None),
    (6, 'Two chip 16 KB 5200', 16, None),
    (7, 'Bounty Bob 40 KB 5200', 40, None),
]
