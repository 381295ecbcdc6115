// ch, upper, lower, title, alphabetic, digit: only characters with any property
{0x30,0x30,0x30,0x30,0,0},
{0x31,0x31,0x31,0x31,0,1},
{0x32,0x32,0x32,0x32,0,2},
{0x33,0x33,0x33,0x33,0,3},
{0x34,0x34,0x34,0x34,0,4},
{0x35,0x35,0x35,0x35,0,5},
{0x36,0x36,0x36,0x36,0,6},
{0x37,0x37,0x37,0x37,0,7},
{0x38,0x38,0x38,0x38,0,8},
{0x39,0x39,0x39,0x39,0,9},
{0x41,0x41,0x61,0x41,1,-1},
{0x42,0x42,0x62,0x42,1,-1},
{0x43,0x43,0x63,0x43,1,-1},
{0x44,0x44,0x64,0x44,1,-1},
{0x45,0x45,0x65,0x45,1,-1},
{0x46,0x46,0x66,0x46,1,-1},
{0x47,0x47,0x67,0x47,1,-1},
{0x48,0x48,0x68,0x48,1,-1},
{0x49,0x49,0x69,0x49,1,-1},
{0x4a,0x4a,0x6a,0x4a,1,-1},
{0x4b,0x4b,0x6b,0x4b,1,-1},
{0x4c,0x4c,0x6c,0x4c,1,-1},
{0x4d,0x4d,0x6d,0x4d,1,-1},
{0x4e,0x4e,0x6e,0x4e,1,-1},
{0x4f,0x4f,0x6f,0x4f,1,-1},
{0x50,0x50,0x70,0x50,1,-1},
{0x51,0x51,0x71,0x51,1,-1},
{0x52,0x52,0x72,0x52,1,-1},
{0x53,0x53,0x73,0x53,1,-1},
{0x54,0x54,0x74,0x54,1,-1},
{0x55,0x55,0x75,0x55,1,-1},
{0x56,0x56,0x76,0x56,1,-1},
{0x57,0x57,0x77,0x57,1,-1},
{0x58,0x58,0x78,0x58,1,-1},
{0x59,0x59,0x79,0x59,1,-1},
{0x5a,0x5a,0x7a,0x5a,1,-1},
{0x61,0x41,0x61,0x41,1,-1},
{0x62,0x42,0x62,0x42,1,-1},
{0x63,0x43,0x63,0x43,1,-1},
{0x64,0x44,0x64,0x44,1,-1},
{0x65,0x45,0x65,0x45,1,-1},
{0x66,0x46,0x66,0x46,1,-1},
{0x67,0x47,0x67,0x47,1,-1},
{0x68,0x48,0x68,0x48,1,-1},
{0x69,0x49,0x69,0x49,1,-1},
{0x6a,0x4a,0x6a,0x4a,1,-1},
{0x6b,0x4b,0x6b,0x4b,1,-1},
{0x6c,0x4c,0x6c,0x4c,1,-1},
{0x6d,0x4d,0x6d,0x4d,1,-1},
{0x6e,0x4e,0x6e,0x4e,1,-1},
{0x6f,0x4f,0x6f,0x4f,1,-1},
{0x70,0x50,0x70,0x50,1,-1},
{0x71,0x51,0x71,0x51,1,-1},
{0x72,0x52,0x72,0x52,1,-1},
{0x73,0x53,0x73,0x53,1,-1},
{0x74,0x54,0x74,0x54,1,-1},
{0x75,0x55,0x75,0x55,1,-1},
{0x76,0x56,0x76,0x56,1,-1},
{0x77,0x57,0x77,0x57,1,-1},
{0x78,0x58,0x78,0x58,1,-1},
{0x79,0x59,0x79,0x59,1,-1},
{0x7a,0x5a,0x7a,0x5a,1,-1},
{0xaa,0xaa,0xaa,0xaa,1,-1},
{0xb5,0x39c,0xb5,0x39c,1,-1},
{0xba,0xba,0xba,0xba,1,-1},
{0xc0,0xc0,0xe0,0xc0,1,-1},
{0xc1,0xc1,0xe1,0xc1,1,-1},
{0xc2,0xc2,0xe2,0xc2,1,-1},
{0xc3,0xc3,0xe3,0xc3,1,-1},
{0xc4,0xc4,0xe4,0xc4,1,-1},
{0xc5,0xc5,0xe5,0xc5,1,-1},
{0xc6,0xc6,0xe6,0xc6,1,-1},
{0xc7,0xc7,0xe7,0xc7,1,-1},
{0xc8,0xc8,0xe8,0xc8,1,-1},
{0xc9,0xc9,0xe9,0xc9,1,-1},
{0xca,0xca,0xea,0xca,1,-1},
{0xcb,0xcb,0xeb,0xcb,1,-1},
{0xcc,0xcc,0xec,0xcc,1,-1},
{0xcd,0xcd,0xed,0xcd,1,-1},
{0xce,0xce,0xee,0xce,1,-1},
{0xcf,0xcf,0xef,0xcf,1,-1},
{0xd0,0xd0,0xf0,0xd0,1,-1},
{0xd1,0xd1,0xf1,0xd1,1,-1},
{0xd2,0xd2,0xf2,0xd2,1,-1},
{0xd3,0xd3,0xf3,0xd3,1,-1},
{0xd4,0xd4,0xf4,0xd4,1,-1},
{0xd5,0xd5,0xf5,0xd5,1,-1},
{0xd6,0xd6,0xf6,0xd6,1,-1},
{0xd8,0xd8,0xf8,0xd8,1,-1},
{0xd9,0xd9,0xf9,0xd9,1,-1},
{0xda,0xda,0xfa,0xda,1,-1},
{0xdb,0xdb,0xfb,0xdb,1,-1},
{0xdc,0xdc,0xfc,0xdc,1,-1},
{0xdd,0xdd,0xfd,0xdd,1,-1},
{0xde,0xde,0xfe,0xde,1,-1},
{0xdf,0xdf,0xdf,0xdf,1,-1},
{0xe0,0xc0,0xe0,0xc0,1,-1},
{0xe1,0xc1,0xe1,0xc1,1,-1},
{0xe2,0xc2,0xe2,0xc2,1,-1},
{0xe3,0xc3,0xe3,0xc3,1,-1},
{0xe4,0xc4,0xe4,0xc4,1,-1},
{0xe5,0xc5,0xe5,0xc5,1,-1},
{0xe6,0xc6,0xe6,0xc6,1,-1},
{0xe7,0xc7,0xe7,0xc7,1,-1},
{0xe8,0xc8,0xe8,0xc8,1,-1},
{0xe9,0xc9,0xe9,0xc9,1,-1},
{0xea,0xca,0xea,0xca,1,-1},
{0xeb,0xcb,0xeb,0xcb,1,-1},
{0xec,0xcc,0xec,0xcc,1,-1},
{0xed,0xcd,0xed,0xcd,1,-1},
{0xee,0xce,0xee,0xce,1,-1},
{0xef,0xcf,0xef,0xcf,1,-1},
{0xf0,0xd0,0xf0,0xd0,1,-1},
{0xf1,0xd1,0xf1,0xd1,1,-1},
{0xf2,0xd2,0xf2,0xd2,1,-1},
{0xf3,0xd3,0xf3,0xd3,1,-1},
{0xf4,0xd4,0xf4,0xd4,1,-1},
{0xf5,0xd5,0xf5,0xd5,1,-1},
{0xf6,0xd6,0xf6,0xd6,1,-1},
{0xf8,0xd8,0xf8,0xd8,1,-1},
{0xf9,0xd9,0xf9,0xd9,1,-1},
{0xfa,0xda,0xfa,0xda,1,-1},
{0xfb,0xdb,0xfb,0xdb,1,-1},
{0xfc,0xdc,0xfc,0xdc,1,-1},
{0xfd,0xdd,0xfd,0xdd,1,-1},
{0xfe,0xde,0xfe,0xde,1,-1},
{0xff,0x178,0xff,0x178,1,-1},
{0x100,0x100,0x101,0x100,1,-1},
{0x101,0x100,0x101,0x100,1,-1},
{0x102,0x102,0x103,0x102,1,-1},
{0x103,0x102,0x103,0x102,1,-1},
{0x104,0x104,0x105,0x104,1,-1},
{0x105,0x104,0x105,0x104,1,-1},
{0x106,0x106,0x107,0x106,1,-1},
{0x107,0x106,0x107,0x106,1,-1},
{0x108,0x108,0x109,0x108,1,-1},
{0x109,0x108,0x109,0x108,1,-1},
{0x10a,0x10a,0x10b,0x10a,1,-1},
{0x10b,0x10a,0x10b,0x10a,1,-1},
{0x10c,0x10c,0x10d,0x10c,1,-1},
{0x10d,0x10c,0x10d,0x10c,1,-1},
{0x10e,0x10e,0x10f,0x10e,1,-1},
{0x10f,0x10e,0x10f,0x10e,1,-1},
{0x110,0x110,0x111,0x110,1,-1},
{0x111,0x110,0x111,0x110,1,-1},
{0x112,0x112,0x113,0x112,1,-1},
{0x113,0x112,0x113,0x112,1,-1},
{0x114,0x114,0x115,0x114,1,-1},
{0x115,0x114,0x115,0x114,1,-1},
{0x116,0x116,0x117,0x116,1,-1},
{0x117,0x116,0x117,0x116,1,-1},
{0x118,0x118,0x119,0x118,1,-1},
{0x119,0x118,0x119,0x118,1,-1},
{0x11a,0x11a,0x11b,0x11a,1,-1},
{0x11b,0x11a,0x11b,0x11a,1,-1},
{0x11c,0x11c,0x11d,0x11c,1,-1},
{0x11d,0x11c,0x11d,0x11c,1,-1},
{0x11e,0x11e,0x11f,0x11e,1,-1},
{0x11f,0x11e,0x11f,0x11e,1,-1},
{0x120,0x120,0x121,0x120,1,-1},
{0x121,0x120,0x121,0x120,1,-1},
{0x122,0x122,0x123,0x122,1,-1},
{0x123,0x122,0x123,0x122,1,-1},
{0x124,0x124,0x125,0x124,1,-1},
{0x125,0x124,0x125,0x124,1,-1},
{0x126,0x126,0x127,0x126,1,-1},
{0x127,0x126,0x127,0x126,1,-1},
{0x128,0x128,0x129,0x128,1,-1},
{0x129,0x128,0x129,0x128,1,-1},
{0x12a,0x12a,0x12b,0x12a,1,-1},
{0x12b,0x12a,0x12b,0x12a,1,-1},
{0x12c,0x12c,0x12d,0x12c,1,-1},
{0x12d,0x12c,0x12d,0x12c,1,-1},
{0x12e,0x12e,0x12f,0x12e,1,-1},
{0x12f,0x12e,0x12f,0x12e,1,-1},
{0x130,0x130,0x69,0x130,1,-1},
{0x131,0x49,0x131,0x49,1,-1},
{0x132,0x132,0x133,0x132,1,-1},
{0x133,0x132,0x133,0x132,1,-1},
{0x134,0x134,0x135,0x134,1,-1},
{0x135,0x134,0x135,0x134,1,-1},
{0x136,0x136,0x137,0x136,1,-1},
{0x137,0x136,0x137,0x136,1,-1},
{0x138,0x138,0x138,0x138,1,-1},
{0x139,0x139,0x13a,0x139,1,-1},
{0x13a,0x139,0x13a,0x139,1,-1},
{0x13b,0x13b,0x13c,0x13b,1,-1},
{0x13c,0x13b,0x13c,0x13b,1,-1},
{0x13d,0x13d,0x13e,0x13d,1,-1},
{0x13e,0x13d,0x13e,0x13d,1,-1},
{0x13f,0x13f,0x140,0x13f,1,-1},
{0x140,0x13f,0x140,0x13f,1,-1},
{0x141,0x141,0x142,0x141,1,-1},
{0x142,0x141,0x142,0x141,1,-1},
{0x143,0x143,0x144,0x143,1,-1},
{0x144,0x143,0x144,0x143,1,-1},
{0x145,0x145,0x146,0x145,1,-1},
{0x146,0x145,0x146,0x145,1,-1},
{0x147,0x147,0x148,0x147,1,-1},
{0x148,0x147,0x148,0x147,1,-1},
{0x149,0x149,0x149,0x149,1,-1},
{0x14a,0x14a,0x14b,0x14a,1,-1},
{0x14b,0x14a,0x14b,0x14a,1,-1},
{0x14c,0x14c,0x14d,0x14c,1,-1},
{0x14d,0x14c,0x14d,0x14c,1,-1},
{0x14e,0x14e,0x14f,0x14e,1,-1},
{0x14f,0x14e,0x14f,0x14e,1,-1},
{0x150,0x150,0x151,0x150,1,-1},
{0x151,0x150,0x151,0x150,1,-1},
{0x152,0x152,0x153,0x152,1,-1},
{0x153,0x152,0x153,0x152,1,-1},
{0x154,0x154,0x155,0x154,1,-1},
{0x155,0x154,0x155,0x154,1,-1},
{0x156,0x156,0x157,0x156,1,-1},
{0x157,0x156,0x157,0x156,1,-1},
{0x158,0x158,0x159,0x158,1,-1},
{0x159,0x158,0x159,0x158,1,-1},
{0x15a,0x15a,0x15b,0x15a,1,-1},
{0x15b,0x15a,0x15b,0x15a,1,-1},
{0x15c,0x15c,0x15d,0x15c,1,-1},
{0x15d,0x15c,0x15d,0x15c,1,-1},
{0x15e,0x15e,0x15f,0x15e,1,-1},
{0x15f,0x15e,0x15f,0x15e,1,-1},
{0x160,0x160,0x161,0x160,1,-1},
{0x161,0x160,0x161,0x160,1,-1},
{0x162,0x162,0x163,0x162,1,-1},
{0x163,0x162,0x163,0x162,1,-1},
{0x164,0x164,0x165,0x164,1,-1},
{0x165,0x164,0x165,0x164,1,-1},
{0x166,0x166,0x167,0x166,1,-1},
{0x167,0x166,0x167,0x166,1,-1},
{0x168,0x168,0x169,0x168,1,-1},
{0x169,0x168,0x169,0x168,1,-1},
{0x16a,0x16a,0x16b,0x16a,1,-1},
{0x16b,0x16a,0x16b,0x16a,1,-1},
{0x16c,0x16c,0x16d,0x16c,1,-1},
{0x16d,0x16c,0x16d,0x16c,1,-1},
{0x16e,0x16e,0x16f,0x16e,1,-1},
{0x16f,0x16e,0x16f,0x16e,1,-1},
{0x170,0x170,0x171,0x170,1,-1},
{0x171,0x170,0x171,0x170,1,-1},
{0x172,0x172,0x173,0x172,1,-1},
{0x173,0x172,0x173,0x172,1,-1},
{0x174,0x174,0x175,0x174,1,-1},
{0x175,0x174,0x175,0x174,1,-1},
{0x176,0x176,0x177,0x176,1,-1},
{0x177,0x176,0x177,0x176,1,-1},
{0x178,0x178,0xff,0x178,1,-1},
{0x179,0x179,0x17a,0x179,1,-1},
{0x17a,0x179,0x17a,0x179,1,-1},
{0x17b,0x17b,0x17c,0x17b,1,-1},
{0x17c,0x17b,0x17c,0x17b,1,-1},
{0x17d,0x17d,0x17e,0x17d,1,-1},
{0x17e,0x17d,0x17e,0x17d,1,-1},
{0x17f,0x53,0x17f,0x53,1,-1},
{0x180,0x180,0x180,0x180,1,-1},
{0x181,0x181,0x253,0x181,1,-1},
{0x182,0x182,0x183,0x182,1,-1},
{0x183,0x182,0x183,0x182,1,-1},
{0x184,0x184,0x185,0x184,1,-1},
{0x185,0x184,0x185,0x184,1,-1},
{0x186,0x186,0x254,0x186,1,-1},
{0x187,0x187,0x188,0x187,1,-1},
{0x188,0x187,0x188,0x187,1,-1},
{0x189,0x189,0x256,0x189,1,-1},
{0x18a,0x18a,0x257,0x18a,1,-1},
{0x18b,0x18b,0x18c,0x18b,1,-1},
{0x18c,0x18b,0x18c,0x18b,1,-1},
{0x18d,0x18d,0x18d,0x18d,1,-1},
{0x18e,0x18e,0x1dd,0x18e,1,-1},
{0x18f,0x18f,0x259,0x18f,1,-1},
{0x190,0x190,0x25b,0x190,1,-1},
{0x191,0x191,0x192,0x191,1,-1},
{0x192,0x191,0x192,0x191,1,-1},
{0x193,0x193,0x260,0x193,1,-1},
{0x194,0x194,0x263,0x194,1,-1},
{0x195,0x1f6,0x195,0x1f6,1,-1},
{0x196,0x196,0x269,0x196,1,-1},
{0x197,0x197,0x268,0x197,1,-1},
{0x198,0x198,0x199,0x198,1,-1},
{0x199,0x198,0x199,0x198,1,-1},
{0x19a,0x19a,0x19a,0x19a,1,-1},
{0x19b,0x19b,0x19b,0x19b,1,-1},
{0x19c,0x19c,0x26f,0x19c,1,-1},
{0x19d,0x19d,0x272,0x19d,1,-1},
{0x19e,0x19e,0x19e,0x19e,1,-1},
{0x19f,0x19f,0x275,0x19f,1,-1},
{0x1a0,0x1a0,0x1a1,0x1a0,1,-1},
{0x1a1,0x1a0,0x1a1,0x1a0,1,-1},
{0x1a2,0x1a2,0x1a3,0x1a2,1,-1},
{0x1a3,0x1a2,0x1a3,0x1a2,1,-1},
{0x1a4,0x1a4,0x1a5,0x1a4,1,-1},
{0x1a5,0x1a4,0x1a5,0x1a4,1,-1},
{0x1a6,0x1a6,0x280,0x1a6,1,-1},
{0x1a7,0x1a7,0x1a8,0x1a7,1,-1},
{0x1a8,0x1a7,0x1a8,0x1a7,1,-1},
{0x1a9,0x1a9,0x283,0x1a9,1,-1},
{0x1aa,0x1aa,0x1aa,0x1aa,1,-1},
{0x1ab,0x1ab,0x1ab,0x1ab,1,-1},
{0x1ac,0x1ac,0x1ad,0x1ac,1,-1},
{0x1ad,0x1ac,0x1ad,0x1ac,1,-1},
{0x1ae,0x1ae,0x288,0x1ae,1,-1},
{0x1af,0x1af,0x1b0,0x1af,1,-1},
{0x1b0,0x1af,0x1b0,0x1af,1,-1},
{0x1b1,0x1b1,0x28a,0x1b1,1,-1},
{0x1b2,0x1b2,0x28b,0x1b2,1,-1},
{0x1b3,0x1b3,0x1b4,0x1b3,1,-1},
{0x1b4,0x1b3,0x1b4,0x1b3,1,-1},
{0x1b5,0x1b5,0x1b6,0x1b5,1,-1},
{0x1b6,0x1b5,0x1b6,0x1b5,1,-1},
{0x1b7,0x1b7,0x292,0x1b7,1,-1},
{0x1b8,0x1b8,0x1b9,0x1b8,1,-1},
{0x1b9,0x1b8,0x1b9,0x1b8,1,-1},
{0x1ba,0x1ba,0x1ba,0x1ba,1,-1},
{0x1bc,0x1bc,0x1bd,0x1bc,1,-1},
{0x1bd,0x1bc,0x1bd,0x1bc,1,-1},
{0x1be,0x1be,0x1be,0x1be,1,-1},
{0x1bf,0x1f7,0x1bf,0x1f7,1,-1},
{0x1c4,0x1c4,0x1c6,0x1c5,1,-1},
{0x1c5,0x1c4,0x1c6,0x1c5,1,-1},
{0x1c6,0x1c4,0x1c6,0x1c5,1,-1},
{0x1c7,0x1c7,0x1c9,0x1c8,1,-1},
{0x1c8,0x1c7,0x1c9,0x1c8,1,-1},
{0x1c9,0x1c7,0x1c9,0x1c8,1,-1},
{0x1ca,0x1ca,0x1cc,0x1cb,1,-1},
{0x1cb,0x1ca,0x1cc,0x1cb,1,-1},
{0x1cc,0x1ca,0x1cc,0x1cb,1,-1},
{0x1cd,0x1cd,0x1ce,0x1cd,1,-1},
{0x1ce,0x1cd,0x1ce,0x1cd,1,-1},
{0x1cf,0x1cf,0x1d0,0x1cf,1,-1},
{0x1d0,0x1cf,0x1d0,0x1cf,1,-1},
{0x1d1,0x1d1,0x1d2,0x1d1,1,-1},
{0x1d2,0x1d1,0x1d2,0x1d1,1,-1},
{0x1d3,0x1d3,0x1d4,0x1d3,1,-1},
{0x1d4,0x1d3,0x1d4,0x1d3,1,-1},
{0x1d5,0x1d5,0x1d6,0x1d5,1,-1},
{0x1d6,0x1d5,0x1d6,0x1d5,1,-1},
{0x1d7,0x1d7,0x1d8,0x1d7,1,-1},
{0x1d8,0x1d7,0x1d8,0x1d7,1,-1},
{0x1d9,0x1d9,0x1da,0x1d9,1,-1},
{0x1da,0x1d9,0x1da,0x1d9,1,-1},
{0x1db,0x1db,0x1dc,0x1db,1,-1},
{0x1dc,0x1db,0x1dc,0x1db,1,-1},
{0x1dd,0x18e,0x1dd,0x18e,1,-1},
{0x1de,0x1de,0x1df,0x1de,1,-1},
{0x1df,0x1de,0x1df,0x1de,1,-1},
{0x1e0,0x1e0,0x1e1,0x1e0,1,-1},
{0x1e1,0x1e0,0x1e1,0x1e0,1,-1},
{0x1e2,0x1e2,0x1e3,0x1e2,1,-1},
{0x1e3,0x1e2,0x1e3,0x1e2,1,-1},
{0x1e4,0x1e4,0x1e5,0x1e4,1,-1},
{0x1e5,0x1e4,0x1e5,0x1e4,1,-1},
{0x1e6,0x1e6,0x1e7,0x1e6,1,-1},
{0x1e7,0x1e6,0x1e7,0x1e6,1,-1},
{0x1e8,0x1e8,0x1e9,0x1e8,1,-1},
{0x1e9,0x1e8,0x1e9,0x1e8,1,-1},
{0x1ea,0x1ea,0x1eb,0x1ea,1,-1},
{0x1eb,0x1ea,0x1eb,0x1ea,1,-1},
{0x1ec,0x1ec,0x1ed,0x1ec,1,-1},
{0x1ed,0x1ec,0x1ed,0x1ec,1,-1},
{0x1ee,0x1ee,0x1ef,0x1ee,1,-1},
{0x1ef,0x1ee,0x1ef,0x1ee,1,-1},
{0x1f0,0x1f0,0x1f0,0x1f0,1,-1},
{0x1f1,0x1f1,0x1f3,0x1f2,1,-1},
{0x1f2,0x1f1,0x1f3,0x1f2,1,-1},
{0x1f3,0x1f1,0x1f3,0x1f2,1,-1},
{0x1f4,0x1f4,0x1f5,0x1f4,1,-1},
{0x1f5,0x1f4,0x1f5,0x1f4,1,-1},
{0x1f6,0x1f6,0x195,0x1f6,1,-1},
{0x1f7,0x1f7,0x1bf,0x1f7,1,-1},
{0x1f8,0x1f8,0x1f9,0x1f8,1,-1},
{0x1f9,0x1f8,0x1f9,0x1f8,1,-1},
{0x1fa,0x1fa,0x1fb,0x1fa,1,-1},
{0x1fb,0x1fa,0x1fb,0x1fa,1,-1},
{0x1fc,0x1fc,0x1fd,0x1fc,1,-1},
{0x1fd,0x1fc,0x1fd,0x1fc,1,-1},
{0x1fe,0x1fe,0x1ff,0x1fe,1,-1},
{0x1ff,0x1fe,0x1ff,0x1fe,1,-1},
{0x200,0x200,0x201,0x200,1,-1},
{0x201,0x200,0x201,0x200,1,-1},
{0x202,0x202,0x203,0x202,1,-1},
{0x203,0x202,0x203,0x202,1,-1},
{0x204,0x204,0x205,0x204,1,-1},
{0x205,0x204,0x205,0x204,1,-1},
{0x206,0x206,0x207,0x206,1,-1},
{0x207,0x206,0x207,0x206,1,-1},
{0x208,0x208,0x209,0x208,1,-1},
{0x209,0x208,0x209,0x208,1,-1},
{0x20a,0x20a,0x20b,0x20a,1,-1},
{0x20b,0x20a,0x20b,0x20a,1,-1},
{0x20c,0x20c,0x20d,0x20c,1,-1},
{0x20d,0x20c,0x20d,0x20c,1,-1},
{0x20e,0x20e,0x20f,0x20e,1,-1},
{0x20f,0x20e,0x20f,0x20e,1,-1},
{0x210,0x210,0x211,0x210,1,-1},
{0x211,0x210,0x211,0x210,1,-1},
{0x212,0x212,0x213,0x212,1,-1},
{0x213,0x212,0x213,0x212,1,-1},
{0x214,0x214,0x215,0x214,1,-1},
{0x215,0x214,0x215,0x214,1,-1},
{0x216,0x216,0x217,0x216,1,-1},
{0x217,0x216,0x217,0x216,1,-1},
{0x218,0x218,0x219,0x218,1,-1},
{0x219,0x218,0x219,0x218,1,-1},
{0x21a,0x21a,0x21b,0x21a,1,-1},
{0x21b,0x21a,0x21b,0x21a,1,-1},
{0x21c,0x21c,0x21d,0x21c,1,-1},
{0x21d,0x21c,0x21d,0x21c,1,-1},
{0x21e,0x21e,0x21f,0x21e,1,-1},
{0x21f,0x21e,0x21f,0x21e,1,-1},
{0x222,0x222,0x223,0x222,1,-1},
{0x223,0x222,0x223,0x222,1,-1},
{0x224,0x224,0x225,0x224,1,-1},
{0x225,0x224,0x225,0x224,1,-1},
{0x226,0x226,0x227,0x226,1,-1},
{0x227,0x226,0x227,0x226,1,-1},
{0x228,0x228,0x229,0x228,1,-1},
{0x229,0x228,0x229,0x228,1,-1},
{0x22a,0x22a,0x22b,0x22a,1,-1},
{0x22b,0x22a,0x22b,0x22a,1,-1},
{0x22c,0x22c,0x22d,0x22c,1,-1},
{0x22d,0x22c,0x22d,0x22c,1,-1},
{0x22e,0x22e,0x22f,0x22e,1,-1},
{0x22f,0x22e,0x22f,0x22e,1,-1},
{0x230,0x230,0x231,0x230,1,-1},
{0x231,0x230,0x231,0x230,1,-1},
{0x232,0x232,0x233,0x232,1,-1},
{0x233,0x232,0x233,0x232,1,-1},
{0x250,0x250,0x250,0x250,1,-1},
{0x251,0x251,0x251,0x251,1,-1},
{0x252,0x252,0x252,0x252,1,-1},
{0x253,0x181,0x253,0x181,1,-1},
{0x254,0x186,0x254,0x186,1,-1},
{0x255,0x255,0x255,0x255,1,-1},
{0x256,0x189,0x256,0x189,1,-1},
{0x257,0x18a,0x257,0x18a,1,-1},
{0x258,0x258,0x258,0x258,1,-1},
{0x259,0x18f,0x259,0x18f,1,-1},
{0x25a,0x25a,0x25a,0x25a,1,-1},
{0x25b,0x190,0x25b,0x190,1,-1},
{0x25c,0x25c,0x25c,0x25c,1,-1},
{0x25d,0x25d,0x25d,0x25d,1,-1},
{0x25e,0x25e,0x25e,0x25e,1,-1},
{0x25f,0x25f,0x25f,0x25f,1,-1},
{0x260,0x193,0x260,0x193,1,-1},
{0x261,0x261,0x261,0x261,1,-1},
{0x262,0x262,0x262,0x262,1,-1},
{0x263,0x194,0x263,0x194,1,-1},
{0x264,0x264,0x264,0x264,1,-1},
{0x265,0x265,0x265,0x265,1,-1},
{0x266,0x266,0x266,0x266,1,-1},
{0x267,0x267,0x267,0x267,1,-1},
{0x268,0x197,0x268,0x197,1,-1},
{0x269,0x196,0x269,0x196,1,-1},
{0x26a,0x26a,0x26a,0x26a,1,-1},
{0x26b,0x26b,0x26b,0x26b,1,-1},
{0x26c,0x26c,0x26c,0x26c,1,-1},
{0x26d,0x26d,0x26d,0x26d,1,-1},
{0x26e,0x26e,0x26e,0x26e,1,-1},
{0x26f,0x19c,0x26f,0x19c,1,-1},
{0x270,0x270,0x270,0x270,1,-1},
{0x271,0x271,0x271,0x271,1,-1},
{0x272,0x19d,0x272,0x19d,1,-1},
{0x273,0x273,0x273,0x273,1,-1},
{0x274,0x274,0x274,0x274,1,-1},
{0x275,0x19f,0x275,0x19f,1,-1},
{0x276,0x276,0x276,0x276,1,-1},
{0x277,0x277,0x277,0x277,1,-1},
{0x278,0x278,0x278,0x278,1,-1},
{0x279,0x279,0x279,0x279,1,-1},
{0x27a,0x27a,0x27a,0x27a,1,-1},
{0x27b,0x27b,0x27b,0x27b,1,-1},
{0x27c,0x27c,0x27c,0x27c,1,-1},
{0x27d,0x27d,0x27d,0x27d,1,-1},
{0x27e,0x27e,0x27e,0x27e,1,-1},
{0x27f,0x27f,0x27f,0x27f,1,-1},
{0x280,0x1a6,0x280,0x1a6,1,-1},
{0x281,0x281,0x281,0x281,1,-1},
{0x282,0x282,0x282,0x282,1,-1},
{0x283,0x1a9,0x283,0x1a9,1,-1},
{0x284,0x284,0x284,0x284,1,-1},
{0x285,0x285,0x285,0x285,1,-1},
{0x286,0x286,0x286,0x286,1,-1},
{0x287,0x287,0x287,0x287,1,-1},
{0x288,0x1ae,0x288,0x1ae,1,-1},
{0x289,0x289,0x289,0x289,1,-1},
{0x28a,0x1b1,0x28a,0x1b1,1,-1},
{0x28b,0x1b2,0x28b,0x1b2,1,-1},
{0x28c,0x28c,0x28c,0x28c,1,-1},
{0x28d,0x28d,0x28d,0x28d,1,-1},
{0x28e,0x28e,0x28e,0x28e,1,-1},
{0x28f,0x28f,0x28f,0x28f,1,-1},
{0x290,0x290,0x290,0x290,1,-1},
{0x291,0x291,0x291,0x291,1,-1},
{0x292,0x1b7,0x292,0x1b7,1,-1},
{0x293,0x293,0x293,0x293,1,-1},
{0x294,0x294,0x294,0x294,1,-1},
{0x295,0x295,0x295,0x295,1,-1},
{0x296,0x296,0x296,0x296,1,-1},
{0x297,0x297,0x297,0x297,1,-1},
{0x298,0x298,0x298,0x298,1,-1},
{0x299,0x299,0x299,0x299,1,-1},
{0x29a,0x29a,0x29a,0x29a,1,-1},
{0x29b,0x29b,0x29b,0x29b,1,-1},
{0x29c,0x29c,0x29c,0x29c,1,-1},
{0x29d,0x29d,0x29d,0x29d,1,-1},
{0x29e,0x29e,0x29e,0x29e,1,-1},
{0x29f,0x29f,0x29f,0x29f,1,-1},
{0x2a0,0x2a0,0x2a0,0x2a0,1,-1},
{0x2a1,0x2a1,0x2a1,0x2a1,1,-1},
{0x2a2,0x2a2,0x2a2,0x2a2,1,-1},
{0x2a3,0x2a3,0x2a3,0x2a3,1,-1},
{0x2a4,0x2a4,0x2a4,0x2a4,1,-1},
{0x2a5,0x2a5,0x2a5,0x2a5,1,-1},
{0x2a6,0x2a6,0x2a6,0x2a6,1,-1},
{0x2a7,0x2a7,0x2a7,0x2a7,1,-1},
{0x2a8,0x2a8,0x2a8,0x2a8,1,-1},
{0x2a9,0x2a9,0x2a9,0x2a9,1,-1},
{0x2aa,0x2aa,0x2aa,0x2aa,1,-1},
{0x2ab,0x2ab,0x2ab,0x2ab,1,-1},
{0x2ac,0x2ac,0x2ac,0x2ac,1,-1},
{0x2ad,0x2ad,0x2ad,0x2ad,1,-1},
{0x345,0x399,0x345,0x399,1,-1},
{0x386,0x386,0x3ac,0x386,1,-1},
{0x388,0x388,0x3ad,0x388,1,-1},
{0x389,0x389,0x3ae,0x389,1,-1},
{0x38a,0x38a,0x3af,0x38a,1,-1},
{0x38c,0x38c,0x3cc,0x38c,1,-1},
{0x38e,0x38e,0x3cd,0x38e,1,-1},
{0x38f,0x38f,0x3ce,0x38f,1,-1},
{0x390,0x390,0x390,0x390,1,-1},
{0x391,0x391,0x3b1,0x391,1,-1},
{0x392,0x392,0x3b2,0x392,1,-1},
{0x393,0x393,0x3b3,0x393,1,-1},
{0x394,0x394,0x3b4,0x394,1,-1},
{0x395,0x395,0x3b5,0x395,1,-1},
{0x396,0x396,0x3b6,0x396,1,-1},
{0x397,0x397,0x3b7,0x397,1,-1},
{0x398,0x398,0x3b8,0x398,1,-1},
{0x399,0x399,0x3b9,0x399,1,-1},
{0x39a,0x39a,0x3ba,0x39a,1,-1},
{0x39b,0x39b,0x3bb,0x39b,1,-1},
{0x39c,0x39c,0x3bc,0x39c,1,-1},
{0x39d,0x39d,0x3bd,0x39d,1,-1},
{0x39e,0x39e,0x3be,0x39e,1,-1},
{0x39f,0x39f,0x3bf,0x39f,1,-1},
{0x3a0,0x3a0,0x3c0,0x3a0,1,-1},
{0x3a1,0x3a1,0x3c1,0x3a1,1,-1},
{0x3a3,0x3a3,0x3c3,0x3a3,1,-1},
{0x3a4,0x3a4,0x3c4,0x3a4,1,-1},
{0x3a5,0x3a5,0x3c5,0x3a5,1,-1},
{0x3a6,0x3a6,0x3c6,0x3a6,1,-1},
{0x3a7,0x3a7,0x3c7,0x3a7,1,-1},
{0x3a8,0x3a8,0x3c8,0x3a8,1,-1},
{0x3a9,0x3a9,0x3c9,0x3a9,1,-1},
{0x3aa,0x3aa,0x3ca,0x3aa,1,-1},
{0x3ab,0x3ab,0x3cb,0x3ab,1,-1},
{0x3ac,0x386,0x3ac,0x386,1,-1},
{0x3ad,0x388,0x3ad,0x388,1,-1},
{0x3ae,0x389,0x3ae,0x389,1,-1},
{0x3af,0x38a,0x3af,0x38a,1,-1},
{0x3b0,0x3b0,0x3b0,0x3b0,1,-1},
{0x3b1,0x391,0x3b1,0x391,1,-1},
{0x3b2,0x392,0x3b2,0x392,1,-1},
{0x3b3,0x393,0x3b3,0x393,1,-1},
{0x3b4,0x394,0x3b4,0x394,1,-1},
{0x3b5,0x395,0x3b5,0x395,1,-1},
{0x3b6,0x396,0x3b6,0x396,1,-1},
{0x3b7,0x397,0x3b7,0x397,1,-1},
{0x3b8,0x398,0x3b8,0x398,1,-1},
{0x3b9,0x399,0x3b9,0x399,1,-1},
{0x3ba,0x39a,0x3ba,0x39a,1,-1},
{0x3bb,0x39b,0x3bb,0x39b,1,-1},
{0x3bc,0x39c,0x3bc,0x39c,1,-1},
{0x3bd,0x39d,0x3bd,0x39d,1,-1},
{0x3be,0x39e,0x3be,0x39e,1,-1},
{0x3bf,0x39f,0x3bf,0x39f,1,-1},
{0x3c0,0x3a0,0x3c0,0x3a0,1,-1},
{0x3c1,0x3a1,0x3c1,0x3a1,1,-1},
{0x3c2,0x3a3,0x3c2,0x3a3,1,-1},
{0x3c3,0x3a3,0x3c3,0x3a3,1,-1},
{0x3c4,0x3a4,0x3c4,0x3a4,1,-1},
{0x3c5,0x3a5,0x3c5,0x3a5,1,-1},
{0x3c6,0x3a6,0x3c6,0x3a6,1,-1},
{0x3c7,0x3a7,0x3c7,0x3a7,1,-1},
{0x3c8,0x3a8,0x3c8,0x3a8,1,-1},
{0x3c9,0x3a9,0x3c9,0x3a9,1,-1},
{0x3ca,0x3aa,0x3ca,0x3aa,1,-1},
{0x3cb,0x3ab,0x3cb,0x3ab,1,-1},
{0x3cc,0x38c,0x3cc,0x38c,1,-1},
{0x3cd,0x38e,0x3cd,0x38e,1,-1},
{0x3ce,0x38f,0x3ce,0x38f,1,-1},
{0x3d0,0x392,0x3d0,0x392,1,-1},
{0x3d1,0x398,0x3d1,0x398,1,-1},
{0x3d2,0x3d2,0x3d2,0x3d2,1,-1},
{0x3d3,0x3d3,0x3d3,0x3d3,1,-1},
{0x3d4,0x3d4,0x3d4,0x3d4,1,-1},
{0x3d5,0x3a6,0x3d5,0x3a6,1,-1},
{0x3d6,0x3a0,0x3d6,0x3a0,1,-1},
{0x3d7,0x3d7,0x3d7,0x3d7,1,-1},
{0x3da,0x3da,0x3db,0x3da,1,-1},
{0x3db,0x3da,0x3db,0x3da,1,-1},
{0x3dc,0x3dc,0x3dd,0x3dc,1,-1},
{0x3dd,0x3dc,0x3dd,0x3dc,1,-1},
{0x3de,0x3de,0x3df,0x3de,1,-1},
{0x3df,0x3de,0x3df,0x3de,1,-1},
{0x3e0,0x3e0,0x3e1,0x3e0,1,-1},
{0x3e1,0x3e0,0x3e1,0x3e0,1,-1},
{0x3e2,0x3e2,0x3e3,0x3e2,1,-1},
{0x3e3,0x3e2,0x3e3,0x3e2,1,-1},
{0x3e4,0x3e4,0x3e5,0x3e4,1,-1},
{0x3e5,0x3e4,0x3e5,0x3e4,1,-1},
{0x3e6,0x3e6,0x3e7,0x3e6,1,-1},
{0x3e7,0x3e6,0x3e7,0x3e6,1,-1},
{0x3e8,0x3e8,0x3e9,0x3e8,1,-1},
{0x3e9,0x3e8,0x3e9,0x3e8,1,-1},
{0x3ea,0x3ea,0x3eb,0x3ea,1,-1},
{0x3eb,0x3ea,0x3eb,0x3ea,1,-1},
{0x3ec,0x3ec,0x3ed,0x3ec,1,-1},
{0x3ed,0x3ec,0x3ed,0x3ec,1,-1},
{0x3ee,0x3ee,0x3ef,0x3ee,1,-1},
{0x3ef,0x3ee,0x3ef,0x3ee,1,-1},
{0x3f0,0x39a,0x3f0,0x39a,1,-1},
{0x3f1,0x3a1,0x3f1,0x3a1,1,-1},
{0x3f2,0x3a3,0x3f2,0x3a3,1,-1},
{0x3f3,0x3f3,0x3f3,0x3f3,1,-1},
{0x400,0x400,0x450,0x400,1,-1},
{0x401,0x401,0x451,0x401,1,-1},
{0x402,0x402,0x452,0x402,1,-1},
{0x403,0x403,0x453,0x403,1,-1},
{0x404,0x404,0x454,0x404,1,-1},
{0x405,0x405,0x455,0x405,1,-1},
{0x406,0x406,0x456,0x406,1,-1},
{0x407,0x407,0x457,0x407,1,-1},
{0x408,0x408,0x458,0x408,1,-1},
{0x409,0x409,0x459,0x409,1,-1},
{0x40a,0x40a,0x45a,0x40a,1,-1},
{0x40b,0x40b,0x45b,0x40b,1,-1},
{0x40c,0x40c,0x45c,0x40c,1,-1},
{0x40d,0x40d,0x45d,0x40d,1,-1},
{0x40e,0x40e,0x45e,0x40e,1,-1},
{0x40f,0x40f,0x45f,0x40f,1,-1},
{0x410,0x410,0x430,0x410,1,-1},
{0x411,0x411,0x431,0x411,1,-1},
{0x412,0x412,0x432,0x412,1,-1},
{0x413,0x413,0x433,0x413,1,-1},
{0x414,0x414,0x434,0x414,1,-1},
{0x415,0x415,0x435,0x415,1,-1},
{0x416,0x416,0x436,0x416,1,-1},
{0x417,0x417,0x437,0x417,1,-1},
{0x418,0x418,0x438,0x418,1,-1},
{0x419,0x419,0x439,0x419,1,-1},
{0x41a,0x41a,0x43a,0x41a,1,-1},
{0x41b,0x41b,0x43b,0x41b,1,-1},
{0x41c,0x41c,0x43c,0x41c,1,-1},
{0x41d,0x41d,0x43d,0x41d,1,-1},
{0x41e,0x41e,0x43e,0x41e,1,-1},
{0x41f,0x41f,0x43f,0x41f,1,-1},
{0x420,0x420,0x440,0x420,1,-1},
{0x421,0x421,0x441,0x421,1,-1},
{0x422,0x422,0x442,0x422,1,-1},
{0x423,0x423,0x443,0x423,1,-1},
{0x424,0x424,0x444,0x424,1,-1},
{0x425,0x425,0x445,0x425,1,-1},
{0x426,0x426,0x446,0x426,1,-1},
{0x427,0x427,0x447,0x427,1,-1},
{0x428,0x428,0x448,0x428,1,-1},
{0x429,0x429,0x449,0x429,1,-1},
{0x42a,0x42a,0x44a,0x42a,1,-1},
{0x42b,0x42b,0x44b,0x42b,1,-1},
{0x42c,0x42c,0x44c,0x42c,1,-1},
{0x42d,0x42d,0x44d,0x42d,1,-1},
{0x42e,0x42e,0x44e,0x42e,1,-1},
{0x42f,0x42f,0x44f,0x42f,1,-1},
{0x430,0x410,0x430,0x410,1,-1},
{0x431,0x411,0x431,0x411,1,-1},
{0x432,0x412,0x432,0x412,1,-1},
{0x433,0x413,0x433,0x413,1,-1},
{0x434,0x414,0x434,0x414,1,-1},
{0x435,0x415,0x435,0x415,1,-1},
{0x436,0x416,0x436,0x416,1,-1},
{0x437,0x417,0x437,0x417,1,-1},
{0x438,0x418,0x438,0x418,1,-1},
{0x439,0x419,0x439,0x419,1,-1},
{0x43a,0x41a,0x43a,0x41a,1,-1},
{0x43b,0x41b,0x43b,0x41b,1,-1},
{0x43c,0x41c,0x43c,0x41c,1,-1},
{0x43d,0x41d,0x43d,0x41d,1,-1},
{0x43e,0x41e,0x43e,0x41e,1,-1},
{0x43f,0x41f,0x43f,0x41f,1,-1},
{0x440,0x420,0x440,0x420,1,-1},
{0x441,0x421,0x441,0x421,1,-1},
{0x442,0x422,0x442,0x422,1,-1},
{0x443,0x423,0x443,0x423,1,-1},
{0x444,0x424,0x444,0x424,1,-1},
{0x445,0x425,0x445,0x425,1,-1},
{0x446,0x426,0x446,0x426,1,-1},
{0x447,0x427,0x447,0x427,1,-1},
{0x448,0x428,0x448,0x428,1,-1},
{0x449,0x429,0x449,0x429,1,-1},
{0x44a,0x42a,0x44a,0x42a,1,-1},
{0x44b,0x42b,0x44b,0x42b,1,-1},
{0x44c,0x42c,0x44c,0x42c,1,-1},
{0x44d,0x42d,0x44d,0x42d,1,-1},
{0x44e,0x42e,0x44e,0x42e,1,-1},
{0x44f,0x42f,0x44f,0x42f,1,-1},
{0x450,0x400,0x450,0x400,1,-1},
{0x451,0x401,0x451,0x401,1,-1},
{0x452,0x402,0x452,0x402,1,-1},
{0x453,0x403,0x453,0x403,1,-1},
{0x454,0x404,0x454,0x404,1,-1},
{0x455,0x405,0x455,0x405,1,-1},
{0x456,0x406,0x456,0x406,1,-1},
{0x457,0x407,0x457,0x407,1,-1},
{0x458,0x408,0x458,0x408,1,-1},
{0x459,0x409,0x459,0x409,1,-1},
{0x45a,0x40a,0x45a,0x40a,1,-1},
{0x45b,0x40b,0x45b,0x40b,1,-1},
{0x45c,0x40c,0x45c,0x40c,1,-1},
{0x45d,0x40d,0x45d,0x40d,1,-1},
{0x45e,0x40e,0x45e,0x40e,1,-1},
{0x45f,0x40f,0x45f,0x40f,1,-1},
{0x460,0x460,0x461,0x460,1,-1},
{0x461,0x460,0x461,0x460,1,-1},
{0x462,0x462,0x463,0x462,1,-1},
{0x463,0x462,0x463,0x462,1,-1},
{0x464,0x464,0x465,0x464,1,-1},
{0x465,0x464,0x465,0x464,1,-1},
{0x466,0x466,0x467,0x466,1,-1},
{0x467,0x466,0x467,0x466,1,-1},
{0x468,0x468,0x469,0x468,1,-1},
{0x469,0x468,0x469,0x468,1,-1},
{0x46a,0x46a,0x46b,0x46a,1,-1},
{0x46b,0x46a,0x46b,0x46a,1,-1},
{0x46c,0x46c,0x46d,0x46c,1,-1},
{0x46d,0x46c,0x46d,0x46c,1,-1},
{0x46e,0x46e,0x46f,0x46e,1,-1},
{0x46f,0x46e,0x46f,0x46e,1,-1},
{0x470,0x470,0x471,0x470,1,-1},
{0x471,0x470,0x471,0x470,1,-1},
{0x472,0x472,0x473,0x472,1,-1},
{0x473,0x472,0x473,0x472,1,-1},
{0x474,0x474,0x475,0x474,1,-1},
{0x475,0x474,0x475,0x474,1,-1},
{0x476,0x476,0x477,0x476,1,-1},
{0x477,0x476,0x477,0x476,1,-1},
{0x478,0x478,0x479,0x478,1,-1},
{0x479,0x478,0x479,0x478,1,-1},
{0x47a,0x47a,0x47b,0x47a,1,-1},
{0x47b,0x47a,0x47b,0x47a,1,-1},
{0x47c,0x47c,0x47d,0x47c,1,-1},
{0x47d,0x47c,0x47d,0x47c,1,-1},
{0x47e,0x47e,0x47f,0x47e,1,-1},
{0x47f,0x47e,0x47f,0x47e,1,-1},
{0x480,0x480,0x481,0x480,1,-1},
{0x481,0x480,0x481,0x480,1,-1},
{0x48c,0x48c,0x48d,0x48c,1,-1},
{0x48d,0x48c,0x48d,0x48c,1,-1},
{0x48e,0x48e,0x48f,0x48e,1,-1},
{0x48f,0x48e,0x48f,0x48e,1,-1},
{0x490,0x490,0x491,0x490,1,-1},
{0x491,0x490,0x491,0x490,1,-1},
{0x492,0x492,0x493,0x492,1,-1},
{0x493,0x492,0x493,0x492,1,-1},
{0x494,0x494,0x495,0x494,1,-1},
{0x495,0x494,0x495,0x494,1,-1},
{0x496,0x496,0x497,0x496,1,-1},
{0x497,0x496,0x497,0x496,1,-1},
{0x498,0x498,0x499,0x498,1,-1},
{0x499,0x498,0x499,0x498,1,-1},
{0x49a,0x49a,0x49b,0x49a,1,-1},
{0x49b,0x49a,0x49b,0x49a,1,-1},
{0x49c,0x49c,0x49d,0x49c,1,-1},
{0x49d,0x49c,0x49d,0x49c,1,-1},
{0x49e,0x49e,0x49f,0x49e,1,-1},
{0x49f,0x49e,0x49f,0x49e,1,-1},
{0x4a0,0x4a0,0x4a1,0x4a0,1,-1},
{0x4a1,0x4a0,0x4a1,0x4a0,1,-1},
{0x4a2,0x4a2,0x4a3,0x4a2,1,-1},
{0x4a3,0x4a2,0x4a3,0x4a2,1,-1},
{0x4a4,0x4a4,0x4a5,0x4a4,1,-1},
{0x4a5,0x4a4,0x4a5,0x4a4,1,-1},
{0x4a6,0x4a6,0x4a7,0x4a6,1,-1},
{0x4a7,0x4a6,0x4a7,0x4a6,1,-1},
{0x4a8,0x4a8,0x4a9,0x4a8,1,-1},
{0x4a9,0x4a8,0x4a9,0x4a8,1,-1},
{0x4aa,0x4aa,0x4ab,0x4aa,1,-1},
{0x4ab,0x4aa,0x4ab,0x4aa,1,-1},
{0x4ac,0x4ac,0x4ad,0x4ac,1,-1},
{0x4ad,0x4ac,0x4ad,0x4ac,1,-1},
{0x4ae,0x4ae,0x4af,0x4ae,1,-1},
{0x4af,0x4ae,0x4af,0x4ae,1,-1},
{0x4b0,0x4b0,0x4b1,0x4b0,1,-1},
{0x4b1,0x4b0,0x4b1,0x4b0,1,-1},
{0x4b2,0x4b2,0x4b3,0x4b2,1,-1},
{0x4b3,0x4b2,0x4b3,0x4b2,1,-1},
{0x4b4,0x4b4,0x4b5,0x4b4,1,-1},
{0x4b5,0x4b4,0x4b5,0x4b4,1,-1},
{0x4b6,0x4b6,0x4b7,0x4b6,1,-1},
{0x4b7,0x4b6,0x4b7,0x4b6,1,-1},
{0x4b8,0x4b8,0x4b9,0x4b8,1,-1},
{0x4b9,0x4b8,0x4b9,0x4b8,1,-1},
{0x4ba,0x4ba,0x4bb,0x4ba,1,-1},
{0x4bb,0x4ba,0x4bb,0x4ba,1,-1},
{0x4bc,0x4bc,0x4bd,0x4bc,1,-1},
{0x4bd,0x4bc,0x4bd,0x4bc,1,-1},
{0x4be,0x4be,0x4bf,0x4be,1,-1},
{0x4bf,0x4be,0x4bf,0x4be,1,-1},
{0x4c0,0x4c0,0x4c0,0x4c0,1,-1},
{0x4c1,0x4c1,0x4c2,0x4c1,1,-1},
{0x4c2,0x4c1,0x4c2,0x4c1,1,-1},
{0x4c3,0x4c3,0x4c4,0x4c3,1,-1},
{0x4c4,0x4c3,0x4c4,0x4c3,1,-1},
{0x4c7,0x4c7,0x4c8,0x4c7,1,-1},
{0x4c8,0x4c7,0x4c8,0x4c7,1,-1},
{0x4cb,0x4cb,0x4cc,0x4cb,1,-1},
{0x4cc,0x4cb,0x4cc,0x4cb,1,-1},
{0x4d0,0x4d0,0x4d1,0x4d0,1,-1},
{0x4d1,0x4d0,0x4d1,0x4d0,1,-1},
{0x4d2,0x4d2,0x4d3,0x4d2,1,-1},
{0x4d3,0x4d2,0x4d3,0x4d2,1,-1},
{0x4d4,0x4d4,0x4d5,0x4d4,1,-1},
{0x4d5,0x4d4,0x4d5,0x4d4,1,-1},
{0x4d6,0x4d6,0x4d7,0x4d6,1,-1},
{0x4d7,0x4d6,0x4d7,0x4d6,1,-1},
{0x4d8,0x4d8,0x4d9,0x4d8,1,-1},
{0x4d9,0x4d8,0x4d9,0x4d8,1,-1},
{0x4da,0x4da,0x4db,0x4da,1,-1},
{0x4db,0x4da,0x4db,0x4da,1,-1},
{0x4dc,0x4dc,0x4dd,0x4dc,1,-1},
{0x4dd,0x4dc,0x4dd,0x4dc,1,-1},
{0x4de,0x4de,0x4df,0x4de,1,-1},
{0x4df,0x4de,0x4df,0x4de,1,-1},
{0x4e0,0x4e0,0x4e1,0x4e0,1,-1},
{0x4e1,0x4e0,0x4e1,0x4e0,1,-1},
{0x4e2,0x4e2,0x4e3,0x4e2,1,-1},
{0x4e3,0x4e2,0x4e3,0x4e2,1,-1},
{0x4e4,0x4e4,0x4e5,0x4e4,1,-1},
{0x4e5,0x4e4,0x4e5,0x4e4,1,-1},
{0x4e6,0x4e6,0x4e7,0x4e6,1,-1},
{0x4e7,0x4e6,0x4e7,0x4e6,1,-1},
{0x4e8,0x4e8,0x4e9,0x4e8,1,-1},
{0x4e9,0x4e8,0x4e9,0x4e8,1,-1},
{0x4ea,0x4ea,0x4eb,0x4ea,1,-1},
{0x4eb,0x4ea,0x4eb,0x4ea,1,-1},
{0x4ec,0x4ec,0x4ed,0x4ec,1,-1},
{0x4ed,0x4ec,0x4ed,0x4ec,1,-1},
{0x4ee,0x4ee,0x4ef,0x4ee,1,-1},
{0x4ef,0x4ee,0x4ef,0x4ee,1,-1},
{0x4f0,0x4f0,0x4f1,0x4f0,1,-1},
{0x4f1,0x4f0,0x4f1,0x4f0,1,-1},
{0x4f2,0x4f2,0x4f3,0x4f2,1,-1},
{0x4f3,0x4f2,0x4f3,0x4f2,1,-1},
{0x4f4,0x4f4,0x4f5,0x4f4,1,-1},
{0x4f5,0x4f4,0x4f5,0x4f4,1,-1},
{0x4f8,0x4f8,0x4f9,0x4f8,1,-1},
{0x4f9,0x4f8,0x4f9,0x4f8,1,-1},
{0x531,0x531,0x561,0x531,1,-1},
{0x532,0x532,0x562,0x532,1,-1},
{0x533,0x533,0x563,0x533,1,-1},
{0x534,0x534,0x564,0x534,1,-1},
{0x535,0x535,0x565,0x535,1,-1},
{0x536,0x536,0x566,0x536,1,-1},
{0x537,0x537,0x567,0x537,1,-1},
{0x538,0x538,0x568,0x538,1,-1},
{0x539,0x539,0x569,0x539,1,-1},
{0x53a,0x53a,0x56a,0x53a,1,-1},
{0x53b,0x53b,0x56b,0x53b,1,-1},
{0x53c,0x53c,0x56c,0x53c,1,-1},
{0x53d,0x53d,0x56d,0x53d,1,-1},
{0x53e,0x53e,0x56e,0x53e,1,-1},
{0x53f,0x53f,0x56f,0x53f,1,-1},
{0x540,0x540,0x570,0x540,1,-1},
{0x541,0x541,0x571,0x541,1,-1},
{0x542,0x542,0x572,0x542,1,-1},
{0x543,0x543,0x573,0x543,1,-1},
{0x544,0x544,0x574,0x544,1,-1},
{0x545,0x545,0x575,0x545,1,-1},
{0x546,0x546,0x576,0x546,1,-1},
{0x547,0x547,0x577,0x547,1,-1},
{0x548,0x548,0x578,0x548,1,-1},
{0x549,0x549,0x579,0x549,1,-1},
{0x54a,0x54a,0x57a,0x54a,1,-1},
{0x54b,0x54b,0x57b,0x54b,1,-1},
{0x54c,0x54c,0x57c,0x54c,1,-1},
{0x54d,0x54d,0x57d,0x54d,1,-1},
{0x54e,0x54e,0x57e,0x54e,1,-1},
{0x54f,0x54f,0x57f,0x54f,1,-1},
{0x550,0x550,0x580,0x550,1,-1},
{0x551,0x551,0x581,0x551,1,-1},
{0x552,0x552,0x582,0x552,1,-1},
{0x553,0x553,0x583,0x553,1,-1},
{0x554,0x554,0x584,0x554,1,-1},
{0x555,0x555,0x585,0x555,1,-1},
{0x556,0x556,0x586,0x556,1,-1},
{0x561,0x531,0x561,0x531,1,-1},
{0x562,0x532,0x562,0x532,1,-1},
{0x563,0x533,0x563,0x533,1,-1},
{0x564,0x534,0x564,0x534,1,-1},
{0x565,0x535,0x565,0x535,1,-1},
{0x566,0x536,0x566,0x536,1,-1},
{0x567,0x537,0x567,0x537,1,-1},
{0x568,0x538,0x568,0x538,1,-1},
{0x569,0x539,0x569,0x539,1,-1},
{0x56a,0x53a,0x56a,0x53a,1,-1},
{0x56b,0x53b,0x56b,0x53b,1,-1},
{0x56c,0x53c,0x56c,0x53c,1,-1},
{0x56d,0x53d,0x56d,0x53d,1,-1},
{0x56e,0x53e,0x56e,0x53e,1,-1},
{0x56f,0x53f,0x56f,0x53f,1,-1},
{0x570,0x540,0x570,0x540,1,-1},
{0x571,0x541,0x571,0x541,1,-1},
{0x572,0x542,0x572,0x542,1,-1},
{0x573,0x543,0x573,0x543,1,-1},
{0x574,0x544,0x574,0x544,1,-1},
{0x575,0x545,0x575,0x545,1,-1},
{0x576,0x546,0x576,0x546,1,-1},
{0x577,0x547,0x577,0x547,1,-1},
{0x578,0x548,0x578,0x548,1,-1},
{0x579,0x549,0x579,0x549,1,-1},
{0x57a,0x54a,0x57a,0x54a,1,-1},
{0x57b,0x54b,0x57b,0x54b,1,-1},
{0x57c,0x54c,0x57c,0x54c,1,-1},
{0x57d,0x54d,0x57d,0x54d,1,-1},
{0x57e,0x54e,0x57e,0x54e,1,-1},
{0x57f,0x54f,0x57f,0x54f,1,-1},
{0x580,0x550,0x580,0x550,1,-1},
{0x581,0x551,0x581,0x551,1,-1},
{0x582,0x552,0x582,0x552,1,-1},
{0x583,0x553,0x583,0x553,1,-1},
{0x584,0x554,0x584,0x554,1,-1},
{0x585,0x555,0x585,0x555,1,-1},
{0x586,0x556,0x586,0x556,1,-1},
{0x587,0x587,0x587,0x587,1,-1},
{0x660,0x660,0x660,0x660,0,0},
{0x661,0x661,0x661,0x661,0,1},
{0x662,0x662,0x662,0x662,0,2},
{0x663,0x663,0x663,0x663,0,3},
{0x664,0x664,0x664,0x664,0,4},
{0x665,0x665,0x665,0x665,0,5},
{0x666,0x666,0x666,0x666,0,6},
{0x667,0x667,0x667,0x667,0,7},
{0x668,0x668,0x668,0x668,0,8},
{0x669,0x669,0x669,0x669,0,9},
{0x6f0,0x6f0,0x6f0,0x6f0,0,0},
{0x6f1,0x6f1,0x6f1,0x6f1,0,1},
{0x6f2,0x6f2,0x6f2,0x6f2,0,2},
{0x6f3,0x6f3,0x6f3,0x6f3,0,3},
{0x6f4,0x6f4,0x6f4,0x6f4,0,4},
{0x6f5,0x6f5,0x6f5,0x6f5,0,5},
{0x6f6,0x6f6,0x6f6,0x6f6,0,6},
{0x6f7,0x6f7,0x6f7,0x6f7,0,7},
{0x6f8,0x6f8,0x6f8,0x6f8,0,8},
{0x6f9,0x6f9,0x6f9,0x6f9,0,9},
{0x966,0x966,0x966,0x966,0,0},
{0x967,0x967,0x967,0x967,0,1},
{0x968,0x968,0x968,0x968,0,2},
{0x969,0x969,0x969,0x969,0,3},
{0x96a,0x96a,0x96a,0x96a,0,4},
{0x96b,0x96b,0x96b,0x96b,0,5},
{0x96c,0x96c,0x96c,0x96c,0,6},
{0x96d,0x96d,0x96d,0x96d,0,7},
{0x96e,0x96e,0x96e,0x96e,0,8},
{0x96f,0x96f,0x96f,0x96f,0,9},
{0x9e6,0x9e6,0x9e6,0x9e6,0,0},
{0x9e7,0x9e7,0x9e7,0x9e7,0,1},
{0x9e8,0x9e8,0x9e8,0x9e8,0,2},
{0x9e9,0x9e9,0x9e9,0x9e9,0,3},
{0x9ea,0x9ea,0x9ea,0x9ea,0,4},
{0x9eb,0x9eb,0x9eb,0x9eb,0,5},
{0x9ec,0x9ec,0x9ec,0x9ec,0,6},
{0x9ed,0x9ed,0x9ed,0x9ed,0,7},
{0x9ee,0x9ee,0x9ee,0x9ee,0,8},
{0x9ef,0x9ef,0x9ef,0x9ef,0,9},
{0xa66,0xa66,0xa66,0xa66,0,0},
{0xa67,0xa67,0xa67,0xa67,0,1},
{0xa68,0xa68,0xa68,0xa68,0,2},
{0xa69,0xa69,0xa69,0xa69,0,3},
{0xa6a,0xa6a,0xa6a,0xa6a,0,4},
{0xa6b,0xa6b,0xa6b,0xa6b,0,5},
{0xa6c,0xa6c,0xa6c,0xa6c,0,6},
{0xa6d,0xa6d,0xa6d,0xa6d,0,7},
{0xa6e,0xa6e,0xa6e,0xa6e,0,8},
{0xa6f,0xa6f,0xa6f,0xa6f,0,9},
{0xae7,0xae7,0xae7,0xae7,0,1},
{0xae8,0xae8,0xae8,0xae8,0,2},
{0xae9,0xae9,0xae9,0xae9,0,3},
{0xaea,0xaea,0xaea,0xaea,0,4},
{0xaeb,0xaeb,0xaeb,0xaeb,0,5},
{0xaec,0xaec,0xaec,0xaec,0,6},
{0xaed,0xaed,0xaed,0xaed,0,7},
{0xaee,0xaee,0xaee,0xaee,0,8},
{0xaef,0xaef,0xaef,0xaef,0,9},
{0xb66,0xb66,0xb66,0xb66,0,0},
{0xb67,0xb67,0xb67,0xb67,0,1},
{0xb68,0xb68,0xb68,0xb68,0,2},
{0xb69,0xb69,0xb69,0xb69,0,3},
{0xb6a,0xb6a,0xb6a,0xb6a,0,4},
{0xb6b,0xb6b,0xb6b,0xb6b,0,5},
{0xb6c,0xb6c,0xb6c,0xb6c,0,6},
{0xb6d,0xb6d,0xb6d,0xb6d,0,7},
{0xb6e,0xb6e,0xb6e,0xb6e,0,8},
{0xb6f,0xb6f,0xb6f,0xb6f,0,9},
{0xbe6,0xbe6,0xbe6,0xbe6,0,0},
{0xbe7,0xbe7,0xbe7,0xbe7,0,1},
{0xbe8,0xbe8,0xbe8,0xbe8,0,2},
{0xbe9,0xbe9,0xbe9,0xbe9,0,3},
{0xbea,0xbea,0xbea,0xbea,0,4},
{0xbeb,0xbeb,0xbeb,0xbeb,0,5},
{0xbec,0xbec,0xbec,0xbec,0,6},
{0xbed,0xbed,0xbed,0xbed,0,7},
{0xbee,0xbee,0xbee,0xbee,0,8},
{0xbef,0xbef,0xbef,0xbef,0,9},
{0xc66,0xc66,0xc66,0xc66,0,0},
{0xc67,0xc67,0xc67,0xc67,0,1},
{0xc68,0xc68,0xc68,0xc68,0,2},
{0xc69,0xc69,0xc69,0xc69,0,3},
{0xc6a,0xc6a,0xc6a,0xc6a,0,4},
{0xc6b,0xc6b,0xc6b,0xc6b,0,5},
{0xc6c,0xc6c,0xc6c,0xc6c,0,6},
{0xc6d,0xc6d,0xc6d,0xc6d,0,7},
{0xc6e,0xc6e,0xc6e,0xc6e,0,8},
{0xc6f,0xc6f,0xc6f,0xc6f,0,9},
{0xce6,0xce6,0xce6,0xce6,0,0},
{0xce7,0xce7,0xce7,0xce7,0,1},
{0xce8,0xce8,0xce8,0xce8,0,2},
{0xce9,0xce9,0xce9,0xce9,0,3},
{0xcea,0xcea,0xcea,0xcea,0,4},
{0xceb,0xceb,0xceb,0xceb,0,5},
{0xcec,0xcec,0xcec,0xcec,0,6},
{0xced,0xced,0xced,0xced,0,7},
{0xcee,0xcee,0xcee,0xcee,0,8},
{0xcef,0xcef,0xcef,0xcef,0,9},
{0xd66,0xd66,0xd66,0xd66,0,0},
{0xd67,0xd67,0xd67,0xd67,0,1},
{0xd68,0xd68,0xd68,0xd68,0,2},
{0xd69,0xd69,0xd69,0xd69,0,3},
{0xd6a,0xd6a,0xd6a,0xd6a,0,4},
{0xd6b,0xd6b,0xd6b,0xd6b,0,5},
{0xd6c,0xd6c,0xd6c,0xd6c,0,6},
{0xd6d,0xd6d,0xd6d,0xd6d,0,7},
{0xd6e,0xd6e,0xd6e,0xd6e,0,8},
{0xd6f,0xd6f,0xd6f,0xd6f,0,9},
{0xe50,0xe50,0xe50,0xe50,0,0},
{0xe51,0xe51,0xe51,0xe51,0,1},
{0xe52,0xe52,0xe52,0xe52,0,2},
{0xe53,0xe53,0xe53,0xe53,0,3},
{0xe54,0xe54,0xe54,0xe54,0,4},
{0xe55,0xe55,0xe55,0xe55,0,5},
{0xe56,0xe56,0xe56,0xe56,0,6},
{0xe57,0xe57,0xe57,0xe57,0,7},
{0xe58,0xe58,0xe58,0xe58,0,8},
{0xe59,0xe59,0xe59,0xe59,0,9},
{0xed0,0xed0,0xed0,0xed0,0,0},
{0xed1,0xed1,0xed1,0xed1,0,1},
{0xed2,0xed2,0xed2,0xed2,0,2},
{0xed3,0xed3,0xed3,0xed3,0,3},
{0xed4,0xed4,0xed4,0xed4,0,4},
{0xed5,0xed5,0xed5,0xed5,0,5},
{0xed6,0xed6,0xed6,0xed6,0,6},
{0xed7,0xed7,0xed7,0xed7,0,7},
{0xed8,0xed8,0xed8,0xed8,0,8},
{0xed9,0xed9,0xed9,0xed9,0,9},
{0xf20,0xf20,0xf20,0xf20,0,0},
{0xf21,0xf21,0xf21,0xf21,0,1},
{0xf22,0xf22,0xf22,0xf22,0,2},
{0xf23,0xf23,0xf23,0xf23,0,3},
{0xf24,0xf24,0xf24,0xf24,0,4},
{0xf25,0xf25,0xf25,0xf25,0,5},
{0xf26,0xf26,0xf26,0xf26,0,6},
{0xf27,0xf27,0xf27,0xf27,0,7},
{0xf28,0xf28,0xf28,0xf28,0,8},
{0xf29,0xf29,0xf29,0xf29,0,9},
{0x1040,0x1040,0x1040,0x1040,0,0},
{0x1041,0x1041,0x1041,0x1041,0,1},
{0x1042,0x1042,0x1042,0x1042,0,2},
{0x1043,0x1043,0x1043,0x1043,0,3},
{0x1044,0x1044,0x1044,0x1044,0,4},
{0x1045,0x1045,0x1045,0x1045,0,5},
{0x1046,0x1046,0x1046,0x1046,0,6},
{0x1047,0x1047,0x1047,0x1047,0,7},
{0x1048,0x1048,0x1048,0x1048,0,8},
{0x1049,0x1049,0x1049,0x1049,0,9},
{0x10a0,0x10a0,0x10a0,0x10a0,1,-1},
{0x10a1,0x10a1,0x10a1,0x10a1,1,-1},
{0x10a2,0x10a2,0x10a2,0x10a2,1,-1},
{0x10a3,0x10a3,0x10a3,0x10a3,1,-1},
{0x10a4,0x10a4,0x10a4,0x10a4,1,-1},
{0x10a5,0x10a5,0x10a5,0x10a5,1,-1},
{0x10a6,0x10a6,0x10a6,0x10a6,1,-1},
{0x10a7,0x10a7,0x10a7,0x10a7,1,-1},
{0x10a8,0x10a8,0x10a8,0x10a8,1,-1},
{0x10a9,0x10a9,0x10a9,0x10a9,1,-1},
{0x10aa,0x10aa,0x10aa,0x10aa,1,-1},
{0x10ab,0x10ab,0x10ab,0x10ab,1,-1},
{0x10ac,0x10ac,0x10ac,0x10ac,1,-1},
{0x10ad,0x10ad,0x10ad,0x10ad,1,-1},
{0x10ae,0x10ae,0x10ae,0x10ae,1,-1},
{0x10af,0x10af,0x10af,0x10af,1,-1},
{0x10b0,0x10b0,0x10b0,0x10b0,1,-1},
{0x10b1,0x10b1,0x10b1,0x10b1,1,-1},
{0x10b2,0x10b2,0x10b2,0x10b2,1,-1},
{0x10b3,0x10b3,0x10b3,0x10b3,1,-1},
{0x10b4,0x10b4,0x10b4,0x10b4,1,-1},
{0x10b5,0x10b5,0x10b5,0x10b5,1,-1},
{0x10b6,0x10b6,0x10b6,0x10b6,1,-1},
{0x10b7,0x10b7,0x10b7,0x10b7,1,-1},
{0x10b8,0x10b8,0x10b8,0x10b8,1,-1},
{0x10b9,0x10b9,0x10b9,0x10b9,1,-1},
{0x10ba,0x10ba,0x10ba,0x10ba,1,-1},
{0x10bb,0x10bb,0x10bb,0x10bb,1,-1},
{0x10bc,0x10bc,0x10bc,0x10bc,1,-1},
{0x10bd,0x10bd,0x10bd,0x10bd,1,-1},
{0x10be,0x10be,0x10be,0x10be,1,-1},
{0x10bf,0x10bf,0x10bf,0x10bf,1,-1},
{0x10c0,0x10c0,0x10c0,0x10c0,1,-1},
{0x10c1,0x10c1,0x10c1,0x10c1,1,-1},
{0x10c2,0x10c2,0x10c2,0x10c2,1,-1},
{0x10c3,0x10c3,0x10c3,0x10c3,1,-1},
{0x10c4,0x10c4,0x10c4,0x10c4,1,-1},
{0x10c5,0x10c5,0x10c5,0x10c5,1,-1},
{0x1369,0x1369,0x1369,0x1369,0,1},
{0x136a,0x136a,0x136a,0x136a,0,2},
{0x136b,0x136b,0x136b,0x136b,0,3},
{0x136c,0x136c,0x136c,0x136c,0,4},
{0x136d,0x136d,0x136d,0x136d,0,5},
{0x136e,0x136e,0x136e,0x136e,0,6},
{0x136f,0x136f,0x136f,0x136f,0,7},
{0x1370,0x1370,0x1370,0x1370,0,8},
{0x1371,0x1371,0x1371,0x1371,0,9},
{0x17e0,0x17e0,0x17e0,0x17e0,0,0},
{0x17e1,0x17e1,0x17e1,0x17e1,0,1},
{0x17e2,0x17e2,0x17e2,0x17e2,0,2},
{0x17e3,0x17e3,0x17e3,0x17e3,0,3},
{0x17e4,0x17e4,0x17e4,0x17e4,0,4},
{0x17e5,0x17e5,0x17e5,0x17e5,0,5},
{0x17e6,0x17e6,0x17e6,0x17e6,0,6},
{0x17e7,0x17e7,0x17e7,0x17e7,0,7},
{0x17e8,0x17e8,0x17e8,0x17e8,0,8},
{0x17e9,0x17e9,0x17e9,0x17e9,0,9},
{0x1810,0x1810,0x1810,0x1810,0,0},
{0x1811,0x1811,0x1811,0x1811,0,1},
{0x1812,0x1812,0x1812,0x1812,0,2},
{0x1813,0x1813,0x1813,0x1813,0,3},
{0x1814,0x1814,0x1814,0x1814,0,4},
{0x1815,0x1815,0x1815,0x1815,0,5},
{0x1816,0x1816,0x1816,0x1816,0,6},
{0x1817,0x1817,0x1817,0x1817,0,7},
{0x1818,0x1818,0x1818,0x1818,0,8},
{0x1819,0x1819,0x1819,0x1819,0,9},
{0x1e00,0x1e00,0x1e01,0x1e00,1,-1},
{0x1e01,0x1e00,0x1e01,0x1e00,1,-1},
{0x1e02,0x1e02,0x1e03,0x1e02,1,-1},
{0x1e03,0x1e02,0x1e03,0x1e02,1,-1},
{0x1e04,0x1e04,0x1e05,0x1e04,1,-1},
{0x1e05,0x1e04,0x1e05,0x1e04,1,-1},
{0x1e06,0x1e06,0x1e07,0x1e06,1,-1},
{0x1e07,0x1e06,0x1e07,0x1e06,1,-1},
{0x1e08,0x1e08,0x1e09,0x1e08,1,-1},
{0x1e09,0x1e08,0x1e09,0x1e08,1,-1},
{0x1e0a,0x1e0a,0x1e0b,0x1e0a,1,-1},
{0x1e0b,0x1e0a,0x1e0b,0x1e0a,1,-1},
{0x1e0c,0x1e0c,0x1e0d,0x1e0c,1,-1},
{0x1e0d,0x1e0c,0x1e0d,0x1e0c,1,-1},
{0x1e0e,0x1e0e,0x1e0f,0x1e0e,1,-1},
{0x1e0f,0x1e0e,0x1e0f,0x1e0e,1,-1},
{0x1e10,0x1e10,0x1e11,0x1e10,1,-1},
{0x1e11,0x1e10,0x1e11,0x1e10,1,-1},
{0x1e12,0x1e12,0x1e13,0x1e12,1,-1},
{0x1e13,0x1e12,0x1e13,0x1e12,1,-1},
{0x1e14,0x1e14,0x1e15,0x1e14,1,-1},
{0x1e15,0x1e14,0x1e15,0x1e14,1,-1},
{0x1e16,0x1e16,0x1e17,0x1e16,1,-1},
{0x1e17,0x1e16,0x1e17,0x1e16,1,-1},
{0x1e18,0x1e18,0x1e19,0x1e18,1,-1},
{0x1e19,0x1e18,0x1e19,0x1e18,1,-1},
{0x1e1a,0x1e1a,0x1e1b,0x1e1a,1,-1},
{0x1e1b,0x1e1a,0x1e1b,0x1e1a,1,-1},
{0x1e1c,0x1e1c,0x1e1d,0x1e1c,1,-1},
{0x1e1d,0x1e1c,0x1e1d,0x1e1c,1,-1},
{0x1e1e,0x1e1e,0x1e1f,0x1e1e,1,-1},
{0x1e1f,0x1e1e,0x1e1f,0x1e1e,1,-1},
{0x1e20,0x1e20,0x1e21,0x1e20,1,-1},
{0x1e21,0x1e20,0x1e21,0x1e20,1,-1},
{0x1e22,0x1e22,0x1e23,0x1e22,1,-1},
{0x1e23,0x1e22,0x1e23,0x1e22,1,-1},
{0x1e24,0x1e24,0x1e25,0x1e24,1,-1},
{0x1e25,0x1e24,0x1e25,0x1e24,1,-1},
{0x1e26,0x1e26,0x1e27,0x1e26,1,-1},
{0x1e27,0x1e26,0x1e27,0x1e26,1,-1},
{0x1e28,0x1e28,0x1e29,0x1e28,1,-1},
{0x1e29,0x1e28,0x1e29,0x1e28,1,-1},
{0x1e2a,0x1e2a,0x1e2b,0x1e2a,1,-1},
{0x1e2b,0x1e2a,0x1e2b,0x1e2a,1,-1},
{0x1e2c,0x1e2c,0x1e2d,0x1e2c,1,-1},
{0x1e2d,0x1e2c,0x1e2d,0x1e2c,1,-1},
{0x1e2e,0x1e2e,0x1e2f,0x1e2e,1,-1},
{0x1e2f,0x1e2e,0x1e2f,0x1e2e,1,-1},
{0x1e30,0x1e30,0x1e31,0x1e30,1,-1},
{0x1e31,0x1e30,0x1e31,0x1e30,1,-1},
{0x1e32,0x1e32,0x1e33,0x1e32,1,-1},
{0x1e33,0x1e32,0x1e33,0x1e32,1,-1},
{0x1e34,0x1e34,0x1e35,0x1e34,1,-1},
{0x1e35,0x1e34,0x1e35,0x1e34,1,-1},
{0x1e36,0x1e36,0x1e37,0x1e36,1,-1},
{0x1e37,0x1e36,0x1e37,0x1e36,1,-1},
{0x1e38,0x1e38,0x1e39,0x1e38,1,-1},
{0x1e39,0x1e38,0x1e39,0x1e38,1,-1},
{0x1e3a,0x1e3a,0x1e3b,0x1e3a,1,-1},
{0x1e3b,0x1e3a,0x1e3b,0x1e3a,1,-1},
{0x1e3c,0x1e3c,0x1e3d,0x1e3c,1,-1},
{0x1e3d,0x1e3c,0x1e3d,0x1e3c,1,-1},
{0x1e3e,0x1e3e,0x1e3f,0x1e3e,1,-1},
{0x1e3f,0x1e3e,0x1e3f,0x1e3e,1,-1},
{0x1e40,0x1e40,0x1e41,0x1e40,1,-1},
{0x1e41,0x1e40,0x1e41,0x1e40,1,-1},
{0x1e42,0x1e42,0x1e43,0x1e42,1,-1},
{0x1e43,0x1e42,0x1e43,0x1e42,1,-1},
{0x1e44,0x1e44,0x1e45,0x1e44,1,-1},
{0x1e45,0x1e44,0x1e45,0x1e44,1,-1},
{0x1e46,0x1e46,0x1e47,0x1e46,1,-1},
{0x1e47,0x1e46,0x1e47,0x1e46,1,-1},
{0x1e48,0x1e48,0x1e49,0x1e48,1,-1},
{0x1e49,0x1e48,0x1e49,0x1e48,1,-1},
{0x1e4a,0x1e4a,0x1e4b,0x1e4a,1,-1},
{0x1e4b,0x1e4a,0x1e4b,0x1e4a,1,-1},
{0x1e4c,0x1e4c,0x1e4d,0x1e4c,1,-1},
{0x1e4d,0x1e4c,0x1e4d,0x1e4c,1,-1},
{0x1e4e,0x1e4e,0x1e4f,0x1e4e,1,-1},
{0x1e4f,0x1e4e,0x1e4f,0x1e4e,1,-1},
{0x1e50,0x1e50,0x1e51,0x1e50,1,-1},
{0x1e51,0x1e50,0x1e51,0x1e50,1,-1},
{0x1e52,0x1e52,0x1e53,0x1e52,1,-1},
{0x1e53,0x1e52,0x1e53,0x1e52,1,-1},
{0x1e54,0x1e54,0x1e55,0x1e54,1,-1},
{0x1e55,0x1e54,0x1e55,0x1e54,1,-1},
{0x1e56,0x1e56,0x1e57,0x1e56,1,-1},
{0x1e57,0x1e56,0x1e57,0x1e56,1,-1},
{0x1e58,0x1e58,0x1e59,0x1e58,1,-1},
{0x1e59,0x1e58,0x1e59,0x1e58,1,-1},
{0x1e5a,0x1e5a,0x1e5b,0x1e5a,1,-1},
{0x1e5b,0x1e5a,0x1e5b,0x1e5a,1,-1},
{0x1e5c,0x1e5c,0x1e5d,0x1e5c,1,-1},
{0x1e5d,0x1e5c,0x1e5d,0x1e5c,1,-1},
{0x1e5e,0x1e5e,0x1e5f,0x1e5e,1,-1},
{0x1e5f,0x1e5e,0x1e5f,0x1e5e,1,-1},
{0x1e60,0x1e60,0x1e61,0x1e60,1,-1},
{0x1e61,0x1e60,0x1e61,0x1e60,1,-1},
{0x1e62,0x1e62,0x1e63,0x1e62,1,-1},
{0x1e63,0x1e62,0x1e63,0x1e62,1,-1},
{0x1e64,0x1e64,0x1e65,0x1e64,1,-1},
{0x1e65,0x1e64,0x1e65,0x1e64,1,-1},
{0x1e66,0x1e66,0x1e67,0x1e66,1,-1},
{0x1e67,0x1e66,0x1e67,0x1e66,1,-1},
{0x1e68,0x1e68,0x1e69,0x1e68,1,-1},
{0x1e69,0x1e68,0x1e69,0x1e68,1,-1},
{0x1e6a,0x1e6a,0x1e6b,0x1e6a,1,-1},
{0x1e6b,0x1e6a,0x1e6b,0x1e6a,1,-1},
{0x1e6c,0x1e6c,0x1e6d,0x1e6c,1,-1},
{0x1e6d,0x1e6c,0x1e6d,0x1e6c,1,-1},
{0x1e6e,0x1e6e,0x1e6f,0x1e6e,1,-1},
{0x1e6f,0x1e6e,0x1e6f,0x1e6e,1,-1},
{0x1e70,0x1e70,0x1e71,0x1e70,1,-1},
{0x1e71,0x1e70,0x1e71,0x1e70,1,-1},
{0x1e72,0x1e72,0x1e73,0x1e72,1,-1},
{0x1e73,0x1e72,0x1e73,0x1e72,1,-1},
{0x1e74,0x1e74,0x1e75,0x1e74,1,-1},
{0x1e75,0x1e74,0x1e75,0x1e74,1,-1},
{0x1e76,0x1e76,0x1e77,0x1e76,1,-1},
{0x1e77,0x1e76,0x1e77,0x1e76,1,-1},
{0x1e78,0x1e78,0x1e79,0x1e78,1,-1},
{0x1e79,0x1e78,0x1e79,0x1e78,1,-1},
{0x1e7a,0x1e7a,0x1e7b,0x1e7a,1,-1},
{0x1e7b,0x1e7a,0x1e7b,0x1e7a,1,-1},
{0x1e7c,0x1e7c,0x1e7d,0x1e7c,1,-1},
{0x1e7d,0x1e7c,0x1e7d,0x1e7c,1,-1},
{0x1e7e,0x1e7e,0x1e7f,0x1e7e,1,-1},
{0x1e7f,0x1e7e,0x1e7f,0x1e7e,1,-1},
{0x1e80,0x1e80,0x1e81,0x1e80,1,-1},
{0x1e81,0x1e80,0x1e81,0x1e80,1,-1},
{0x1e82,0x1e82,0x1e83,0x1e82,1,-1},
{0x1e83,0x1e82,0x1e83,0x1e82,1,-1},
{0x1e84,0x1e84,0x1e85,0x1e84,1,-1},
{0x1e85,0x1e84,0x1e85,0x1e84,1,-1},
{0x1e86,0x1e86,0x1e87,0x1e86,1,-1},
{0x1e87,0x1e86,0x1e87,0x1e86,1,-1},
{0x1e88,0x1e88,0x1e89,0x1e88,1,-1},
{0x1e89,0x1e88,0x1e89,0x1e88,1,-1},
{0x1e8a,0x1e8a,0x1e8b,0x1e8a,1,-1},
{0x1e8b,0x1e8a,0x1e8b,0x1e8a,1,-1},
{0x1e8c,0x1e8c,0x1e8d,0x1e8c,1,-1},
{0x1e8d,0x1e8c,0x1e8d,0x1e8c,1,-1},
{0x1e8e,0x1e8e,0x1e8f,0x1e8e,1,-1},
{0x1e8f,0x1e8e,0x1e8f,0x1e8e,1,-1},
{0x1e90,0x1e90,0x1e91,0x1e90,1,-1},
{0x1e91,0x1e90,0x1e91,0x1e90,1,-1},
{0x1e92,0x1e92,0x1e93,0x1e92,1,-1},
{0x1e93,0x1e92,0x1e93,0x1e92,1,-1},
{0x1e94,0x1e94,0x1e95,0x1e94,1,-1},
{0x1e95,0x1e94,0x1e95,0x1e94,1,-1},
{0x1e96,0x1e96,0x1e96,0x1e96,1,-1},
{0x1e97,0x1e97,0x1e97,0x1e97,1,-1},
{0x1e98,0x1e98,0x1e98,0x1e98,1,-1},
{0x1e99,0x1e99,0x1e99,0x1e99,1,-1},
{0x1e9a,0x1e9a,0x1e9a,0x1e9a,1,-1},
{0x1e9b,0x1e60,0x1e9b,0x1e60,1,-1},
{0x1ea0,0x1ea0,0x1ea1,0x1ea0,1,-1},
{0x1ea1,0x1ea0,0x1ea1,0x1ea0,1,-1},
{0x1ea2,0x1ea2,0x1ea3,0x1ea2,1,-1},
{0x1ea3,0x1ea2,0x1ea3,0x1ea2,1,-1},
{0x1ea4,0x1ea4,0x1ea5,0x1ea4,1,-1},
{0x1ea5,0x1ea4,0x1ea5,0x1ea4,1,-1},
{0x1ea6,0x1ea6,0x1ea7,0x1ea6,1,-1},
{0x1ea7,0x1ea6,0x1ea7,0x1ea6,1,-1},
{0x1ea8,0x1ea8,0x1ea9,0x1ea8,1,-1},
{0x1ea9,0x1ea8,0x1ea9,0x1ea8,1,-1},
{0x1eaa,0x1eaa,0x1eab,0x1eaa,1,-1},
{0x1eab,0x1eaa,0x1eab,0x1eaa,1,-1},
{0x1eac,0x1eac,0x1ead,0x1eac,1,-1},
{0x1ead,0x1eac,0x1ead,0x1eac,1,-1},
{0x1eae,0x1eae,0x1eaf,0x1eae,1,-1},
{0x1eaf,0x1eae,0x1eaf,0x1eae,1,-1},
{0x1eb0,0x1eb0,0x1eb1,0x1eb0,1,-1},
{0x1eb1,0x1eb0,0x1eb1,0x1eb0,1,-1},
{0x1eb2,0x1eb2,0x1eb3,0x1eb2,1,-1},
{0x1eb3,0x1eb2,0x1eb3,0x1eb2,1,-1},
{0x1eb4,0x1eb4,0x1eb5,0x1eb4,1,-1},
{0x1eb5,0x1eb4,0x1eb5,0x1eb4,1,-1},
{0x1eb6,0x1eb6,0x1eb7,0x1eb6,1,-1},
{0x1eb7,0x1eb6,0x1eb7,0x1eb6,1,-1},
{0x1eb8,0x1eb8,0x1eb9,0x1eb8,1,-1},
{0x1eb9,0x1eb8,0x1eb9,0x1eb8,1,-1},
{0x1eba,0x1eba,0x1ebb,0x1eba,1,-1},
{0x1ebb,0x1eba,0x1ebb,0x1eba,1,-1},
{0x1ebc,0x1ebc,0x1ebd,0x1ebc,1,-1},
{0x1ebd,0x1ebc,0x1ebd,0x1ebc,1,-1},
{0x1ebe,0x1ebe,0x1ebf,0x1ebe,1,-1},
{0x1ebf,0x1ebe,0x1ebf,0x1ebe,1,-1},
{0x1ec0,0x1ec0,0x1ec1,0x1ec0,1,-1},
{0x1ec1,0x1ec0,0x1ec1,0x1ec0,1,-1},
{0x1ec2,0x1ec2,0x1ec3,0x1ec2,1,-1},
{0x1ec3,0x1ec2,0x1ec3,0x1ec2,1,-1},
{0x1ec4,0x1ec4,0x1ec5,0x1ec4,1,-1},
{0x1ec5,0x1ec4,0x1ec5,0x1ec4,1,-1},
{0x1ec6,0x1ec6,0x1ec7,0x1ec6,1,-1},
{0x1ec7,0x1ec6,0x1ec7,0x1ec6,1,-1},
{0x1ec8,0x1ec8,0x1ec9,0x1ec8,1,-1},
{0x1ec9,0x1ec8,0x1ec9,0x1ec8,1,-1},
{0x1eca,0x1eca,0x1ecb,0x1eca,1,-1},
{0x1ecb,0x1eca,0x1ecb,0x1eca,1,-1},
{0x1ecc,0x1ecc,0x1ecd,0x1ecc,1,-1},
{0x1ecd,0x1ecc,0x1ecd,0x1ecc,1,-1},
{0x1ece,0x1ece,0x1ecf,0x1ece,1,-1},
{0x1ecf,0x1ece,0x1ecf,0x1ece,1,-1},
{0x1ed0,0x1ed0,0x1ed1,0x1ed0,1,-1},
{0x1ed1,0x1ed0,0x1ed1,0x1ed0,1,-1},
{0x1ed2,0x1ed2,0x1ed3,0x1ed2,1,-1},
{0x1ed3,0x1ed2,0x1ed3,0x1ed2,1,-1},
{0x1ed4,0x1ed4,0x1ed5,0x1ed4,1,-1},
{0x1ed5,0x1ed4,0x1ed5,0x1ed4,1,-1},
{0x1ed6,0x1ed6,0x1ed7,0x1ed6,1,-1},
{0x1ed7,0x1ed6,0x1ed7,0x1ed6,1,-1},
{0x1ed8,0x1ed8,0x1ed9,0x1ed8,1,-1},
{0x1ed9,0x1ed8,0x1ed9,0x1ed8,1,-1},
{0x1eda,0x1eda,0x1edb,0x1eda,1,-1},
{0x1edb,0x1eda,0x1edb,0x1eda,1,-1},
{0x1edc,0x1edc,0x1edd,0x1edc,1,-1},
{0x1edd,0x1edc,0x1edd,0x1edc,1,-1},
{0x1ede,0x1ede,0x1edf,0x1ede,1,-1},
{0x1edf,0x1ede,0x1edf,0x1ede,1,-1},
{0x1ee0,0x1ee0,0x1ee1,0x1ee0,1,-1},
{0x1ee1,0x1ee0,0x1ee1,0x1ee0,1,-1},
{0x1ee2,0x1ee2,0x1ee3,0x1ee2,1,-1},
{0x1ee3,0x1ee2,0x1ee3,0x1ee2,1,-1},
{0x1ee4,0x1ee4,0x1ee5,0x1ee4,1,-1},
{0x1ee5,0x1ee4,0x1ee5,0x1ee4,1,-1},
{0x1ee6,0x1ee6,0x1ee7,0x1ee6,1,-1},
{0x1ee7,0x1ee6,0x1ee7,0x1ee6,1,-1},
{0x1ee8,0x1ee8,0x1ee9,0x1ee8,1,-1},
{0x1ee9,0x1ee8,0x1ee9,0x1ee8,1,-1},
{0x1eea,0x1eea,0x1eeb,0x1eea,1,-1},
{0x1eeb,0x1eea,0x1eeb,0x1eea,1,-1},
{0x1eec,0x1eec,0x1eed,0x1eec,1,-1},
{0x1eed,0x1eec,0x1eed,0x1eec,1,-1},
{0x1eee,0x1eee,0x1eef,0x1eee,1,-1},
{0x1eef,0x1eee,0x1eef,0x1eee,1,-1},
{0x1ef0,0x1ef0,0x1ef1,0x1ef0,1,-1},
{0x1ef1,0x1ef0,0x1ef1,0x1ef0,1,-1},
{0x1ef2,0x1ef2,0x1ef3,0x1ef2,1,-1},
{0x1ef3,0x1ef2,0x1ef3,0x1ef2,1,-1},
{0x1ef4,0x1ef4,0x1ef5,0x1ef4,1,-1},
{0x1ef5,0x1ef4,0x1ef5,0x1ef4,1,-1},
{0x1ef6,0x1ef6,0x1ef7,0x1ef6,1,-1},
{0x1ef7,0x1ef6,0x1ef7,0x1ef6,1,-1},
{0x1ef8,0x1ef8,0x1ef9,0x1ef8,1,-1},
{0x1ef9,0x1ef8,0x1ef9,0x1ef8,1,-1},
{0x1f00,0x1f08,0x1f00,0x1f08,1,-1},
{0x1f01,0x1f09,0x1f01,0x1f09,1,-1},
{0x1f02,0x1f0a,0x1f02,0x1f0a,1,-1},
{0x1f03,0x1f0b,0x1f03,0x1f0b,1,-1},
{0x1f04,0x1f0c,0x1f04,0x1f0c,1,-1},
{0x1f05,0x1f0d,0x1f05,0x1f0d,1,-1},
{0x1f06,0x1f0e,0x1f06,0x1f0e,1,-1},
{0x1f07,0x1f0f,0x1f07,0x1f0f,1,-1},
{0x1f08,0x1f08,0x1f00,0x1f08,1,-1},
{0x1f09,0x1f09,0x1f01,0x1f09,1,-1},
{0x1f0a,0x1f0a,0x1f02,0x1f0a,1,-1},
{0x1f0b,0x1f0b,0x1f03,0x1f0b,1,-1},
{0x1f0c,0x1f0c,0x1f04,0x1f0c,1,-1},
{0x1f0d,0x1f0d,0x1f05,0x1f0d,1,-1},
{0x1f0e,0x1f0e,0x1f06,0x1f0e,1,-1},
{0x1f0f,0x1f0f,0x1f07,0x1f0f,1,-1},
{0x1f10,0x1f18,0x1f10,0x1f18,1,-1},
{0x1f11,0x1f19,0x1f11,0x1f19,1,-1},
{0x1f12,0x1f1a,0x1f12,0x1f1a,1,-1},
{0x1f13,0x1f1b,0x1f13,0x1f1b,1,-1},
{0x1f14,0x1f1c,0x1f14,0x1f1c,1,-1},
{0x1f15,0x1f1d,0x1f15,0x1f1d,1,-1},
{0x1f18,0x1f18,0x1f10,0x1f18,1,-1},
{0x1f19,0x1f19,0x1f11,0x1f19,1,-1},
{0x1f1a,0x1f1a,0x1f12,0x1f1a,1,-1},
{0x1f1b,0x1f1b,0x1f13,0x1f1b,1,-1},
{0x1f1c,0x1f1c,0x1f14,0x1f1c,1,-1},
{0x1f1d,0x1f1d,0x1f15,0x1f1d,1,-1},
{0x1f20,0x1f28,0x1f20,0x1f28,1,-1},
{0x1f21,0x1f29,0x1f21,0x1f29,1,-1},
{0x1f22,0x1f2a,0x1f22,0x1f2a,1,-1},
{0x1f23,0x1f2b,0x1f23,0x1f2b,1,-1},
{0x1f24,0x1f2c,0x1f24,0x1f2c,1,-1},
{0x1f25,0x1f2d,0x1f25,0x1f2d,1,-1},
{0x1f26,0x1f2e,0x1f26,0x1f2e,1,-1},
{0x1f27,0x1f2f,0x1f27,0x1f2f,1,-1},
{0x1f28,0x1f28,0x1f20,0x1f28,1,-1},
{0x1f29,0x1f29,0x1f21,0x1f29,1,-1},
{0x1f2a,0x1f2a,0x1f22,0x1f2a,1,-1},
{0x1f2b,0x1f2b,0x1f23,0x1f2b,1,-1},
{0x1f2c,0x1f2c,0x1f24,0x1f2c,1,-1},
{0x1f2d,0x1f2d,0x1f25,0x1f2d,1,-1},
{0x1f2e,0x1f2e,0x1f26,0x1f2e,1,-1},
{0x1f2f,0x1f2f,0x1f27,0x1f2f,1,-1},
{0x1f30,0x1f38,0x1f30,0x1f38,1,-1},
{0x1f31,0x1f39,0x1f31,0x1f39,1,-1},
{0x1f32,0x1f3a,0x1f32,0x1f3a,1,-1},
{0x1f33,0x1f3b,0x1f33,0x1f3b,1,-1},
{0x1f34,0x1f3c,0x1f34,0x1f3c,1,-1},
{0x1f35,0x1f3d,0x1f35,0x1f3d,1,-1},
{0x1f36,0x1f3e,0x1f36,0x1f3e,1,-1},
{0x1f37,0x1f3f,0x1f37,0x1f3f,1,-1},
{0x1f38,0x1f38,0x1f30,0x1f38,1,-1},
{0x1f39,0x1f39,0x1f31,0x1f39,1,-1},
{0x1f3a,0x1f3a,0x1f32,0x1f3a,1,-1},
{0x1f3b,0x1f3b,0x1f33,0x1f3b,1,-1},
{0x1f3c,0x1f3c,0x1f34,0x1f3c,1,-1},
{0x1f3d,0x1f3d,0x1f35,0x1f3d,1,-1},
{0x1f3e,0x1f3e,0x1f36,0x1f3e,1,-1},
{0x1f3f,0x1f3f,0x1f37,0x1f3f,1,-1},
{0x1f40,0x1f48,0x1f40,0x1f48,1,-1},
{0x1f41,0x1f49,0x1f41,0x1f49,1,-1},
{0x1f42,0x1f4a,0x1f42,0x1f4a,1,-1},
{0x1f43,0x1f4b,0x1f43,0x1f4b,1,-1},
{0x1f44,0x1f4c,0x1f44,0x1f4c,1,-1},
{0x1f45,0x1f4d,0x1f45,0x1f4d,1,-1},
{0x1f48,0x1f48,0x1f40,0x1f48,1,-1},
{0x1f49,0x1f49,0x1f41,0x1f49,1,-1},
{0x1f4a,0x1f4a,0x1f42,0x1f4a,1,-1},
{0x1f4b,0x1f4b,0x1f43,0x1f4b,1,-1},
{0x1f4c,0x1f4c,0x1f44,0x1f4c,1,-1},
{0x1f4d,0x1f4d,0x1f45,0x1f4d,1,-1},
{0x1f50,0x1f50,0x1f50,0x1f50,1,-1},
{0x1f51,0x1f59,0x1f51,0x1f59,1,-1},
{0x1f52,0x1f52,0x1f52,0x1f52,1,-1},
{0x1f53,0x1f5b,0x1f53,0x1f5b,1,-1},
{0x1f54,0x1f54,0x1f54,0x1f54,1,-1},
{0x1f55,0x1f5d,0x1f55,0x1f5d,1,-1},
{0x1f56,0x1f56,0x1f56,0x1f56,1,-1},
{0x1f57,0x1f5f,0x1f57,0x1f5f,1,-1},
{0x1f59,0x1f59,0x1f51,0x1f59,1,-1},
{0x1f5b,0x1f5b,0x1f53,0x1f5b,1,-1},
{0x1f5d,0x1f5d,0x1f55,0x1f5d,1,-1},
{0x1f5f,0x1f5f,0x1f57,0x1f5f,1,-1},
{0x1f60,0x1f68,0x1f60,0x1f68,1,-1},
{0x1f61,0x1f69,0x1f61,0x1f69,1,-1},
{0x1f62,0x1f6a,0x1f62,0x1f6a,1,-1},
{0x1f63,0x1f6b,0x1f63,0x1f6b,1,-1},
{0x1f64,0x1f6c,0x1f64,0x1f6c,1,-1},
{0x1f65,0x1f6d,0x1f65,0x1f6d,1,-1},
{0x1f66,0x1f6e,0x1f66,0x1f6e,1,-1},
{0x1f67,0x1f6f,0x1f67,0x1f6f,1,-1},
{0x1f68,0x1f68,0x1f60,0x1f68,1,-1},
{0x1f69,0x1f69,0x1f61,0x1f69,1,-1},
{0x1f6a,0x1f6a,0x1f62,0x1f6a,1,-1},
{0x1f6b,0x1f6b,0x1f63,0x1f6b,1,-1},
{0x1f6c,0x1f6c,0x1f64,0x1f6c,1,-1},
{0x1f6d,0x1f6d,0x1f65,0x1f6d,1,-1},
{0x1f6e,0x1f6e,0x1f66,0x1f6e,1,-1},
{0x1f6f,0x1f6f,0x1f67,0x1f6f,1,-1},
{0x1f70,0x1fba,0x1f70,0x1fba,1,-1},
{0x1f71,0x1fbb,0x1f71,0x1fbb,1,-1},
{0x1f72,0x1fc8,0x1f72,0x1fc8,1,-1},
{0x1f73,0x1fc9,0x1f73,0x1fc9,1,-1},
{0x1f74,0x1fca,0x1f74,0x1fca,1,-1},
{0x1f75,0x1fcb,0x1f75,0x1fcb,1,-1},
{0x1f76,0x1fda,0x1f76,0x1fda,1,-1},
{0x1f77,0x1fdb,0x1f77,0x1fdb,1,-1},
{0x1f78,0x1ff8,0x1f78,0x1ff8,1,-1},
{0x1f79,0x1ff9,0x1f79,0x1ff9,1,-1},
{0x1f7a,0x1fea,0x1f7a,0x1fea,1,-1},
{0x1f7b,0x1feb,0x1f7b,0x1feb,1,-1},
{0x1f7c,0x1ffa,0x1f7c,0x1ffa,1,-1},
{0x1f7d,0x1ffb,0x1f7d,0x1ffb,1,-1},
{0x1f80,0x1f88,0x1f80,0x1f88,1,-1},
{0x1f81,0x1f89,0x1f81,0x1f89,1,-1},
{0x1f82,0x1f8a,0x1f82,0x1f8a,1,-1},
{0x1f83,0x1f8b,0x1f83,0x1f8b,1,-1},
{0x1f84,0x1f8c,0x1f84,0x1f8c,1,-1},
{0x1f85,0x1f8d,0x1f85,0x1f8d,1,-1},
{0x1f86,0x1f8e,0x1f86,0x1f8e,1,-1},
{0x1f87,0x1f8f,0x1f87,0x1f8f,1,-1},
{0x1f88,0x1f88,0x1f80,0x1f88,1,-1},
{0x1f89,0x1f89,0x1f81,0x1f89,1,-1},
{0x1f8a,0x1f8a,0x1f82,0x1f8a,1,-1},
{0x1f8b,0x1f8b,0x1f83,0x1f8b,1,-1},
{0x1f8c,0x1f8c,0x1f84,0x1f8c,1,-1},
{0x1f8d,0x1f8d,0x1f85,0x1f8d,1,-1},
{0x1f8e,0x1f8e,0x1f86,0x1f8e,1,-1},
{0x1f8f,0x1f8f,0x1f87,0x1f8f,1,-1},
{0x1f90,0x1f98,0x1f90,0x1f98,1,-1},
{0x1f91,0x1f99,0x1f91,0x1f99,1,-1},
{0x1f92,0x1f9a,0x1f92,0x1f9a,1,-1},
{0x1f93,0x1f9b,0x1f93,0x1f9b,1,-1},
{0x1f94,0x1f9c,0x1f94,0x1f9c,1,-1},
{0x1f95,0x1f9d,0x1f95,0x1f9d,1,-1},
{0x1f96,0x1f9e,0x1f96,0x1f9e,1,-1},
{0x1f97,0x1f9f,0x1f97,0x1f9f,1,-1},
{0x1f98,0x1f98,0x1f90,0x1f98,1,-1},
{0x1f99,0x1f99,0x1f91,0x1f99,1,-1},
{0x1f9a,0x1f9a,0x1f92,0x1f9a,1,-1},
{0x1f9b,0x1f9b,0x1f93,0x1f9b,1,-1},
{0x1f9c,0x1f9c,0x1f94,0x1f9c,1,-1},
{0x1f9d,0x1f9d,0x1f95,0x1f9d,1,-1},
{0x1f9e,0x1f9e,0x1f96,0x1f9e,1,-1},
{0x1f9f,0x1f9f,0x1f97,0x1f9f,1,-1},
{0x1fa0,0x1fa8,0x1fa0,0x1fa8,1,-1},
{0x1fa1,0x1fa9,0x1fa1,0x1fa9,1,-1},
{0x1fa2,0x1faa,0x1fa2,0x1faa,1,-1},
{0x1fa3,0x1fab,0x1fa3,0x1fab,1,-1},
{0x1fa4,0x1fac,0x1fa4,0x1fac,1,-1},
{0x1fa5,0x1fad,0x1fa5,0x1fad,1,-1},
{0x1fa6,0x1fae,0x1fa6,0x1fae,1,-1},
{0x1fa7,0x1faf,0x1fa7,0x1faf,1,-1},
{0x1fa8,0x1fa8,0x1fa0,0x1fa8,1,-1},
{0x1fa9,0x1fa9,0x1fa1,0x1fa9,1,-1},
{0x1faa,0x1faa,0x1fa2,0x1faa,1,-1},
{0x1fab,0x1fab,0x1fa3,0x1fab,1,-1},
{0x1fac,0x1fac,0x1fa4,0x1fac,1,-1},
{0x1fad,0x1fad,0x1fa5,0x1fad,1,-1},
{0x1fae,0x1fae,0x1fa6,0x1fae,1,-1},
{0x1faf,0x1faf,0x1fa7,0x1faf,1,-1},
{0x1fb0,0x1fb8,0x1fb0,0x1fb8,1,-1},
{0x1fb1,0x1fb9,0x1fb1,0x1fb9,1,-1},
{0x1fb2,0x1fb2,0x1fb2,0x1fb2,1,-1},
{0x1fb3,0x1fbc,0x1fb3,0x1fbc,1,-1},
{0x1fb4,0x1fb4,0x1fb4,0x1fb4,1,-1},
{0x1fb6,0x1fb6,0x1fb6,0x1fb6,1,-1},
{0x1fb7,0x1fb7,0x1fb7,0x1fb7,1,-1},
{0x1fb8,0x1fb8,0x1fb0,0x1fb8,1,-1},
{0x1fb9,0x1fb9,0x1fb1,0x1fb9,1,-1},
{0x1fba,0x1fba,0x1f70,0x1fba,1,-1},
{0x1fbb,0x1fbb,0x1f71,0x1fbb,1,-1},
{0x1fbc,0x1fbc,0x1fb3,0x1fbc,1,-1},
{0x1fbe,0x399,0x1fbe,0x399,1,-1},
{0x1fc2,0x1fc2,0x1fc2,0x1fc2,1,-1},
{0x1fc3,0x1fcc,0x1fc3,0x1fcc,1,-1},
{0x1fc4,0x1fc4,0x1fc4,0x1fc4,1,-1},
{0x1fc6,0x1fc6,0x1fc6,0x1fc6,1,-1},
{0x1fc7,0x1fc7,0x1fc7,0x1fc7,1,-1},
{0x1fc8,0x1fc8,0x1f72,0x1fc8,1,-1},
{0x1fc9,0x1fc9,0x1f73,0x1fc9,1,-1},
{0x1fca,0x1fca,0x1f74,0x1fca,1,-1},
{0x1fcb,0x1fcb,0x1f75,0x1fcb,1,-1},
{0x1fcc,0x1fcc,0x1fc3,0x1fcc,1,-1},
{0x1fd0,0x1fd8,0x1fd0,0x1fd8,1,-1},
{0x1fd1,0x1fd9,0x1fd1,0x1fd9,1,-1},
{0x1fd2,0x1fd2,0x1fd2,0x1fd2,1,-1},
{0x1fd3,0x1fd3,0x1fd3,0x1fd3,1,-1},
{0x1fd6,0x1fd6,0x1fd6,0x1fd6,1,-1},
{0x1fd7,0x1fd7,0x1fd7,0x1fd7,1,-1},
{0x1fd8,0x1fd8,0x1fd0,0x1fd8,1,-1},
{0x1fd9,0x1fd9,0x1fd1,0x1fd9,1,-1},
{0x1fda,0x1fda,0x1f76,0x1fda,1,-1},
{0x1fdb,0x1fdb,0x1f77,0x1fdb,1,-1},
{0x1fe0,0x1fe8,0x1fe0,0x1fe8,1,-1},
{0x1fe1,0x1fe9,0x1fe1,0x1fe9,1,-1},
{0x1fe2,0x1fe2,0x1fe2,0x1fe2,1,-1},
{0x1fe3,0x1fe3,0x1fe3,0x1fe3,1,-1},
{0x1fe4,0x1fe4,0x1fe4,0x1fe4,1,-1},
{0x1fe5,0x1fec,0x1fe5,0x1fec,1,-1},
{0x1fe6,0x1fe6,0x1fe6,0x1fe6,1,-1},
{0x1fe7,0x1fe7,0x1fe7,0x1fe7,1,-1},
{0x1fe8,0x1fe8,0x1fe0,0x1fe8,1,-1},
{0x1fe9,0x1fe9,0x1fe1,0x1fe9,1,-1},
{0x1fea,0x1fea,0x1f7a,0x1fea,1,-1},
{0x1feb,0x1feb,0x1f7b,0x1feb,1,-1},
{0x1fec,0x1fec,0x1fe5,0x1fec,1,-1},
{0x1ff2,0x1ff2,0x1ff2,0x1ff2,1,-1},
{0x1ff3,0x1ffc,0x1ff3,0x1ffc,1,-1},
{0x1ff4,0x1ff4,0x1ff4,0x1ff4,1,-1},
{0x1ff6,0x1ff6,0x1ff6,0x1ff6,1,-1},
{0x1ff7,0x1ff7,0x1ff7,0x1ff7,1,-1},
{0x1ff8,0x1ff8,0x1f78,0x1ff8,1,-1},
{0x1ff9,0x1ff9,0x1f79,0x1ff9,1,-1},
{0x1ffa,0x1ffa,0x1f7c,0x1ffa,1,-1},
{0x1ffb,0x1ffb,0x1f7d,0x1ffb,1,-1},
{0x1ffc,0x1ffc,0x1ff3,0x1ffc,1,-1},
{0x207f,0x207f,0x207f,0x207f,1,-1},
{0x2102,0x2102,0x2102,0x2102,1,-1},
{0x2107,0x2107,0x2107,0x2107,1,-1},
{0x210a,0x210a,0x210a,0x210a,1,-1},
{0x210b,0x210b,0x210b,0x210b,1,-1},
{0x210c,0x210c,0x210c,0x210c,1,-1},
{0x210d,0x210d,0x210d,0x210d,1,-1},
{0x210e,0x210e,0x210e,0x210e,1,-1},
{0x210f,0x210f,0x210f,0x210f,1,-1},
{0x2110,0x2110,0x2110,0x2110,1,-1},
{0x2111,0x2111,0x2111,0x2111,1,-1},
{0x2112,0x2112,0x2112,0x2112,1,-1},
{0x2113,0x2113,0x2113,0x2113,1,-1},
{0x2115,0x2115,0x2115,0x2115,1,-1},
{0x2119,0x2119,0x2119,0x2119,1,-1},
{0x211a,0x211a,0x211a,0x211a,1,-1},
{0x211b,0x211b,0x211b,0x211b,1,-1},
{0x211c,0x211c,0x211c,0x211c,1,-1},
{0x211d,0x211d,0x211d,0x211d,1,-1},
{0x2124,0x2124,0x2124,0x2124,1,-1},
{0x2126,0x2126,0x3c9,0x2126,1,-1},
{0x2128,0x2128,0x2128,0x2128,1,-1},
{0x212a,0x212a,0x6b,0x212a,1,-1},
{0x212b,0x212b,0xe5,0x212b,1,-1},
{0x212c,0x212c,0x212c,0x212c,1,-1},
{0x212d,0x212d,0x212d,0x212d,1,-1},
{0x212f,0x212f,0x212f,0x212f,1,-1},
{0x2130,0x2130,0x2130,0x2130,1,-1},
{0x2131,0x2131,0x2131,0x2131,1,-1},
{0x2133,0x2133,0x2133,0x2133,1,-1},
{0x2134,0x2134,0x2134,0x2134,1,-1},
{0x2139,0x2139,0x2139,0x2139,1,-1},
{0x2160,0x2160,0x2170,0x2160,1,-1},
{0x2161,0x2161,0x2171,0x2161,1,-1},
{0x2162,0x2162,0x2172,0x2162,1,-1},
{0x2163,0x2163,0x2173,0x2163,1,-1},
{0x2164,0x2164,0x2174,0x2164,1,-1},
{0x2165,0x2165,0x2175,0x2165,1,-1},
{0x2166,0x2166,0x2176,0x2166,1,-1},
{0x2167,0x2167,0x2177,0x2167,1,-1},
{0x2168,0x2168,0x2178,0x2168,1,-1},
{0x2169,0x2169,0x2179,0x2169,1,-1},
{0x216a,0x216a,0x217a,0x216a,1,-1},
{0x216b,0x216b,0x217b,0x216b,1,-1},
{0x216c,0x216c,0x217c,0x216c,1,-1},
{0x216d,0x216d,0x217d,0x216d,1,-1},
{0x216e,0x216e,0x217e,0x216e,1,-1},
{0x216f,0x216f,0x217f,0x216f,1,-1},
{0x2170,0x2160,0x2170,0x2160,1,-1},
{0x2171,0x2161,0x2171,0x2161,1,-1},
{0x2172,0x2162,0x2172,0x2162,1,-1},
{0x2173,0x2163,0x2173,0x2163,1,-1},
{0x2174,0x2164,0x2174,0x2164,1,-1},
{0x2175,0x2165,0x2175,0x2165,1,-1},
{0x2176,0x2166,0x2176,0x2166,1,-1},
{0x2177,0x2167,0x2177,0x2167,1,-1},
{0x2178,0x2168,0x2178,0x2168,1,-1},
{0x2179,0x2169,0x2179,0x2169,1,-1},
{0x217a,0x216a,0x217a,0x216a,1,-1},
{0x217b,0x216b,0x217b,0x216b,1,-1},
{0x217c,0x216c,0x217c,0x216c,1,-1},
{0x217d,0x216d,0x217d,0x216d,1,-1},
{0x217e,0x216e,0x217e,0x216e,1,-1},
{0x217f,0x216f,0x217f,0x216f,1,-1},
{0x24b6,0x24b6,0x24d0,0x24b6,1,-1},
{0x24b7,0x24b7,0x24d1,0x24b7,1,-1},
{0x24b8,0x24b8,0x24d2,0x24b8,1,-1},
{0x24b9,0x24b9,0x24d3,0x24b9,1,-1},
{0x24ba,0x24ba,0x24d4,0x24ba,1,-1},
{0x24bb,0x24bb,0x24d5,0x24bb,1,-1},
{0x24bc,0x24bc,0x24d6,0x24bc,1,-1},
{0x24bd,0x24bd,0x24d7,0x24bd,1,-1},
{0x24be,0x24be,0x24d8,0x24be,1,-1},
{0x24bf,0x24bf,0x24d9,0x24bf,1,-1},
{0x24c0,0x24c0,0x24da,0x24c0,1,-1},
{0x24c1,0x24c1,0x24db,0x24c1,1,-1},
{0x24c2,0x24c2,0x24dc,0x24c2,1,-1},
{0x24c3,0x24c3,0x24dd,0x24c3,1,-1},
{0x24c4,0x24c4,0x24de,0x24c4,1,-1},
{0x24c5,0x24c5,0x24df,0x24c5,1,-1},
{0x24c6,0x24c6,0x24e0,0x24c6,1,-1},
{0x24c7,0x24c7,0x24e1,0x24c7,1,-1},
{0x24c8,0x24c8,0x24e2,0x24c8,1,-1},
{0x24c9,0x24c9,0x24e3,0x24c9,1,-1},
{0x24ca,0x24ca,0x24e4,0x24ca,1,-1},
{0x24cb,0x24cb,0x24e5,0x24cb,1,-1},
{0x24cc,0x24cc,0x24e6,0x24cc,1,-1},
{0x24cd,0x24cd,0x24e7,0x24cd,1,-1},
{0x24ce,0x24ce,0x24e8,0x24ce,1,-1},
{0x24cf,0x24cf,0x24e9,0x24cf,1,-1},
{0x24d0,0x24b6,0x24d0,0x24b6,1,-1},
{0x24d1,0x24b7,0x24d1,0x24b7,1,-1},
{0x24d2,0x24b8,0x24d2,0x24b8,1,-1},
{0x24d3,0x24b9,0x24d3,0x24b9,1,-1},
{0x24d4,0x24ba,0x24d4,0x24ba,1,-1},
{0x24d5,0x24bb,0x24d5,0x24bb,1,-1},
{0x24d6,0x24bc,0x24d6,0x24bc,1,-1},
{0x24d7,0x24bd,0x24d7,0x24bd,1,-1},
{0x24d8,0x24be,0x24d8,0x24be,1,-1},
{0x24d9,0x24bf,0x24d9,0x24bf,1,-1},
{0x24da,0x24c0,0x24da,0x24c0,1,-1},
{0x24db,0x24c1,0x24db,0x24c1,1,-1},
{0x24dc,0x24c2,0x24dc,0x24c2,1,-1},
{0x24dd,0x24c3,0x24dd,0x24c3,1,-1},
{0x24de,0x24c4,0x24de,0x24c4,1,-1},
{0x24df,0x24c5,0x24df,0x24c5,1,-1},
{0x24e0,0x24c6,0x24e0,0x24c6,1,-1},
{0x24e1,0x24c7,0x24e1,0x24c7,1,-1},
{0x24e2,0x24c8,0x24e2,0x24c8,1,-1},
{0x24e3,0x24c9,0x24e3,0x24c9,1,-1},
{0x24e4,0x24ca,0x24e4,0x24ca,1,-1},
{0x24e5,0x24cb,0x24e5,0x24cb,1,-1},
{0x24e6,0x24cc,0x24e6,0x24cc,1,-1},
{0x24e7,0x24cd,0x24e7,0x24cd,1,-1},
{0x24e8,0x24ce,0x24e8,0x24ce,1,-1},
{0x24e9,0x24cf,0x24e9,0x24cf,1,-1},
{0x3007,0x3007,0x3007,0x3007,0,0},
{0x3021,0x3021,0x3021,0x3021,0,1},
{0x3022,0x3022,0x3022,0x3022,0,2},
{0x3023,0x3023,0x3023,0x3023,0,3},
{0x3024,0x3024,0x3024,0x3024,0,4},
{0x3025,0x3025,0x3025,0x3025,0,5},
{0x3026,0x3026,0x3026,0x3026,0,6},
{0x3027,0x3027,0x3027,0x3027,0,7},
{0x3028,0x3028,0x3028,0x3028,0,8},
{0x3029,0x3029,0x3029,0x3029,0,9},
{0xfb00,0xfb00,0xfb00,0xfb00,1,-1},
{0xfb01,0xfb01,0xfb01,0xfb01,1,-1},
{0xfb02,0xfb02,0xfb02,0xfb02,1,-1},
{0xfb03,0xfb03,0xfb03,0xfb03,1,-1},
{0xfb04,0xfb04,0xfb04,0xfb04,1,-1},
{0xfb05,0xfb05,0xfb05,0xfb05,1,-1},
{0xfb06,0xfb06,0xfb06,0xfb06,1,-1},
{0xfb13,0xfb13,0xfb13,0xfb13,1,-1},
{0xfb14,0xfb14,0xfb14,0xfb14,1,-1},
{0xfb15,0xfb15,0xfb15,0xfb15,1,-1},
{0xfb16,0xfb16,0xfb16,0xfb16,1,-1},
{0xfb17,0xfb17,0xfb17,0xfb17,1,-1},
{0xff10,0xff10,0xff10,0xff10,0,0},
{0xff11,0xff11,0xff11,0xff11,0,1},
{0xff12,0xff12,0xff12,0xff12,0,2},
{0xff13,0xff13,0xff13,0xff13,0,3},
{0xff14,0xff14,0xff14,0xff14,0,4},
{0xff15,0xff15,0xff15,0xff15,0,5},
{0xff16,0xff16,0xff16,0xff16,0,6},
{0xff17,0xff17,0xff17,0xff17,0,7},
{0xff18,0xff18,0xff18,0xff18,0,8},
{0xff19,0xff19,0xff19,0xff19,0,9},
{0xff21,0xff21,0xff41,0xff21,1,-1},
{0xff22,0xff22,0xff42,0xff22,1,-1},
{0xff23,0xff23,0xff43,0xff23,1,-1},
{0xff24,0xff24,0xff44,0xff24,1,-1},
{0xff25,0xff25,0xff45,0xff25,1,-1},
{0xff26,0xff26,0xff46,0xff26,1,-1},
{0xff27,0xff27,0xff47,0xff27,1,-1},
{0xff28,0xff28,0xff48,0xff28,1,-1},
{0xff29,0xff29,0xff49,0xff29,1,-1},
{0xff2a,0xff2a,0xff4a,0xff2a,1,-1},
{0xff2b,0xff2b,0xff4b,0xff2b,1,-1},
{0xff2c,0xff2c,0xff4c,0xff2c,1,-1},
{0xff2d,0xff2d,0xff4d,0xff2d,1,-1},
{0xff2e,0xff2e,0xff4e,0xff2e,1,-1},
{0xff2f,0xff2f,0xff4f,0xff2f,1,-1},
{0xff30,0xff30,0xff50,0xff30,1,-1},
{0xff31,0xff31,0xff51,0xff31,1,-1},
{0xff32,0xff32,0xff52,0xff32,1,-1},
{0xff33,0xff33,0xff53,0xff33,1,-1},
{0xff34,0xff34,0xff54,0xff34,1,-1},
{0xff35,0xff35,0xff55,0xff35,1,-1},
{0xff36,0xff36,0xff56,0xff36,1,-1},
{0xff37,0xff37,0xff57,0xff37,1,-1},
{0xff38,0xff38,0xff58,0xff38,1,-1},
{0xff39,0xff39,0xff59,0xff39,1,-1},
{0xff3a,0xff3a,0xff5a,0xff3a,1,-1},
{0xff41,0xff21,0xff41,0xff21,1,-1},
{0xff42,0xff22,0xff42,0xff22,1,-1},
{0xff43,0xff23,0xff43,0xff23,1,-1},
{0xff44,0xff24,0xff44,0xff24,1,-1},
{0xff45,0xff25,0xff45,0xff25,1,-1},
{0xff46,0xff26,0xff46,0xff26,1,-1},
{0xff47,0xff27,0xff47,0xff27,1,-1},
{0xff48,0xff28,0xff48,0xff28,1,-1},
{0xff49,0xff29,0xff49,0xff29,1,-1},
{0xff4a,0xff2a,0xff4a,0xff2a,1,-1},
{0xff4b,0xff2b,0xff4b,0xff2b,1,-1},
{0xff4c,0xff2c,0xff4c,0xff2c,1,-1},
{0xff4d,0xff2d,0xff4d,0xff2d,1,-1},
{0xff4e,0xff2e,0xff4e,0xff2e,1,-1},
{0xff4f,0xff2f,0xff4f,0xff2f,1,-1},
{0xff50,0xff30,0xff50,0xff30,1,-1},
{0xff51,0xff31,0xff51,0xff31,1,-1},
{0xff52,0xff32,0xff52,0xff32,1,-1},
{0xff53,0xff33,0xff53,0xff33,1,-1},
{0xff54,0xff34,0xff54,0xff34,1,-1},
{0xff55,0xff35,0xff55,0xff35,1,-1},
{0xff56,0xff36,0xff56,0xff36,1,-1},
{0xff57,0xff37,0xff57,0xff37,1,-1},
{0xff58,0xff38,0xff58,0xff38,1,-1},
{0xff59,0xff39,0xff59,0xff39,1,-1},
{0xff5a,0xff3a,0xff5a,0xff3a,1,-1},
