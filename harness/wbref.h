/* Word_Break property of Unicode 8.0 (auxiliary/WordBreakProperty.txt), runs of equal value; 0 is Other.
   Cross-checked with the tables of Unicode 15: they differ only where later versions changed. */
enum { W_Other, W_CR, W_LF, W_Newline, W_Extend, W_RI, W_Format, W_Kata, W_Heb, W_AL, W_SQ, W_DQ, W_MNL, W_ML, W_MN, W_Num, W_ENL };
static const unsigned wbref[][3] = {
{0xA,0xA,2}, {0xB,0xC,3}, {0xD,0xD,1}, {0x22,0x22,11}, {0x27,0x27,10}, {0x2C,0x2C,14},
{0x2E,0x2E,12}, {0x30,0x39,15}, {0x3A,0x3A,13}, {0x3B,0x3B,14}, {0x41,0x5A,9}, {0x5F,0x5F,16},
{0x61,0x7A,9}, {0x85,0x85,3}, {0xAA,0xAA,9}, {0xAD,0xAD,6}, {0xB5,0xB5,9}, {0xB7,0xB7,13},
{0xBA,0xBA,9}, {0xC0,0xD6,9}, {0xD8,0xF6,9}, {0xF8,0x2C1,9}, {0x2C6,0x2D1,9}, {0x2D7,0x2D7,13},
{0x2E0,0x2E4,9}, {0x2EC,0x2EC,9}, {0x2EE,0x2EE,9}, {0x300,0x36F,4}, {0x370,0x374,9}, {0x376,0x377,9},
{0x37A,0x37D,9}, {0x37E,0x37E,14}, {0x37F,0x37F,9}, {0x386,0x386,9}, {0x387,0x387,13}, {0x388,0x38A,9},
{0x38C,0x38C,9}, {0x38E,0x3A1,9}, {0x3A3,0x3F5,9}, {0x3F7,0x481,9}, {0x483,0x489,4}, {0x48A,0x52F,9},
{0x531,0x556,9}, {0x559,0x559,9}, {0x561,0x587,9}, {0x589,0x589,14}, {0x591,0x5BD,4}, {0x5BF,0x5BF,4},
{0x5C1,0x5C2,4}, {0x5C4,0x5C5,4}, {0x5C7,0x5C7,4}, {0x5D0,0x5EA,8}, {0x5F0,0x5F2,8}, {0x5F3,0x5F3,9},
{0x5F4,0x5F4,13}, {0x600,0x605,6}, {0x60C,0x60D,14}, {0x610,0x61A,4}, {0x61C,0x61C,6}, {0x620,0x64A,9},
{0x64B,0x65F,4}, {0x660,0x669,15}, {0x66B,0x66B,15}, {0x66C,0x66C,14}, {0x66E,0x66F,9}, {0x670,0x670,4},
{0x671,0x6D3,9}, {0x6D5,0x6D5,9}, {0x6D6,0x6DC,4}, {0x6DD,0x6DD,6}, {0x6DF,0x6E4,4}, {0x6E5,0x6E6,9},
{0x6E7,0x6E8,4}, {0x6EA,0x6ED,4}, {0x6EE,0x6EF,9}, {0x6F0,0x6F9,15}, {0x6FA,0x6FC,9}, {0x6FF,0x6FF,9},
{0x70F,0x70F,6}, {0x710,0x710,9}, {0x711,0x711,4}, {0x712,0x72F,9}, {0x730,0x74A,4}, {0x74D,0x7A5,9},
{0x7A6,0x7B0,4}, {0x7B1,0x7B1,9}, {0x7C0,0x7C9,15}, {0x7CA,0x7EA,9}, {0x7EB,0x7F3,4}, {0x7F4,0x7F5,9},
{0x7F8,0x7F8,14}, {0x7FA,0x7FA,9}, {0x800,0x815,9}, {0x816,0x819,4}, {0x81A,0x81A,9}, {0x81B,0x823,4},
{0x824,0x824,9}, {0x825,0x827,4}, {0x828,0x828,9}, {0x829,0x82D,4}, {0x840,0x858,9}, {0x859,0x85B,4},
{0x8A0,0x8B4,9}, {0x8E3,0x903,4}, {0x904,0x939,9}, {0x93A,0x93C,4}, {0x93D,0x93D,9}, {0x93E,0x94F,4},
{0x950,0x950,9}, {0x951,0x957,4}, {0x958,0x961,9}, {0x962,0x963,4}, {0x966,0x96F,15}, {0x971,0x980,9},
{0x981,0x983,4}, {0x985,0x98C,9}, {0x98F,0x990,9}, {0x993,0x9A8,9}, {0x9AA,0x9B0,9}, {0x9B2,0x9B2,9},
{0x9B6,0x9B9,9}, {0x9BC,0x9BC,4}, {0x9BD,0x9BD,9}, {0x9BE,0x9C4,4}, {0x9C7,0x9C8,4}, {0x9CB,0x9CD,4},
{0x9CE,0x9CE,9}, {0x9D7,0x9D7,4}, {0x9DC,0x9DD,9}, {0x9DF,0x9E1,9}, {0x9E2,0x9E3,4}, {0x9E6,0x9EF,15},
{0x9F0,0x9F1,9}, {0xA01,0xA03,4}, {0xA05,0xA0A,9}, {0xA0F,0xA10,9}, {0xA13,0xA28,9}, {0xA2A,0xA30,9},
{0xA32,0xA33,9}, {0xA35,0xA36,9}, {0xA38,0xA39,9}, {0xA3C,0xA3C,4}, {0xA3E,0xA42,4}, {0xA47,0xA48,4},
{0xA4B,0xA4D,4}, {0xA51,0xA51,4}, {0xA59,0xA5C,9}, {0xA5E,0xA5E,9}, {0xA66,0xA6F,15}, {0xA70,0xA71,4},
{0xA72,0xA74,9}, {0xA75,0xA75,4}, {0xA81,0xA83,4}, {0xA85,0xA8D,9}, {0xA8F,0xA91,9}, {0xA93,0xAA8,9},
{0xAAA,0xAB0,9}, {0xAB2,0xAB3,9}, {0xAB5,0xAB9,9}, {0xABC,0xABC,4}, {0xABD,0xABD,9}, {0xABE,0xAC5,4},
{0xAC7,0xAC9,4}, {0xACB,0xACD,4}, {0xAD0,0xAD0,9}, {0xAE0,0xAE1,9}, {0xAE2,0xAE3,4}, {0xAE6,0xAEF,15},
{0xAF9,0xAF9,9}, {0xB01,0xB03,4}, {0xB05,0xB0C,9}, {0xB0F,0xB10,9}, {0xB13,0xB28,9}, {0xB2A,0xB30,9},
{0xB32,0xB33,9}, {0xB35,0xB39,9}, {0xB3C,0xB3C,4}, {0xB3D,0xB3D,9}, {0xB3E,0xB44,4}, {0xB47,0xB48,4},
{0xB4B,0xB4D,4}, {0xB56,0xB57,4}, {0xB5C,0xB5D,9}, {0xB5F,0xB61,9}, {0xB62,0xB63,4}, {0xB66,0xB6F,15},
{0xB71,0xB71,9}, {0xB82,0xB82,4}, {0xB83,0xB83,9}, {0xB85,0xB8A,9}, {0xB8E,0xB90,9}, {0xB92,0xB95,9},
{0xB99,0xB9A,9}, {0xB9C,0xB9C,9}, {0xB9E,0xB9F,9}, {0xBA3,0xBA4,9}, {0xBA8,0xBAA,9}, {0xBAE,0xBB9,9},
{0xBBE,0xBC2,4}, {0xBC6,0xBC8,4}, {0xBCA,0xBCD,4}, {0xBD0,0xBD0,9}, {0xBD7,0xBD7,4}, {0xBE6,0xBEF,15},
{0xC00,0xC03,4}, {0xC05,0xC0C,9}, {0xC0E,0xC10,9}, {0xC12,0xC28,9}, {0xC2A,0xC39,9}, {0xC3D,0xC3D,9},
{0xC3E,0xC44,4}, {0xC46,0xC48,4}, {0xC4A,0xC4D,4}, {0xC55,0xC56,4}, {0xC58,0xC5A,9}, {0xC60,0xC61,9},
{0xC62,0xC63,4}, {0xC66,0xC6F,15}, {0xC81,0xC83,4}, {0xC85,0xC8C,9}, {0xC8E,0xC90,9}, {0xC92,0xCA8,9},
{0xCAA,0xCB3,9}, {0xCB5,0xCB9,9}, {0xCBC,0xCBC,4}, {0xCBD,0xCBD,9}, {0xCBE,0xCC4,4}, {0xCC6,0xCC8,4},
{0xCCA,0xCCD,4}, {0xCD5,0xCD6,4}, {0xCDE,0xCDE,9}, {0xCE0,0xCE1,9}, {0xCE2,0xCE3,4}, {0xCE6,0xCEF,15},
{0xCF1,0xCF2,9}, {0xD01,0xD03,4}, {0xD05,0xD0C,9}, {0xD0E,0xD10,9}, {0xD12,0xD3A,9}, {0xD3D,0xD3D,9},
{0xD3E,0xD44,4}, {0xD46,0xD48,4}, {0xD4A,0xD4D,4}, {0xD4E,0xD4E,9}, {0xD57,0xD57,4}, {0xD5F,0xD61,9},
{0xD62,0xD63,4}, {0xD66,0xD6F,15}, {0xD7A,0xD7F,9}, {0xD82,0xD83,4}, {0xD85,0xD96,9}, {0xD9A,0xDB1,9},
{0xDB3,0xDBB,9}, {0xDBD,0xDBD,9}, {0xDC0,0xDC6,9}, {0xDCA,0xDCA,4}, {0xDCF,0xDD4,4}, {0xDD6,0xDD6,4},
{0xDD8,0xDDF,4}, {0xDE6,0xDEF,15}, {0xDF2,0xDF3,4}, {0xE31,0xE31,4}, {0xE34,0xE3A,4}, {0xE47,0xE4E,4},
{0xE50,0xE59,15}, {0xEB1,0xEB1,4}, {0xEB4,0xEB9,4}, {0xEBB,0xEBC,4}, {0xEC8,0xECD,4}, {0xED0,0xED9,15},
{0xF00,0xF00,9}, {0xF18,0xF19,4}, {0xF20,0xF29,15}, {0xF35,0xF35,4}, {0xF37,0xF37,4}, {0xF39,0xF39,4},
{0xF3E,0xF3F,4}, {0xF40,0xF47,9}, {0xF49,0xF6C,9}, {0xF71,0xF84,4}, {0xF86,0xF87,4}, {0xF88,0xF8C,9},
{0xF8D,0xF97,4}, {0xF99,0xFBC,4}, {0xFC6,0xFC6,4}, {0x102B,0x103E,4}, {0x1040,0x1049,15}, {0x1056,0x1059,4},
{0x105E,0x1060,4}, {0x1062,0x1064,4}, {0x1067,0x106D,4}, {0x1071,0x1074,4}, {0x1082,0x108D,4}, {0x108F,0x108F,4},
{0x1090,0x1099,15}, {0x109A,0x109D,4}, {0x10A0,0x10C5,9}, {0x10C7,0x10C7,9}, {0x10CD,0x10CD,9}, {0x10D0,0x10FA,9},
{0x10FC,0x1248,9}, {0x124A,0x124D,9}, {0x1250,0x1256,9}, {0x1258,0x1258,9}, {0x125A,0x125D,9}, {0x1260,0x1288,9},
{0x128A,0x128D,9}, {0x1290,0x12B0,9}, {0x12B2,0x12B5,9}, {0x12B8,0x12BE,9}, {0x12C0,0x12C0,9}, {0x12C2,0x12C5,9},
{0x12C8,0x12D6,9}, {0x12D8,0x1310,9}, {0x1312,0x1315,9}, {0x1318,0x135A,9}, {0x135D,0x135F,4}, {0x1380,0x138F,9},
{0x13A0,0x13F5,9}, {0x13F8,0x13FD,9}, {0x1401,0x166C,9}, {0x166F,0x167F,9}, {0x1681,0x169A,9}, {0x16A0,0x16EA,9},
{0x16EE,0x16F8,9}, {0x1700,0x170C,9}, {0x170E,0x1711,9}, {0x1712,0x1714,4}, {0x1720,0x1731,9}, {0x1732,0x1734,4},
{0x1740,0x1751,9}, {0x1752,0x1753,4}, {0x1760,0x176C,9}, {0x176E,0x1770,9}, {0x1772,0x1773,4}, {0x17B4,0x17D3,4},
{0x17DD,0x17DD,4}, {0x17E0,0x17E9,15}, {0x180B,0x180D,4}, {0x180E,0x180E,6}, {0x1810,0x1819,15}, {0x1820,0x1877,9},
{0x1880,0x18A8,9}, {0x18A9,0x18A9,4}, {0x18AA,0x18AA,9}, {0x18B0,0x18F5,9}, {0x1900,0x191E,9}, {0x1920,0x192B,4},
{0x1930,0x193B,4}, {0x1946,0x194F,15}, {0x19D0,0x19D9,15}, {0x1A00,0x1A16,9}, {0x1A17,0x1A1B,4}, {0x1A55,0x1A5E,4},
{0x1A60,0x1A7C,4}, {0x1A7F,0x1A7F,4}, {0x1A80,0x1A89,15}, {0x1A90,0x1A99,15}, {0x1AB0,0x1ABE,4}, {0x1B00,0x1B04,4},
{0x1B05,0x1B33,9}, {0x1B34,0x1B44,4}, {0x1B45,0x1B4B,9}, {0x1B50,0x1B59,15}, {0x1B6B,0x1B73,4}, {0x1B80,0x1B82,4},
{0x1B83,0x1BA0,9}, {0x1BA1,0x1BAD,4}, {0x1BAE,0x1BAF,9}, {0x1BB0,0x1BB9,15}, {0x1BBA,0x1BE5,9}, {0x1BE6,0x1BF3,4},
{0x1C00,0x1C23,9}, {0x1C24,0x1C37,4}, {0x1C40,0x1C49,15}, {0x1C4D,0x1C4F,9}, {0x1C50,0x1C59,15}, {0x1C5A,0x1C7D,9},
{0x1CD0,0x1CD2,4}, {0x1CD4,0x1CE8,4}, {0x1CE9,0x1CEC,9}, {0x1CED,0x1CED,4}, {0x1CEE,0x1CF1,9}, {0x1CF2,0x1CF4,4},
{0x1CF5,0x1CF6,9}, {0x1CF8,0x1CF9,4}, {0x1D00,0x1DBF,9}, {0x1DC0,0x1DF5,4}, {0x1DFC,0x1DFF,4}, {0x1E00,0x1F15,9},
{0x1F18,0x1F1D,9}, {0x1F20,0x1F45,9}, {0x1F48,0x1F4D,9}, {0x1F50,0x1F57,9}, {0x1F59,0x1F59,9}, {0x1F5B,0x1F5B,9},
{0x1F5D,0x1F5D,9}, {0x1F5F,0x1F7D,9}, {0x1F80,0x1FB4,9}, {0x1FB6,0x1FBC,9}, {0x1FBE,0x1FBE,9}, {0x1FC2,0x1FC4,9},
{0x1FC6,0x1FCC,9}, {0x1FD0,0x1FD3,9}, {0x1FD6,0x1FDB,9}, {0x1FE0,0x1FEC,9}, {0x1FF2,0x1FF4,9}, {0x1FF6,0x1FFC,9},
{0x200C,0x200D,4}, {0x200E,0x200F,6}, {0x2018,0x2019,12}, {0x2024,0x2024,12}, {0x2027,0x2027,13}, {0x2028,0x2029,3},
{0x202A,0x202E,6}, {0x203F,0x2040,16}, {0x2044,0x2044,14}, {0x2054,0x2054,16}, {0x2060,0x2064,6}, {0x2066,0x206F,6},
{0x2071,0x2071,9}, {0x207F,0x207F,9}, {0x2090,0x209C,9}, {0x20D0,0x20F0,4}, {0x2102,0x2102,9}, {0x2107,0x2107,9},
{0x210A,0x2113,9}, {0x2115,0x2115,9}, {0x2119,0x211D,9}, {0x2124,0x2124,9}, {0x2126,0x2126,9}, {0x2128,0x2128,9},
{0x212A,0x212D,9}, {0x212F,0x2139,9}, {0x213C,0x213F,9}, {0x2145,0x2149,9}, {0x214E,0x214E,9}, {0x2160,0x2188,9},
{0x24B6,0x24E9,9}, {0x2C00,0x2C2E,9}, {0x2C30,0x2C5E,9}, {0x2C60,0x2CE4,9}, {0x2CEB,0x2CEE,9}, {0x2CEF,0x2CF1,4},
{0x2CF2,0x2CF3,9}, {0x2D00,0x2D25,9}, {0x2D27,0x2D27,9}, {0x2D2D,0x2D2D,9}, {0x2D30,0x2D67,9}, {0x2D6F,0x2D6F,9},
{0x2D7F,0x2D7F,4}, {0x2D80,0x2D96,9}, {0x2DA0,0x2DA6,9}, {0x2DA8,0x2DAE,9}, {0x2DB0,0x2DB6,9}, {0x2DB8,0x2DBE,9},
{0x2DC0,0x2DC6,9}, {0x2DC8,0x2DCE,9}, {0x2DD0,0x2DD6,9}, {0x2DD8,0x2DDE,9}, {0x2DE0,0x2DFF,4}, {0x2E2F,0x2E2F,9},
{0x3005,0x3005,9}, {0x302A,0x302F,4}, {0x3031,0x3035,7}, {0x303B,0x303C,9}, {0x3099,0x309A,4}, {0x309B,0x309C,7},
{0x30A0,0x30FA,7}, {0x30FC,0x30FF,7}, {0x3105,0x312D,9}, {0x3131,0x318E,9}, {0x31A0,0x31BA,9}, {0x31F0,0x31FF,7},
{0x32D0,0x32FE,7}, {0x3300,0x3357,7}, {0xA000,0xA48C,9}, {0xA4D0,0xA4FD,9}, {0xA500,0xA60C,9}, {0xA610,0xA61F,9},
{0xA620,0xA629,15}, {0xA62A,0xA62B,9}, {0xA640,0xA66E,9}, {0xA66F,0xA672,4}, {0xA674,0xA67D,4}, {0xA67F,0xA69D,9},
{0xA69E,0xA69F,4}, {0xA6A0,0xA6EF,9}, {0xA6F0,0xA6F1,4}, {0xA717,0xA71F,9}, {0xA722,0xA788,9}, {0xA78B,0xA7AD,9},
{0xA7B0,0xA7B7,9}, {0xA7F7,0xA801,9}, {0xA802,0xA802,4}, {0xA803,0xA805,9}, {0xA806,0xA806,4}, {0xA807,0xA80A,9},
{0xA80B,0xA80B,4}, {0xA80C,0xA822,9}, {0xA823,0xA827,4}, {0xA840,0xA873,9}, {0xA880,0xA881,4}, {0xA882,0xA8B3,9},
{0xA8B4,0xA8C4,4}, {0xA8D0,0xA8D9,15}, {0xA8E0,0xA8F1,4}, {0xA8F2,0xA8F7,9}, {0xA8FB,0xA8FB,9}, {0xA8FD,0xA8FD,9},
{0xA900,0xA909,15}, {0xA90A,0xA925,9}, {0xA926,0xA92D,4}, {0xA930,0xA946,9}, {0xA947,0xA953,4}, {0xA960,0xA97C,9},
{0xA980,0xA983,4}, {0xA984,0xA9B2,9}, {0xA9B3,0xA9C0,4}, {0xA9CF,0xA9CF,9}, {0xA9D0,0xA9D9,15}, {0xA9E5,0xA9E5,4},
{0xA9F0,0xA9F9,15}, {0xAA00,0xAA28,9}, {0xAA29,0xAA36,4}, {0xAA40,0xAA42,9}, {0xAA43,0xAA43,4}, {0xAA44,0xAA4B,9},
{0xAA4C,0xAA4D,4}, {0xAA50,0xAA59,15}, {0xAA7B,0xAA7D,4}, {0xAAB0,0xAAB0,4}, {0xAAB2,0xAAB4,4}, {0xAAB7,0xAAB8,4},
{0xAABE,0xAABF,4}, {0xAAC1,0xAAC1,4}, {0xAAE0,0xAAEA,9}, {0xAAEB,0xAAEF,4}, {0xAAF2,0xAAF4,9}, {0xAAF5,0xAAF6,4},
{0xAB01,0xAB06,9}, {0xAB09,0xAB0E,9}, {0xAB11,0xAB16,9}, {0xAB20,0xAB26,9}, {0xAB28,0xAB2E,9}, {0xAB30,0xAB5A,9},
{0xAB5C,0xAB65,9}, {0xAB70,0xABE2,9}, {0xABE3,0xABEA,4}, {0xABEC,0xABED,4}, {0xABF0,0xABF9,15}, {0xAC00,0xD7A3,9},
{0xD7B0,0xD7C6,9}, {0xD7CB,0xD7FB,9}, {0xFB00,0xFB06,9}, {0xFB13,0xFB17,9}, {0xFB1D,0xFB1D,8}, {0xFB1E,0xFB1E,4},
{0xFB1F,0xFB28,8}, {0xFB2A,0xFB36,8}, {0xFB38,0xFB3C,8}, {0xFB3E,0xFB3E,8}, {0xFB40,0xFB41,8}, {0xFB43,0xFB44,8},
{0xFB46,0xFB4F,8}, {0xFB50,0xFBB1,9}, {0xFBD3,0xFD3D,9}, {0xFD50,0xFD8F,9}, {0xFD92,0xFDC7,9}, {0xFDF0,0xFDFB,9},
{0xFE00,0xFE0F,4}, {0xFE10,0xFE10,14}, {0xFE13,0xFE13,13}, {0xFE14,0xFE14,14}, {0xFE20,0xFE2F,4}, {0xFE33,0xFE34,16},
{0xFE4D,0xFE4F,16}, {0xFE50,0xFE50,14}, {0xFE52,0xFE52,12}, {0xFE54,0xFE54,14}, {0xFE55,0xFE55,13}, {0xFE70,0xFE74,9},
{0xFE76,0xFEFC,9}, {0xFEFF,0xFEFF,6}, {0xFF07,0xFF07,12}, {0xFF0C,0xFF0C,14}, {0xFF0E,0xFF0E,12}, {0xFF1A,0xFF1A,13},
{0xFF1B,0xFF1B,14}, {0xFF21,0xFF3A,9}, {0xFF3F,0xFF3F,16}, {0xFF41,0xFF5A,9}, {0xFF66,0xFF9D,7}, {0xFF9E,0xFF9F,4},
{0xFFA0,0xFFBE,9}, {0xFFC2,0xFFC7,9}, {0xFFCA,0xFFCF,9}, {0xFFD2,0xFFD7,9}, {0xFFDA,0xFFDC,9}, {0xFFF9,0xFFFB,6},
{0x10000,0x1000B,9}, {0x1000D,0x10026,9}, {0x10028,0x1003A,9}, {0x1003C,0x1003D,9}, {0x1003F,0x1004D,9}, {0x10050,0x1005D,9},
{0x10080,0x100FA,9}, {0x10140,0x10174,9}, {0x101FD,0x101FD,4}, {0x10280,0x1029C,9}, {0x102A0,0x102D0,9}, {0x102E0,0x102E0,4},
{0x10300,0x1031F,9}, {0x10330,0x1034A,9}, {0x10350,0x10375,9}, {0x10376,0x1037A,4}, {0x10380,0x1039D,9}, {0x103A0,0x103C3,9},
{0x103C8,0x103CF,9}, {0x103D1,0x103D5,9}, {0x10400,0x1049D,9}, {0x104A0,0x104A9,15}, {0x10500,0x10527,9}, {0x10530,0x10563,9},
{0x10600,0x10736,9}, {0x10740,0x10755,9}, {0x10760,0x10767,9}, {0x10800,0x10805,9}, {0x10808,0x10808,9}, {0x1080A,0x10835,9},
{0x10837,0x10838,9}, {0x1083C,0x1083C,9}, {0x1083F,0x10855,9}, {0x10860,0x10876,9}, {0x10880,0x1089E,9}, {0x108E0,0x108F2,9},
{0x108F4,0x108F5,9}, {0x10900,0x10915,9}, {0x10920,0x10939,9}, {0x10980,0x109B7,9}, {0x109BE,0x109BF,9}, {0x10A00,0x10A00,9},
{0x10A01,0x10A03,4}, {0x10A05,0x10A06,4}, {0x10A0C,0x10A0F,4}, {0x10A10,0x10A13,9}, {0x10A15,0x10A17,9}, {0x10A19,0x10A33,9},
{0x10A38,0x10A3A,4}, {0x10A3F,0x10A3F,4}, {0x10A60,0x10A7C,9}, {0x10A80,0x10A9C,9}, {0x10AC0,0x10AC7,9}, {0x10AC9,0x10AE4,9},
{0x10AE5,0x10AE6,4}, {0x10B00,0x10B35,9}, {0x10B40,0x10B55,9}, {0x10B60,0x10B72,9}, {0x10B80,0x10B91,9}, {0x10C00,0x10C48,9},
{0x10C80,0x10CB2,9}, {0x10CC0,0x10CF2,9}, {0x11000,0x11002,4}, {0x11003,0x11037,9}, {0x11038,0x11046,4}, {0x11066,0x1106F,15},
{0x1107F,0x11082,4}, {0x11083,0x110AF,9}, {0x110B0,0x110BA,4}, {0x110BD,0x110BD,6}, {0x110D0,0x110E8,9}, {0x110F0,0x110F9,15},
{0x11100,0x11102,4}, {0x11103,0x11126,9}, {0x11127,0x11134,4}, {0x11136,0x1113F,15}, {0x11150,0x11172,9}, {0x11173,0x11173,4},
{0x11176,0x11176,9}, {0x11180,0x11182,4}, {0x11183,0x111B2,9}, {0x111B3,0x111C0,4}, {0x111C1,0x111C4,9}, {0x111CA,0x111CC,4},
{0x111D0,0x111D9,15}, {0x111DA,0x111DA,9}, {0x111DC,0x111DC,9}, {0x11200,0x11211,9}, {0x11213,0x1122B,9}, {0x1122C,0x11237,4},
{0x11280,0x11286,9}, {0x11288,0x11288,9}, {0x1128A,0x1128D,9}, {0x1128F,0x1129D,9}, {0x1129F,0x112A8,9}, {0x112B0,0x112DE,9},
{0x112DF,0x112EA,4}, {0x112F0,0x112F9,15}, {0x11300,0x11303,4}, {0x11305,0x1130C,9}, {0x1130F,0x11310,9}, {0x11313,0x11328,9},
{0x1132A,0x11330,9}, {0x11332,0x11333,9}, {0x11335,0x11339,9}, {0x1133C,0x1133C,4}, {0x1133D,0x1133D,9}, {0x1133E,0x11344,4},
{0x11347,0x11348,4}, {0x1134B,0x1134D,4}, {0x11350,0x11350,9}, {0x11357,0x11357,4}, {0x1135D,0x11361,9}, {0x11362,0x11363,4},
{0x11366,0x1136C,4}, {0x11370,0x11374,4}, {0x11480,0x114AF,9}, {0x114B0,0x114C3,4}, {0x114C4,0x114C5,9}, {0x114C7,0x114C7,9},
{0x114D0,0x114D9,15}, {0x11580,0x115AE,9}, {0x115AF,0x115B5,4}, {0x115B8,0x115C0,4}, {0x115D8,0x115DB,9}, {0x115DC,0x115DD,4},
{0x11600,0x1162F,9}, {0x11630,0x11640,4}, {0x11644,0x11644,9}, {0x11650,0x11659,15}, {0x11680,0x116AA,9}, {0x116AB,0x116B7,4},
{0x116C0,0x116C9,15}, {0x1171D,0x1172B,4}, {0x11730,0x11739,15}, {0x118A0,0x118DF,9}, {0x118E0,0x118E9,15}, {0x118FF,0x118FF,9},
{0x11AC0,0x11AF8,9}, {0x12000,0x12399,9}, {0x12400,0x1246E,9}, {0x12480,0x12543,9}, {0x13000,0x1342E,9}, {0x14400,0x14646,9},
{0x16800,0x16A38,9}, {0x16A40,0x16A5E,9}, {0x16A60,0x16A69,15}, {0x16AD0,0x16AED,9}, {0x16AF0,0x16AF4,4}, {0x16B00,0x16B2F,9},
{0x16B30,0x16B36,4}, {0x16B40,0x16B43,9}, {0x16B50,0x16B59,15}, {0x16B63,0x16B77,9}, {0x16B7D,0x16B8F,9}, {0x16F00,0x16F44,9},
{0x16F50,0x16F50,9}, {0x16F51,0x16F7E,4}, {0x16F8F,0x16F92,4}, {0x16F93,0x16F9F,9}, {0x1B000,0x1B000,7}, {0x1BC00,0x1BC6A,9},
{0x1BC70,0x1BC7C,9}, {0x1BC80,0x1BC88,9}, {0x1BC90,0x1BC99,9}, {0x1BC9D,0x1BC9E,4}, {0x1BCA0,0x1BCA3,6}, {0x1D165,0x1D169,4},
{0x1D16D,0x1D172,4}, {0x1D173,0x1D17A,6}, {0x1D17B,0x1D182,4}, {0x1D185,0x1D18B,4}, {0x1D1AA,0x1D1AD,4}, {0x1D242,0x1D244,4},
{0x1D400,0x1D454,9}, {0x1D456,0x1D49C,9}, {0x1D49E,0x1D49F,9}, {0x1D4A2,0x1D4A2,9}, {0x1D4A5,0x1D4A6,9}, {0x1D4A9,0x1D4AC,9},
{0x1D4AE,0x1D4B9,9}, {0x1D4BB,0x1D4BB,9}, {0x1D4BD,0x1D4C3,9}, {0x1D4C5,0x1D505,9}, {0x1D507,0x1D50A,9}, {0x1D50D,0x1D514,9},
{0x1D516,0x1D51C,9}, {0x1D51E,0x1D539,9}, {0x1D53B,0x1D53E,9}, {0x1D540,0x1D544,9}, {0x1D546,0x1D546,9}, {0x1D54A,0x1D550,9},
{0x1D552,0x1D6A5,9}, {0x1D6A8,0x1D6C0,9}, {0x1D6C2,0x1D6DA,9}, {0x1D6DC,0x1D6FA,9}, {0x1D6FC,0x1D714,9}, {0x1D716,0x1D734,9},
{0x1D736,0x1D74E,9}, {0x1D750,0x1D76E,9}, {0x1D770,0x1D788,9}, {0x1D78A,0x1D7A8,9}, {0x1D7AA,0x1D7C2,9}, {0x1D7C4,0x1D7CB,9},
{0x1D7CE,0x1D7FF,15}, {0x1DA00,0x1DA36,4}, {0x1DA3B,0x1DA6C,4}, {0x1DA75,0x1DA75,4}, {0x1DA84,0x1DA84,4}, {0x1DA9B,0x1DA9F,4},
{0x1DAA1,0x1DAAF,4}, {0x1E800,0x1E8C4,9}, {0x1E8D0,0x1E8D6,4}, {0x1EE00,0x1EE03,9}, {0x1EE05,0x1EE1F,9}, {0x1EE21,0x1EE22,9},
{0x1EE24,0x1EE24,9}, {0x1EE27,0x1EE27,9}, {0x1EE29,0x1EE32,9}, {0x1EE34,0x1EE37,9}, {0x1EE39,0x1EE39,9}, {0x1EE3B,0x1EE3B,9},
{0x1EE42,0x1EE42,9}, {0x1EE47,0x1EE47,9}, {0x1EE49,0x1EE49,9}, {0x1EE4B,0x1EE4B,9}, {0x1EE4D,0x1EE4F,9}, {0x1EE51,0x1EE52,9},
{0x1EE54,0x1EE54,9}, {0x1EE57,0x1EE57,9}, {0x1EE59,0x1EE59,9}, {0x1EE5B,0x1EE5B,9}, {0x1EE5D,0x1EE5D,9}, {0x1EE5F,0x1EE5F,9},
{0x1EE61,0x1EE62,9}, {0x1EE64,0x1EE64,9}, {0x1EE67,0x1EE6A,9}, {0x1EE6C,0x1EE72,9}, {0x1EE74,0x1EE77,9}, {0x1EE79,0x1EE7C,9},
{0x1EE7E,0x1EE7E,9}, {0x1EE80,0x1EE89,9}, {0x1EE8B,0x1EE9B,9}, {0x1EEA1,0x1EEA3,9}, {0x1EEA5,0x1EEA9,9}, {0x1EEAB,0x1EEBB,9},
{0x1F130,0x1F149,9}, {0x1F150,0x1F169,9}, {0x1F170,0x1F189,9}, {0x1F1E6,0x1F1FF,5}, {0xE0001,0xE0001,6}, {0xE0020,0xE007F,6},
{0xE0100,0xE01EF,4},
};
