// generated by gcb.pl: Grapheme_Cluster_Break, with Extended_Pictographic (XP); absent ranges are Other
#ifndef GCB_HPP
#define GCB_HPP
enum Gcb : unsigned char { G_Other, G_CR, G_LF, G_CN, G_EX, G_ZWJ, G_RI, G_PP, G_SM, G_L, G_V, G_T, G_LV, G_LVT, G_XP, G_NEW };
struct GcbRange { unsigned a, b; unsigned char c; };
static const GcbRange gcb_ranges[] = {
{0x0,0x9,3},{0xA,0xA,2},{0xB,0xC,3},{0xD,0xD,1},{0xE,0x1F,3},{0x7F,0x9F,3},{0xA9,0xA9,14},{0xAD,0xAD,3},
{0xAE,0xAE,14},{0x300,0x36F,4},{0x483,0x489,4},{0x591,0x5BD,4},{0x5BF,0x5BF,4},{0x5C1,0x5C2,4},{0x5C4,0x5C5,4},{0x5C7,0x5C7,4},
{0x600,0x605,7},{0x610,0x61A,4},{0x61C,0x61C,3},{0x61D,0x61D,15},{0x64B,0x65F,4},{0x670,0x670,4},{0x6D6,0x6DC,4},{0x6DD,0x6DD,7},
{0x6DF,0x6E4,4},{0x6E7,0x6E8,4},{0x6EA,0x6ED,4},{0x70F,0x70F,7},{0x711,0x711,4},{0x730,0x74A,4},{0x7A6,0x7B0,4},{0x7EB,0x7F3,4},
{0x7FD,0x7FD,4},{0x816,0x819,4},{0x81B,0x823,4},{0x825,0x827,4},{0x829,0x82D,4},{0x859,0x85B,4},{0x870,0x88E,15},{0x890,0x891,15},
{0x898,0x89F,15},{0x8B5,0x8B5,15},{0x8C8,0x8D2,15},{0x8D3,0x8E1,4},{0x8E2,0x8E2,7},{0x8E3,0x902,4},{0x903,0x903,8},{0x93A,0x93A,4},
{0x93B,0x93B,8},{0x93C,0x93C,4},{0x93E,0x940,8},{0x941,0x948,4},{0x949,0x94C,8},{0x94D,0x94D,4},{0x94E,0x94F,8},{0x951,0x957,4},
{0x962,0x963,4},{0x981,0x981,4},{0x982,0x983,8},{0x9BC,0x9BC,4},{0x9BE,0x9BE,4},{0x9BF,0x9C0,8},{0x9C1,0x9C4,4},{0x9C7,0x9C8,8},
{0x9CB,0x9CC,8},{0x9CD,0x9CD,4},{0x9D7,0x9D7,4},{0x9E2,0x9E3,4},{0x9FE,0x9FE,4},{0xA01,0xA02,4},{0xA03,0xA03,8},{0xA3C,0xA3C,4},
{0xA3E,0xA40,8},{0xA41,0xA42,4},{0xA47,0xA48,4},{0xA4B,0xA4D,4},{0xA51,0xA51,4},{0xA70,0xA71,4},{0xA75,0xA75,4},{0xA81,0xA82,4},
{0xA83,0xA83,8},{0xABC,0xABC,4},{0xABE,0xAC0,8},{0xAC1,0xAC5,4},{0xAC7,0xAC8,4},{0xAC9,0xAC9,8},{0xACB,0xACC,8},{0xACD,0xACD,4},
{0xAE2,0xAE3,4},{0xAFA,0xAFF,4},{0xB01,0xB01,4},{0xB02,0xB03,8},{0xB3C,0xB3C,4},{0xB3E,0xB3F,4},{0xB40,0xB40,8},{0xB41,0xB44,4},
{0xB47,0xB48,8},{0xB4B,0xB4C,8},{0xB4D,0xB4D,4},{0xB55,0xB57,4},{0xB62,0xB63,4},{0xB82,0xB82,4},{0xBBE,0xBBE,4},{0xBBF,0xBBF,8},
{0xBC0,0xBC0,4},{0xBC1,0xBC2,8},{0xBC6,0xBC8,8},{0xBCA,0xBCC,8},{0xBCD,0xBCD,4},{0xBD7,0xBD7,4},{0xC00,0xC00,4},{0xC01,0xC03,8},
{0xC04,0xC04,4},{0xC3C,0xC3C,15},{0xC3E,0xC40,4},{0xC41,0xC44,8},{0xC46,0xC48,4},{0xC4A,0xC4D,4},{0xC55,0xC56,4},{0xC5D,0xC5D,15},
{0xC62,0xC63,4},{0xC81,0xC81,4},{0xC82,0xC83,8},{0xCBC,0xCBC,4},{0xCBE,0xCBE,8},{0xCBF,0xCBF,4},{0xCC0,0xCC1,8},{0xCC2,0xCC2,4},
{0xCC3,0xCC4,8},{0xCC6,0xCC6,4},{0xCC7,0xCC8,8},{0xCCA,0xCCB,8},{0xCCC,0xCCD,4},{0xCD5,0xCD6,4},{0xCDD,0xCDD,15},{0xCE2,0xCE3,4},
{0xCF3,0xCF3,15},{0xD00,0xD01,4},{0xD02,0xD03,8},{0xD3B,0xD3C,4},{0xD3E,0xD3E,4},{0xD3F,0xD40,8},{0xD41,0xD44,4},{0xD46,0xD48,8},
{0xD4A,0xD4C,8},{0xD4D,0xD4D,4},{0xD4E,0xD4E,7},{0xD57,0xD57,4},{0xD62,0xD63,4},{0xD81,0xD81,4},{0xD82,0xD83,8},{0xDCA,0xDCA,4},
{0xDCF,0xDCF,4},{0xDD0,0xDD1,8},{0xDD2,0xDD4,4},{0xDD6,0xDD6,4},{0xDD8,0xDDE,8},{0xDDF,0xDDF,4},{0xDF2,0xDF3,8},{0xE31,0xE31,4},
{0xE33,0xE33,8},{0xE34,0xE3A,4},{0xE47,0xE4E,4},{0xEB1,0xEB1,4},{0xEB3,0xEB3,8},{0xEB4,0xEBC,4},{0xEC8,0xECD,4},{0xECE,0xECE,15},
{0xF18,0xF19,4},{0xF35,0xF35,4},{0xF37,0xF37,4},{0xF39,0xF39,4},{0xF3E,0xF3F,8},{0xF71,0xF7E,4},{0xF7F,0xF7F,8},{0xF80,0xF84,4},
{0xF86,0xF87,4},{0xF8D,0xF97,4},{0xF99,0xFBC,4},{0xFC6,0xFC6,4},{0x102D,0x1030,4},{0x1031,0x1031,8},{0x1032,0x1037,4},{0x1039,0x103A,4},
{0x103B,0x103C,8},{0x103D,0x103E,4},{0x1056,0x1057,8},{0x1058,0x1059,4},{0x105E,0x1060,4},{0x1071,0x1074,4},{0x1082,0x1082,4},{0x1084,0x1084,8},
{0x1085,0x1086,4},{0x108D,0x108D,4},{0x109D,0x109D,4},{0x1100,0x115F,9},{0x1160,0x11A7,10},{0x11A8,0x11FF,11},{0x135D,0x135F,4},{0x170D,0x170D,15},
{0x1712,0x1714,4},{0x1715,0x1715,15},{0x171F,0x171F,15},{0x1732,0x1734,4},{0x1752,0x1753,4},{0x1772,0x1773,4},{0x17B4,0x17B5,4},{0x17B6,0x17B6,8},
{0x17B7,0x17BD,4},{0x17BE,0x17C5,8},{0x17C6,0x17C6,4},{0x17C7,0x17C8,8},{0x17C9,0x17D3,4},{0x17DD,0x17DD,4},{0x180B,0x180D,4},{0x180E,0x180E,3},
{0x180F,0x180F,15},{0x1885,0x1886,4},{0x18A9,0x18A9,4},{0x1920,0x1922,4},{0x1923,0x1926,8},{0x1927,0x1928,4},{0x1929,0x192B,8},{0x1930,0x1931,8},
{0x1932,0x1932,4},{0x1933,0x1938,8},{0x1939,0x193B,4},{0x1A17,0x1A18,4},{0x1A19,0x1A1A,8},{0x1A1B,0x1A1B,4},{0x1A55,0x1A55,8},{0x1A56,0x1A56,4},
{0x1A57,0x1A57,8},{0x1A58,0x1A5E,4},{0x1A60,0x1A60,4},{0x1A62,0x1A62,4},{0x1A65,0x1A6C,4},{0x1A6D,0x1A72,8},{0x1A73,0x1A7C,4},{0x1A7F,0x1A7F,4},
{0x1AB0,0x1AC0,4},{0x1AC1,0x1ACE,15},{0x1B00,0x1B03,4},{0x1B04,0x1B04,8},{0x1B34,0x1B3A,4},{0x1B3B,0x1B3B,8},{0x1B3C,0x1B3C,4},{0x1B3D,0x1B41,8},
{0x1B42,0x1B42,4},{0x1B43,0x1B44,8},{0x1B4C,0x1B4C,15},{0x1B6B,0x1B73,4},{0x1B7D,0x1B7E,15},{0x1B80,0x1B81,4},{0x1B82,0x1B82,8},{0x1BA1,0x1BA1,8},
{0x1BA2,0x1BA5,4},{0x1BA6,0x1BA7,8},{0x1BA8,0x1BA9,4},{0x1BAA,0x1BAA,8},{0x1BAB,0x1BAD,4},{0x1BE6,0x1BE6,4},{0x1BE7,0x1BE7,8},{0x1BE8,0x1BE9,4},
{0x1BEA,0x1BEC,8},{0x1BED,0x1BED,4},{0x1BEE,0x1BEE,8},{0x1BEF,0x1BF1,4},{0x1BF2,0x1BF3,8},{0x1C24,0x1C2B,8},{0x1C2C,0x1C33,4},{0x1C34,0x1C35,8},
{0x1C36,0x1C37,4},{0x1CD0,0x1CD2,4},{0x1CD4,0x1CE0,4},{0x1CE1,0x1CE1,8},{0x1CE2,0x1CE8,4},{0x1CED,0x1CED,4},{0x1CF4,0x1CF4,4},{0x1CF7,0x1CF7,8},
{0x1CF8,0x1CF9,4},{0x1DC0,0x1DF9,4},{0x1DFA,0x1DFA,15},{0x1DFB,0x1DFF,4},{0x200B,0x200B,3},{0x200C,0x200C,4},{0x200D,0x200D,5},{0x200E,0x200F,3},
{0x2028,0x202E,3},{0x203C,0x203C,14},{0x2049,0x2049,14},{0x2060,0x206F,3},{0x20C0,0x20C0,15},{0x20D0,0x20F0,4},{0x2122,0x2122,14},{0x2139,0x2139,14},
{0x2194,0x2199,14},{0x21A9,0x21AA,14},{0x231A,0x231B,14},{0x2328,0x2328,14},{0x2388,0x2388,14},{0x23CF,0x23CF,14},{0x23E9,0x23F3,14},{0x23F8,0x23FA,14},
{0x24C2,0x24C2,14},{0x25AA,0x25AB,14},{0x25B6,0x25B6,14},{0x25C0,0x25C0,14},{0x25FB,0x25FE,14},{0x2600,0x2605,14},{0x2607,0x2612,14},{0x2614,0x2685,14},
{0x2690,0x2705,14},{0x2708,0x2712,14},{0x2714,0x2714,14},{0x2716,0x2716,14},{0x271D,0x271D,14},{0x2721,0x2721,14},{0x2728,0x2728,14},{0x2733,0x2734,14},
{0x2744,0x2744,14},{0x2747,0x2747,14},{0x274C,0x274C,14},{0x274E,0x274E,14},{0x2753,0x2755,14},{0x2757,0x2757,14},{0x2763,0x2767,14},{0x2795,0x2797,14},
{0x27A1,0x27A1,14},{0x27B0,0x27B0,14},{0x27BF,0x27BF,14},{0x2934,0x2935,14},{0x2B05,0x2B07,14},{0x2B1B,0x2B1C,14},{0x2B50,0x2B50,14},{0x2B55,0x2B55,14},
{0x2C2F,0x2C2F,15},{0x2C5F,0x2C5F,15},{0x2CEF,0x2CF1,4},{0x2D7F,0x2D7F,4},{0x2DE0,0x2DFF,4},{0x2E53,0x2E5D,15},{0x302A,0x302F,4},{0x3030,0x3030,14},
{0x303D,0x303D,14},{0x3099,0x309A,4},{0x3297,0x3297,14},{0x3299,0x3299,14},{0x9FFD,0x9FFF,15},{0xA66F,0xA672,4},{0xA674,0xA67D,4},{0xA69E,0xA69F,4},
{0xA6F0,0xA6F1,4},{0xA7C0,0xA7C1,15},{0xA7D0,0xA7D1,15},{0xA7D3,0xA7D3,15},{0xA7D5,0xA7D9,15},{0xA7F2,0xA7F4,15},{0xA802,0xA802,4},{0xA806,0xA806,4},
{0xA80B,0xA80B,4},{0xA823,0xA824,8},{0xA825,0xA826,4},{0xA827,0xA827,8},{0xA82C,0xA82C,4},{0xA880,0xA881,8},{0xA8B4,0xA8C3,8},{0xA8C4,0xA8C5,4},
{0xA8E0,0xA8F1,4},{0xA8FF,0xA8FF,4},{0xA926,0xA92D,4},{0xA947,0xA951,4},{0xA952,0xA953,8},{0xA960,0xA97C,9},{0xA980,0xA982,4},{0xA983,0xA983,8},
{0xA9B3,0xA9B3,4},{0xA9B4,0xA9B5,8},{0xA9B6,0xA9B9,4},{0xA9BA,0xA9BB,8},{0xA9BC,0xA9BD,4},{0xA9BE,0xA9C0,8},{0xA9E5,0xA9E5,4},{0xAA29,0xAA2E,4},
{0xAA2F,0xAA30,8},{0xAA31,0xAA32,4},{0xAA33,0xAA34,8},{0xAA35,0xAA36,4},{0xAA43,0xAA43,4},{0xAA4C,0xAA4C,4},{0xAA4D,0xAA4D,8},{0xAA7C,0xAA7C,4},
{0xAAB0,0xAAB0,4},{0xAAB2,0xAAB4,4},{0xAAB7,0xAAB8,4},{0xAABE,0xAABF,4},{0xAAC1,0xAAC1,4},{0xAAEB,0xAAEB,8},{0xAAEC,0xAAED,4},{0xAAEE,0xAAEF,8},
{0xAAF5,0xAAF5,8},{0xAAF6,0xAAF6,4},{0xABE3,0xABE4,8},{0xABE5,0xABE5,4},{0xABE6,0xABE7,8},{0xABE8,0xABE8,4},{0xABE9,0xABEA,8},{0xABEC,0xABEC,8},
{0xABED,0xABED,4},{0xD7B0,0xD7C6,10},{0xD7CB,0xD7FB,11},{0xFB1E,0xFB1E,4},{0xFBC2,0xFBC2,15},{0xFD40,0xFD4F,15},{0xFDCF,0xFDCF,15},{0xFDFE,0xFDFF,15},
{0xFE00,0xFE0F,4},{0xFE20,0xFE2F,4},{0xFEFF,0xFEFF,3},{0xFF9E,0xFF9F,4},{0xFFF0,0xFFFB,3},{0x101FD,0x101FD,4},{0x102E0,0x102E0,4},{0x10376,0x1037A,4},
{0x10570,0x1057A,15},{0x1057C,0x1058A,15},{0x1058C,0x10592,15},{0x10594,0x10595,15},{0x10597,0x105A1,15},{0x105A3,0x105B1,15},{0x105B3,0x105B9,15},{0x105BB,0x105BC,15},
{0x10780,0x10785,15},{0x10787,0x107B0,15},{0x107B2,0x107BA,15},{0x10A01,0x10A03,4},{0x10A05,0x10A06,4},{0x10A0C,0x10A0F,4},{0x10A38,0x10A3A,4},{0x10A3F,0x10A3F,4},
{0x10AE5,0x10AE6,4},{0x10D24,0x10D27,4},{0x10EAB,0x10EAC,4},{0x10EFD,0x10EFF,15},{0x10F46,0x10F50,4},{0x10F70,0x10F89,15},{0x11000,0x11000,8},{0x11001,0x11001,4},
{0x11002,0x11002,8},{0x11038,0x11046,4},{0x11070,0x11075,15},{0x1107F,0x11081,4},{0x11082,0x11082,8},{0x110B0,0x110B2,8},{0x110B3,0x110B6,4},{0x110B7,0x110B8,8},
{0x110B9,0x110BA,4},{0x110BD,0x110BD,7},{0x110C2,0x110C2,15},{0x110CD,0x110CD,7},{0x11100,0x11102,4},{0x11127,0x1112B,4},{0x1112C,0x1112C,8},{0x1112D,0x11134,4},
{0x11145,0x11146,8},{0x11173,0x11173,4},{0x11180,0x11181,4},{0x11182,0x11182,8},{0x111B3,0x111B5,8},{0x111B6,0x111BE,4},{0x111BF,0x111C0,8},{0x111C2,0x111C3,7},
{0x111C9,0x111CC,4},{0x111CE,0x111CE,8},{0x111CF,0x111CF,4},{0x1122C,0x1122E,8},{0x1122F,0x11231,4},{0x11232,0x11233,8},{0x11234,0x11234,4},{0x11235,0x11235,8},
{0x11236,0x11237,4},{0x1123E,0x1123E,4},{0x1123F,0x11241,15},{0x112DF,0x112DF,4},{0x112E0,0x112E2,8},{0x112E3,0x112EA,4},{0x11300,0x11301,4},{0x11302,0x11303,8},
{0x1133B,0x1133C,4},{0x1133E,0x1133E,4},{0x1133F,0x1133F,8},{0x11340,0x11340,4},{0x11341,0x11344,8},{0x11347,0x11348,8},{0x1134B,0x1134D,8},{0x11357,0x11357,4},
{0x11362,0x11363,8},{0x11366,0x1136C,4},{0x11370,0x11374,4},{0x11435,0x11437,8},{0x11438,0x1143F,4},{0x11440,0x11441,8},{0x11442,0x11444,4},{0x11445,0x11445,8},
{0x11446,0x11446,4},{0x1145E,0x1145E,4},{0x114B0,0x114B0,4},{0x114B1,0x114B2,8},{0x114B3,0x114B8,4},{0x114B9,0x114B9,8},{0x114BA,0x114BA,4},{0x114BB,0x114BC,8},
{0x114BD,0x114BD,4},{0x114BE,0x114BE,8},{0x114BF,0x114C0,4},{0x114C1,0x114C1,8},{0x114C2,0x114C3,4},{0x115AF,0x115AF,4},{0x115B0,0x115B1,8},{0x115B2,0x115B5,4},
{0x115B8,0x115BB,8},{0x115BC,0x115BD,4},{0x115BE,0x115BE,8},{0x115BF,0x115C0,4},{0x115DC,0x115DD,4},{0x11630,0x11632,8},{0x11633,0x1163A,4},{0x1163B,0x1163C,8},
{0x1163D,0x1163D,4},{0x1163E,0x1163E,8},{0x1163F,0x11640,4},{0x116AB,0x116AB,4},{0x116AC,0x116AC,8},{0x116AD,0x116AD,4},{0x116AE,0x116AF,8},{0x116B0,0x116B5,4},
{0x116B6,0x116B6,8},{0x116B7,0x116B7,4},{0x116B9,0x116B9,15},{0x1171D,0x1171F,4},{0x11722,0x11725,4},{0x11726,0x11726,8},{0x11727,0x1172B,4},{0x11740,0x11746,15},
{0x1182C,0x1182E,8},{0x1182F,0x11837,4},{0x11838,0x11838,8},{0x11839,0x1183A,4},{0x11930,0x11930,4},{0x11931,0x11935,8},{0x11937,0x11938,8},{0x1193B,0x1193C,4},
{0x1193D,0x1193D,8},{0x1193E,0x1193E,4},{0x1193F,0x1193F,7},{0x11940,0x11940,8},{0x11941,0x11941,7},{0x11942,0x11942,8},{0x11943,0x11943,4},{0x119D1,0x119D3,8},
{0x119D4,0x119D7,4},{0x119DA,0x119DB,4},{0x119DC,0x119DF,8},{0x119E0,0x119E0,4},{0x119E4,0x119E4,8},{0x11A01,0x11A0A,4},{0x11A33,0x11A38,4},{0x11A39,0x11A39,8},
{0x11A3A,0x11A3A,7},{0x11A3B,0x11A3E,4},{0x11A47,0x11A47,4},{0x11A51,0x11A56,4},{0x11A57,0x11A58,8},{0x11A59,0x11A5B,4},{0x11A84,0x11A89,7},{0x11A8A,0x11A96,4},
{0x11A97,0x11A97,8},{0x11A98,0x11A99,4},{0x11AB0,0x11ABF,15},{0x11B00,0x11B09,15},{0x11C2F,0x11C2F,8},{0x11C30,0x11C36,4},{0x11C38,0x11C3D,4},{0x11C3E,0x11C3E,8},
{0x11C3F,0x11C3F,4},{0x11C92,0x11CA7,4},{0x11CA9,0x11CA9,8},{0x11CAA,0x11CB0,4},{0x11CB1,0x11CB1,8},{0x11CB2,0x11CB3,4},{0x11CB4,0x11CB4,8},{0x11CB5,0x11CB6,4},
{0x11D31,0x11D36,4},{0x11D3A,0x11D3A,4},{0x11D3C,0x11D3D,4},{0x11D3F,0x11D45,4},{0x11D46,0x11D46,7},{0x11D47,0x11D47,4},{0x11D8A,0x11D8E,8},{0x11D90,0x11D91,4},
{0x11D93,0x11D94,8},{0x11D95,0x11D95,4},{0x11D96,0x11D96,8},{0x11D97,0x11D97,4},{0x11EF3,0x11EF4,4},{0x11EF5,0x11EF6,8},{0x11F00,0x11F10,15},{0x11F12,0x11F3A,15},
{0x11F3E,0x11F59,15},{0x12F90,0x12FF2,15},{0x1342F,0x1342F,15},{0x13430,0x13438,3},{0x13439,0x13455,15},{0x16A70,0x16ABE,15},{0x16AC0,0x16AC9,15},{0x16AF0,0x16AF4,4},
{0x16B30,0x16B36,4},{0x16F4F,0x16F4F,4},{0x16F51,0x16F87,8},{0x16F8F,0x16F92,4},{0x16FE4,0x16FE4,4},{0x16FF0,0x16FF1,8},{0x1AFF0,0x1AFF3,15},{0x1AFF5,0x1AFFB,15},
{0x1AFFD,0x1AFFE,15},{0x1B11F,0x1B122,15},{0x1B132,0x1B132,15},{0x1B155,0x1B155,15},{0x1BC9D,0x1BC9E,4},{0x1BCA0,0x1BCA3,3},{0x1CF00,0x1CF2D,15},{0x1CF30,0x1CF46,15},
{0x1CF50,0x1CFC3,15},{0x1D165,0x1D165,4},{0x1D166,0x1D166,8},{0x1D167,0x1D169,4},{0x1D16D,0x1D16D,8},{0x1D16E,0x1D172,4},{0x1D173,0x1D17A,3},{0x1D17B,0x1D182,4},
{0x1D185,0x1D18B,4},{0x1D1AA,0x1D1AD,4},{0x1D1E9,0x1D1EA,15},{0x1D242,0x1D244,4},{0x1D2C0,0x1D2D3,15},{0x1DA00,0x1DA36,4},{0x1DA3B,0x1DA6C,4},{0x1DA75,0x1DA75,4},
{0x1DA84,0x1DA84,4},{0x1DA9B,0x1DA9F,4},{0x1DAA1,0x1DAAF,4},{0x1DF00,0x1DF1E,15},{0x1DF25,0x1DF2A,15},{0x1E000,0x1E006,4},{0x1E008,0x1E018,4},{0x1E01B,0x1E021,4},
{0x1E023,0x1E024,4},{0x1E026,0x1E02A,4},{0x1E030,0x1E06D,15},{0x1E08F,0x1E08F,15},{0x1E130,0x1E136,4},{0x1E290,0x1E2AE,15},{0x1E2EC,0x1E2EF,4},{0x1E4D0,0x1E4F9,15},
{0x1E7E0,0x1E7E6,15},{0x1E7E8,0x1E7EB,15},{0x1E7ED,0x1E7EE,15},{0x1E7F0,0x1E7FE,15},{0x1E8D0,0x1E8D6,4},{0x1E944,0x1E94A,4},{0x1F000,0x1F0FF,14},{0x1F10D,0x1F10F,14},
{0x1F12F,0x1F12F,14},{0x1F16C,0x1F171,14},{0x1F17E,0x1F17F,14},{0x1F18E,0x1F18E,14},{0x1F191,0x1F19A,14},{0x1F1AD,0x1F1E5,14},{0x1F1E6,0x1F1FF,6},{0x1F201,0x1F20F,14},
{0x1F21A,0x1F21A,14},{0x1F22F,0x1F22F,14},{0x1F232,0x1F23A,14},{0x1F23C,0x1F23F,14},{0x1F249,0x1F3FA,14},{0x1F3FB,0x1F3FF,4},{0x1F400,0x1F53D,14},{0x1F546,0x1F64F,14},
{0x1F680,0x1F6DB,14},{0x1F6DC,0x1F6DF,15},{0x1F6E0,0x1F6FF,14},{0x1F774,0x1F776,15},{0x1F777,0x1F77A,14},{0x1F77B,0x1F77F,15},{0x1F7D5,0x1F7D8,14},{0x1F7D9,0x1F7D9,15},
{0x1F7DA,0x1F7EF,14},{0x1F7F0,0x1F7F0,15},{0x1F7F1,0x1F7FF,14},{0x1F80C,0x1F80F,14},{0x1F848,0x1F84F,14},{0x1F85A,0x1F85F,14},{0x1F888,0x1F88F,14},{0x1F8AE,0x1F8FF,14},
{0x1F90C,0x1F93A,14},{0x1F93C,0x1F945,14},{0x1F947,0x1F978,14},{0x1F979,0x1F979,15},{0x1F97A,0x1F9CB,14},{0x1F9CC,0x1F9CC,15},{0x1F9CD,0x1FA74,14},{0x1FA75,0x1FA77,15},
{0x1FA78,0x1FA7A,14},{0x1FA7B,0x1FA7C,15},{0x1FA7D,0x1FA86,14},{0x1FA87,0x1FA88,15},{0x1FA89,0x1FAA8,14},{0x1FAA9,0x1FAAF,15},{0x1FAB0,0x1FAB6,14},{0x1FAB7,0x1FABD,15},
{0x1FABE,0x1FABE,14},{0x1FABF,0x1FABF,15},{0x1FAC0,0x1FAC2,14},{0x1FAC3,0x1FAC5,15},{0x1FAC6,0x1FACD,14},{0x1FACE,0x1FACF,15},{0x1FAD0,0x1FAD6,14},{0x1FAD7,0x1FADB,15},
{0x1FADC,0x1FADF,14},{0x1FAE0,0x1FAE8,15},{0x1FAE9,0x1FAEF,14},{0x1FAF0,0x1FAF8,15},{0x1FAF9,0x1FAFF,14},{0x1FC00,0x1FFFD,14},{0x2A6DE,0x2A6DF,15},{0x2B735,0x2B739,15},
{0x31350,0x323AF,15},{0xE0000,0xE001F,3},{0xE0020,0xE007F,4},{0xE0080,0xE00FF,3},{0xE0100,0xE01EF,4},{0xE01F0,0xE0FFF,3},
};   // Hangul syllables U+AC00..U+D7A3: LV every 28, LVT otherwise
#endif
