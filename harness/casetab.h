// Simple case mappings {letter, capital, small} of the letters of Unicode 3.2 (and U+03F7 to U+03FB) outside planes 1 and up, taken from
// the Unicode data of Python; left out: U+1FBE and the letterlike signs U+2126, U+212A, U+212B.
#ifndef VERIF_CASETAB_H
#define VERIF_CASETAB_H
#include <stdint.h>
namespace pat {
static const uint32_t caseTable[][3] = {
	{0x41,0x41,0x61}, {0x42,0x42,0x62}, {0x43,0x43,0x63}, {0x44,0x44,0x64}, {0x45,0x45,0x65}, {0x46,0x46,0x66}, {0x47,0x47,0x67}, {0x48,0x48,0x68},
	{0x49,0x49,0x69}, {0x4A,0x4A,0x6A}, {0x4B,0x4B,0x6B}, {0x4C,0x4C,0x6C}, {0x4D,0x4D,0x6D}, {0x4E,0x4E,0x6E}, {0x4F,0x4F,0x6F}, {0x50,0x50,0x70},
	{0x51,0x51,0x71}, {0x52,0x52,0x72}, {0x53,0x53,0x73}, {0x54,0x54,0x74}, {0x55,0x55,0x75}, {0x56,0x56,0x76}, {0x57,0x57,0x77}, {0x58,0x58,0x78},
	{0x59,0x59,0x79}, {0x5A,0x5A,0x7A}, {0x61,0x41,0x61}, {0x62,0x42,0x62}, {0x63,0x43,0x63}, {0x64,0x44,0x64}, {0x65,0x45,0x65}, {0x66,0x46,0x66},
	{0x67,0x47,0x67}, {0x68,0x48,0x68}, {0x69,0x49,0x69}, {0x6A,0x4A,0x6A}, {0x6B,0x4B,0x6B}, {0x6C,0x4C,0x6C}, {0x6D,0x4D,0x6D}, {0x6E,0x4E,0x6E},
	{0x6F,0x4F,0x6F}, {0x70,0x50,0x70}, {0x71,0x51,0x71}, {0x72,0x52,0x72}, {0x73,0x53,0x73}, {0x74,0x54,0x74}, {0x75,0x55,0x75}, {0x76,0x56,0x76},
	{0x77,0x57,0x77}, {0x78,0x58,0x78}, {0x79,0x59,0x79}, {0x7A,0x5A,0x7A}, {0xB5,0x39C,0xB5}, {0xC0,0xC0,0xE0}, {0xC1,0xC1,0xE1}, {0xC2,0xC2,0xE2},
	{0xC3,0xC3,0xE3}, {0xC4,0xC4,0xE4}, {0xC5,0xC5,0xE5}, {0xC6,0xC6,0xE6}, {0xC7,0xC7,0xE7}, {0xC8,0xC8,0xE8}, {0xC9,0xC9,0xE9}, {0xCA,0xCA,0xEA},
	{0xCB,0xCB,0xEB}, {0xCC,0xCC,0xEC}, {0xCD,0xCD,0xED}, {0xCE,0xCE,0xEE}, {0xCF,0xCF,0xEF}, {0xD0,0xD0,0xF0}, {0xD1,0xD1,0xF1}, {0xD2,0xD2,0xF2},
	{0xD3,0xD3,0xF3}, {0xD4,0xD4,0xF4}, {0xD5,0xD5,0xF5}, {0xD6,0xD6,0xF6}, {0xD8,0xD8,0xF8}, {0xD9,0xD9,0xF9}, {0xDA,0xDA,0xFA}, {0xDB,0xDB,0xFB},
	{0xDC,0xDC,0xFC}, {0xDD,0xDD,0xFD}, {0xDE,0xDE,0xFE}, {0xE0,0xC0,0xE0}, {0xE1,0xC1,0xE1}, {0xE2,0xC2,0xE2}, {0xE3,0xC3,0xE3}, {0xE4,0xC4,0xE4},
	{0xE5,0xC5,0xE5}, {0xE6,0xC6,0xE6}, {0xE7,0xC7,0xE7}, {0xE8,0xC8,0xE8}, {0xE9,0xC9,0xE9}, {0xEA,0xCA,0xEA}, {0xEB,0xCB,0xEB}, {0xEC,0xCC,0xEC},
	{0xED,0xCD,0xED}, {0xEE,0xCE,0xEE}, {0xEF,0xCF,0xEF}, {0xF0,0xD0,0xF0}, {0xF1,0xD1,0xF1}, {0xF2,0xD2,0xF2}, {0xF3,0xD3,0xF3}, {0xF4,0xD4,0xF4},
	{0xF5,0xD5,0xF5}, {0xF6,0xD6,0xF6}, {0xF8,0xD8,0xF8}, {0xF9,0xD9,0xF9}, {0xFA,0xDA,0xFA}, {0xFB,0xDB,0xFB}, {0xFC,0xDC,0xFC}, {0xFD,0xDD,0xFD},
	{0xFE,0xDE,0xFE}, {0xFF,0x178,0xFF}, {0x100,0x100,0x101}, {0x101,0x100,0x101}, {0x102,0x102,0x103}, {0x103,0x102,0x103}, {0x104,0x104,0x105}, {0x105,0x104,0x105},
	{0x106,0x106,0x107}, {0x107,0x106,0x107}, {0x108,0x108,0x109}, {0x109,0x108,0x109}, {0x10A,0x10A,0x10B}, {0x10B,0x10A,0x10B}, {0x10C,0x10C,0x10D}, {0x10D,0x10C,0x10D},
	{0x10E,0x10E,0x10F}, {0x10F,0x10E,0x10F}, {0x110,0x110,0x111}, {0x111,0x110,0x111}, {0x112,0x112,0x113}, {0x113,0x112,0x113}, {0x114,0x114,0x115}, {0x115,0x114,0x115},
	{0x116,0x116,0x117}, {0x117,0x116,0x117}, {0x118,0x118,0x119}, {0x119,0x118,0x119}, {0x11A,0x11A,0x11B}, {0x11B,0x11A,0x11B}, {0x11C,0x11C,0x11D}, {0x11D,0x11C,0x11D},
	{0x11E,0x11E,0x11F}, {0x11F,0x11E,0x11F}, {0x120,0x120,0x121}, {0x121,0x120,0x121}, {0x122,0x122,0x123}, {0x123,0x122,0x123}, {0x124,0x124,0x125}, {0x125,0x124,0x125},
	{0x126,0x126,0x127}, {0x127,0x126,0x127}, {0x128,0x128,0x129}, {0x129,0x128,0x129}, {0x12A,0x12A,0x12B}, {0x12B,0x12A,0x12B}, {0x12C,0x12C,0x12D}, {0x12D,0x12C,0x12D},
	{0x12E,0x12E,0x12F}, {0x12F,0x12E,0x12F}, {0x130,0x130,0x69}, {0x131,0x49,0x131}, {0x132,0x132,0x133}, {0x133,0x132,0x133}, {0x134,0x134,0x135}, {0x135,0x134,0x135},
	{0x136,0x136,0x137}, {0x137,0x136,0x137}, {0x139,0x139,0x13A}, {0x13A,0x139,0x13A}, {0x13B,0x13B,0x13C}, {0x13C,0x13B,0x13C}, {0x13D,0x13D,0x13E}, {0x13E,0x13D,0x13E},
	{0x13F,0x13F,0x140}, {0x140,0x13F,0x140}, {0x141,0x141,0x142}, {0x142,0x141,0x142}, {0x143,0x143,0x144}, {0x144,0x143,0x144}, {0x145,0x145,0x146}, {0x146,0x145,0x146},
	{0x147,0x147,0x148}, {0x148,0x147,0x148}, {0x14A,0x14A,0x14B}, {0x14B,0x14A,0x14B}, {0x14C,0x14C,0x14D}, {0x14D,0x14C,0x14D}, {0x14E,0x14E,0x14F}, {0x14F,0x14E,0x14F},
	{0x150,0x150,0x151}, {0x151,0x150,0x151}, {0x152,0x152,0x153}, {0x153,0x152,0x153}, {0x154,0x154,0x155}, {0x155,0x154,0x155}, {0x156,0x156,0x157}, {0x157,0x156,0x157},
	{0x158,0x158,0x159}, {0x159,0x158,0x159}, {0x15A,0x15A,0x15B}, {0x15B,0x15A,0x15B}, {0x15C,0x15C,0x15D}, {0x15D,0x15C,0x15D}, {0x15E,0x15E,0x15F}, {0x15F,0x15E,0x15F},
	{0x160,0x160,0x161}, {0x161,0x160,0x161}, {0x162,0x162,0x163}, {0x163,0x162,0x163}, {0x164,0x164,0x165}, {0x165,0x164,0x165}, {0x166,0x166,0x167}, {0x167,0x166,0x167},
	{0x168,0x168,0x169}, {0x169,0x168,0x169}, {0x16A,0x16A,0x16B}, {0x16B,0x16A,0x16B}, {0x16C,0x16C,0x16D}, {0x16D,0x16C,0x16D}, {0x16E,0x16E,0x16F}, {0x16F,0x16E,0x16F},
	{0x170,0x170,0x171}, {0x171,0x170,0x171}, {0x172,0x172,0x173}, {0x173,0x172,0x173}, {0x174,0x174,0x175}, {0x175,0x174,0x175}, {0x176,0x176,0x177}, {0x177,0x176,0x177},
	{0x178,0x178,0xFF}, {0x179,0x179,0x17A}, {0x17A,0x179,0x17A}, {0x17B,0x17B,0x17C}, {0x17C,0x17B,0x17C}, {0x17D,0x17D,0x17E}, {0x17E,0x17D,0x17E}, {0x17F,0x53,0x17F},
	{0x181,0x181,0x253}, {0x182,0x182,0x183}, {0x183,0x182,0x183}, {0x184,0x184,0x185}, {0x185,0x184,0x185}, {0x186,0x186,0x254}, {0x187,0x187,0x188}, {0x188,0x187,0x188},
	{0x189,0x189,0x256}, {0x18A,0x18A,0x257}, {0x18B,0x18B,0x18C}, {0x18C,0x18B,0x18C}, {0x18E,0x18E,0x1DD}, {0x18F,0x18F,0x259}, {0x190,0x190,0x25B}, {0x191,0x191,0x192},
	{0x192,0x191,0x192}, {0x193,0x193,0x260}, {0x194,0x194,0x263}, {0x195,0x1F6,0x195}, {0x196,0x196,0x269}, {0x197,0x197,0x268}, {0x198,0x198,0x199}, {0x199,0x198,0x199},
	{0x19C,0x19C,0x26F}, {0x19D,0x19D,0x272}, {0x19E,0x220,0x19E}, {0x19F,0x19F,0x275}, {0x1A0,0x1A0,0x1A1}, {0x1A1,0x1A0,0x1A1}, {0x1A2,0x1A2,0x1A3}, {0x1A3,0x1A2,0x1A3},
	{0x1A4,0x1A4,0x1A5}, {0x1A5,0x1A4,0x1A5}, {0x1A6,0x1A6,0x280}, {0x1A7,0x1A7,0x1A8}, {0x1A8,0x1A7,0x1A8}, {0x1A9,0x1A9,0x283}, {0x1AC,0x1AC,0x1AD}, {0x1AD,0x1AC,0x1AD},
	{0x1AE,0x1AE,0x288}, {0x1AF,0x1AF,0x1B0}, {0x1B0,0x1AF,0x1B0}, {0x1B1,0x1B1,0x28A}, {0x1B2,0x1B2,0x28B}, {0x1B3,0x1B3,0x1B4}, {0x1B4,0x1B3,0x1B4}, {0x1B5,0x1B5,0x1B6},
	{0x1B6,0x1B5,0x1B6}, {0x1B7,0x1B7,0x292}, {0x1B8,0x1B8,0x1B9}, {0x1B9,0x1B8,0x1B9}, {0x1BC,0x1BC,0x1BD}, {0x1BD,0x1BC,0x1BD}, {0x1BF,0x1F7,0x1BF}, {0x1C4,0x1C4,0x1C6},
	{0x1C5,0x1C4,0x1C6}, {0x1C6,0x1C4,0x1C6}, {0x1C7,0x1C7,0x1C9}, {0x1C8,0x1C7,0x1C9}, {0x1C9,0x1C7,0x1C9}, {0x1CA,0x1CA,0x1CC}, {0x1CB,0x1CA,0x1CC}, {0x1CC,0x1CA,0x1CC},
	{0x1CD,0x1CD,0x1CE}, {0x1CE,0x1CD,0x1CE}, {0x1CF,0x1CF,0x1D0}, {0x1D0,0x1CF,0x1D0}, {0x1D1,0x1D1,0x1D2}, {0x1D2,0x1D1,0x1D2}, {0x1D3,0x1D3,0x1D4}, {0x1D4,0x1D3,0x1D4},
	{0x1D5,0x1D5,0x1D6}, {0x1D6,0x1D5,0x1D6}, {0x1D7,0x1D7,0x1D8}, {0x1D8,0x1D7,0x1D8}, {0x1D9,0x1D9,0x1DA}, {0x1DA,0x1D9,0x1DA}, {0x1DB,0x1DB,0x1DC}, {0x1DC,0x1DB,0x1DC},
	{0x1DD,0x18E,0x1DD}, {0x1DE,0x1DE,0x1DF}, {0x1DF,0x1DE,0x1DF}, {0x1E0,0x1E0,0x1E1}, {0x1E1,0x1E0,0x1E1}, {0x1E2,0x1E2,0x1E3}, {0x1E3,0x1E2,0x1E3}, {0x1E4,0x1E4,0x1E5},
	{0x1E5,0x1E4,0x1E5}, {0x1E6,0x1E6,0x1E7}, {0x1E7,0x1E6,0x1E7}, {0x1E8,0x1E8,0x1E9}, {0x1E9,0x1E8,0x1E9}, {0x1EA,0x1EA,0x1EB}, {0x1EB,0x1EA,0x1EB}, {0x1EC,0x1EC,0x1ED},
	{0x1ED,0x1EC,0x1ED}, {0x1EE,0x1EE,0x1EF}, {0x1EF,0x1EE,0x1EF}, {0x1F1,0x1F1,0x1F3}, {0x1F2,0x1F1,0x1F3}, {0x1F3,0x1F1,0x1F3}, {0x1F4,0x1F4,0x1F5}, {0x1F5,0x1F4,0x1F5},
	{0x1F6,0x1F6,0x195}, {0x1F7,0x1F7,0x1BF}, {0x1F8,0x1F8,0x1F9}, {0x1F9,0x1F8,0x1F9}, {0x1FA,0x1FA,0x1FB}, {0x1FB,0x1FA,0x1FB}, {0x1FC,0x1FC,0x1FD}, {0x1FD,0x1FC,0x1FD},
	{0x1FE,0x1FE,0x1FF}, {0x1FF,0x1FE,0x1FF}, {0x200,0x200,0x201}, {0x201,0x200,0x201}, {0x202,0x202,0x203}, {0x203,0x202,0x203}, {0x204,0x204,0x205}, {0x205,0x204,0x205},
	{0x206,0x206,0x207}, {0x207,0x206,0x207}, {0x208,0x208,0x209}, {0x209,0x208,0x209}, {0x20A,0x20A,0x20B}, {0x20B,0x20A,0x20B}, {0x20C,0x20C,0x20D}, {0x20D,0x20C,0x20D},
	{0x20E,0x20E,0x20F}, {0x20F,0x20E,0x20F}, {0x210,0x210,0x211}, {0x211,0x210,0x211}, {0x212,0x212,0x213}, {0x213,0x212,0x213}, {0x214,0x214,0x215}, {0x215,0x214,0x215},
	{0x216,0x216,0x217}, {0x217,0x216,0x217}, {0x218,0x218,0x219}, {0x219,0x218,0x219}, {0x21A,0x21A,0x21B}, {0x21B,0x21A,0x21B}, {0x21C,0x21C,0x21D}, {0x21D,0x21C,0x21D},
	{0x21E,0x21E,0x21F}, {0x21F,0x21E,0x21F}, {0x220,0x220,0x19E}, {0x222,0x222,0x223}, {0x223,0x222,0x223}, {0x224,0x224,0x225}, {0x225,0x224,0x225}, {0x226,0x226,0x227},
	{0x227,0x226,0x227}, {0x228,0x228,0x229}, {0x229,0x228,0x229}, {0x22A,0x22A,0x22B}, {0x22B,0x22A,0x22B}, {0x22C,0x22C,0x22D}, {0x22D,0x22C,0x22D}, {0x22E,0x22E,0x22F},
	{0x22F,0x22E,0x22F}, {0x230,0x230,0x231}, {0x231,0x230,0x231}, {0x232,0x232,0x233}, {0x233,0x232,0x233}, {0x253,0x181,0x253}, {0x254,0x186,0x254}, {0x256,0x189,0x256},
	{0x257,0x18A,0x257}, {0x259,0x18F,0x259}, {0x25B,0x190,0x25B}, {0x260,0x193,0x260}, {0x263,0x194,0x263}, {0x268,0x197,0x268}, {0x269,0x196,0x269}, {0x26F,0x19C,0x26F},
	{0x272,0x19D,0x272}, {0x275,0x19F,0x275}, {0x280,0x1A6,0x280}, {0x283,0x1A9,0x283}, {0x288,0x1AE,0x288}, {0x28A,0x1B1,0x28A}, {0x28B,0x1B2,0x28B}, {0x292,0x1B7,0x292},
	{0x345,0x399,0x345}, {0x386,0x386,0x3AC}, {0x388,0x388,0x3AD}, {0x389,0x389,0x3AE}, {0x38A,0x38A,0x3AF}, {0x38C,0x38C,0x3CC}, {0x38E,0x38E,0x3CD}, {0x38F,0x38F,0x3CE},
	{0x391,0x391,0x3B1}, {0x392,0x392,0x3B2}, {0x393,0x393,0x3B3}, {0x394,0x394,0x3B4}, {0x395,0x395,0x3B5}, {0x396,0x396,0x3B6}, {0x397,0x397,0x3B7}, {0x398,0x398,0x3B8},
	{0x399,0x399,0x3B9}, {0x39A,0x39A,0x3BA}, {0x39B,0x39B,0x3BB}, {0x39C,0x39C,0x3BC}, {0x39D,0x39D,0x3BD}, {0x39E,0x39E,0x3BE}, {0x39F,0x39F,0x3BF}, {0x3A0,0x3A0,0x3C0},
	{0x3A1,0x3A1,0x3C1}, {0x3A3,0x3A3,0x3C3}, {0x3A4,0x3A4,0x3C4}, {0x3A5,0x3A5,0x3C5}, {0x3A6,0x3A6,0x3C6}, {0x3A7,0x3A7,0x3C7}, {0x3A8,0x3A8,0x3C8}, {0x3A9,0x3A9,0x3C9},
	{0x3AA,0x3AA,0x3CA}, {0x3AB,0x3AB,0x3CB}, {0x3AC,0x386,0x3AC}, {0x3AD,0x388,0x3AD}, {0x3AE,0x389,0x3AE}, {0x3AF,0x38A,0x3AF}, {0x3B1,0x391,0x3B1}, {0x3B2,0x392,0x3B2},
	{0x3B3,0x393,0x3B3}, {0x3B4,0x394,0x3B4}, {0x3B5,0x395,0x3B5}, {0x3B6,0x396,0x3B6}, {0x3B7,0x397,0x3B7}, {0x3B8,0x398,0x3B8}, {0x3B9,0x399,0x3B9}, {0x3BA,0x39A,0x3BA},
	{0x3BB,0x39B,0x3BB}, {0x3BC,0x39C,0x3BC}, {0x3BD,0x39D,0x3BD}, {0x3BE,0x39E,0x3BE}, {0x3BF,0x39F,0x3BF}, {0x3C0,0x3A0,0x3C0}, {0x3C1,0x3A1,0x3C1}, {0x3C2,0x3A3,0x3C2},
	{0x3C3,0x3A3,0x3C3}, {0x3C4,0x3A4,0x3C4}, {0x3C5,0x3A5,0x3C5}, {0x3C6,0x3A6,0x3C6}, {0x3C7,0x3A7,0x3C7}, {0x3C8,0x3A8,0x3C8}, {0x3C9,0x3A9,0x3C9}, {0x3CA,0x3AA,0x3CA},
	{0x3CB,0x3AB,0x3CB}, {0x3CC,0x38C,0x3CC}, {0x3CD,0x38E,0x3CD}, {0x3CE,0x38F,0x3CE}, {0x3D0,0x392,0x3D0}, {0x3D1,0x398,0x3D1}, {0x3D5,0x3A6,0x3D5}, {0x3D6,0x3A0,0x3D6},
	{0x3D8,0x3D8,0x3D9}, {0x3D9,0x3D8,0x3D9}, {0x3DA,0x3DA,0x3DB}, {0x3DB,0x3DA,0x3DB}, {0x3DC,0x3DC,0x3DD}, {0x3DD,0x3DC,0x3DD}, {0x3DE,0x3DE,0x3DF}, {0x3DF,0x3DE,0x3DF},
	{0x3E0,0x3E0,0x3E1}, {0x3E1,0x3E0,0x3E1}, {0x3E2,0x3E2,0x3E3}, {0x3E3,0x3E2,0x3E3}, {0x3E4,0x3E4,0x3E5}, {0x3E5,0x3E4,0x3E5}, {0x3E6,0x3E6,0x3E7}, {0x3E7,0x3E6,0x3E7},
	{0x3E8,0x3E8,0x3E9}, {0x3E9,0x3E8,0x3E9}, {0x3EA,0x3EA,0x3EB}, {0x3EB,0x3EA,0x3EB}, {0x3EC,0x3EC,0x3ED}, {0x3ED,0x3EC,0x3ED}, {0x3EE,0x3EE,0x3EF}, {0x3EF,0x3EE,0x3EF},
	{0x3F0,0x39A,0x3F0}, {0x3F1,0x3A1,0x3F1}, {0x3F2,0x3F9,0x3F2}, {0x3F4,0x3F4,0x3B8}, {0x3F5,0x395,0x3F5}, {0x3F7,0x3F7,0x3F8}, {0x3F8,0x3F7,0x3F8}, {0x3F9,0x3F9,0x3F2},
	{0x3FA,0x3FA,0x3FB}, {0x3FB,0x3FA,0x3FB}, {0x400,0x400,0x450}, {0x401,0x401,0x451}, {0x402,0x402,0x452}, {0x403,0x403,0x453}, {0x404,0x404,0x454}, {0x405,0x405,0x455},
	{0x406,0x406,0x456}, {0x407,0x407,0x457}, {0x408,0x408,0x458}, {0x409,0x409,0x459}, {0x40A,0x40A,0x45A}, {0x40B,0x40B,0x45B}, {0x40C,0x40C,0x45C}, {0x40D,0x40D,0x45D},
	{0x40E,0x40E,0x45E}, {0x40F,0x40F,0x45F}, {0x410,0x410,0x430}, {0x411,0x411,0x431}, {0x412,0x412,0x432}, {0x413,0x413,0x433}, {0x414,0x414,0x434}, {0x415,0x415,0x435},
	{0x416,0x416,0x436}, {0x417,0x417,0x437}, {0x418,0x418,0x438}, {0x419,0x419,0x439}, {0x41A,0x41A,0x43A}, {0x41B,0x41B,0x43B}, {0x41C,0x41C,0x43C}, {0x41D,0x41D,0x43D},
	{0x41E,0x41E,0x43E}, {0x41F,0x41F,0x43F}, {0x420,0x420,0x440}, {0x421,0x421,0x441}, {0x422,0x422,0x442}, {0x423,0x423,0x443}, {0x424,0x424,0x444}, {0x425,0x425,0x445},
	{0x426,0x426,0x446}, {0x427,0x427,0x447}, {0x428,0x428,0x448}, {0x429,0x429,0x449}, {0x42A,0x42A,0x44A}, {0x42B,0x42B,0x44B}, {0x42C,0x42C,0x44C}, {0x42D,0x42D,0x44D},
	{0x42E,0x42E,0x44E}, {0x42F,0x42F,0x44F}, {0x430,0x410,0x430}, {0x431,0x411,0x431}, {0x432,0x412,0x432}, {0x433,0x413,0x433}, {0x434,0x414,0x434}, {0x435,0x415,0x435},
	{0x436,0x416,0x436}, {0x437,0x417,0x437}, {0x438,0x418,0x438}, {0x439,0x419,0x439}, {0x43A,0x41A,0x43A}, {0x43B,0x41B,0x43B}, {0x43C,0x41C,0x43C}, {0x43D,0x41D,0x43D},
	{0x43E,0x41E,0x43E}, {0x43F,0x41F,0x43F}, {0x440,0x420,0x440}, {0x441,0x421,0x441}, {0x442,0x422,0x442}, {0x443,0x423,0x443}, {0x444,0x424,0x444}, {0x445,0x425,0x445},
	{0x446,0x426,0x446}, {0x447,0x427,0x447}, {0x448,0x428,0x448}, {0x449,0x429,0x449}, {0x44A,0x42A,0x44A}, {0x44B,0x42B,0x44B}, {0x44C,0x42C,0x44C}, {0x44D,0x42D,0x44D},
	{0x44E,0x42E,0x44E}, {0x44F,0x42F,0x44F}, {0x450,0x400,0x450}, {0x451,0x401,0x451}, {0x452,0x402,0x452}, {0x453,0x403,0x453}, {0x454,0x404,0x454}, {0x455,0x405,0x455},
	{0x456,0x406,0x456}, {0x457,0x407,0x457}, {0x458,0x408,0x458}, {0x459,0x409,0x459}, {0x45A,0x40A,0x45A}, {0x45B,0x40B,0x45B}, {0x45C,0x40C,0x45C}, {0x45D,0x40D,0x45D},
	{0x45E,0x40E,0x45E}, {0x45F,0x40F,0x45F}, {0x460,0x460,0x461}, {0x461,0x460,0x461}, {0x462,0x462,0x463}, {0x463,0x462,0x463}, {0x464,0x464,0x465}, {0x465,0x464,0x465},
	{0x466,0x466,0x467}, {0x467,0x466,0x467}, {0x468,0x468,0x469}, {0x469,0x468,0x469}, {0x46A,0x46A,0x46B}, {0x46B,0x46A,0x46B}, {0x46C,0x46C,0x46D}, {0x46D,0x46C,0x46D},
	{0x46E,0x46E,0x46F}, {0x46F,0x46E,0x46F}, {0x470,0x470,0x471}, {0x471,0x470,0x471}, {0x472,0x472,0x473}, {0x473,0x472,0x473}, {0x474,0x474,0x475}, {0x475,0x474,0x475},
	{0x476,0x476,0x477}, {0x477,0x476,0x477}, {0x478,0x478,0x479}, {0x479,0x478,0x479}, {0x47A,0x47A,0x47B}, {0x47B,0x47A,0x47B}, {0x47C,0x47C,0x47D}, {0x47D,0x47C,0x47D},
	{0x47E,0x47E,0x47F}, {0x47F,0x47E,0x47F}, {0x480,0x480,0x481}, {0x481,0x480,0x481}, {0x48A,0x48A,0x48B}, {0x48B,0x48A,0x48B}, {0x48C,0x48C,0x48D}, {0x48D,0x48C,0x48D},
	{0x48E,0x48E,0x48F}, {0x48F,0x48E,0x48F}, {0x490,0x490,0x491}, {0x491,0x490,0x491}, {0x492,0x492,0x493}, {0x493,0x492,0x493}, {0x494,0x494,0x495}, {0x495,0x494,0x495},
	{0x496,0x496,0x497}, {0x497,0x496,0x497}, {0x498,0x498,0x499}, {0x499,0x498,0x499}, {0x49A,0x49A,0x49B}, {0x49B,0x49A,0x49B}, {0x49C,0x49C,0x49D}, {0x49D,0x49C,0x49D},
	{0x49E,0x49E,0x49F}, {0x49F,0x49E,0x49F}, {0x4A0,0x4A0,0x4A1}, {0x4A1,0x4A0,0x4A1}, {0x4A2,0x4A2,0x4A3}, {0x4A3,0x4A2,0x4A3}, {0x4A4,0x4A4,0x4A5}, {0x4A5,0x4A4,0x4A5},
	{0x4A6,0x4A6,0x4A7}, {0x4A7,0x4A6,0x4A7}, {0x4A8,0x4A8,0x4A9}, {0x4A9,0x4A8,0x4A9}, {0x4AA,0x4AA,0x4AB}, {0x4AB,0x4AA,0x4AB}, {0x4AC,0x4AC,0x4AD}, {0x4AD,0x4AC,0x4AD},
	{0x4AE,0x4AE,0x4AF}, {0x4AF,0x4AE,0x4AF}, {0x4B0,0x4B0,0x4B1}, {0x4B1,0x4B0,0x4B1}, {0x4B2,0x4B2,0x4B3}, {0x4B3,0x4B2,0x4B3}, {0x4B4,0x4B4,0x4B5}, {0x4B5,0x4B4,0x4B5},
	{0x4B6,0x4B6,0x4B7}, {0x4B7,0x4B6,0x4B7}, {0x4B8,0x4B8,0x4B9}, {0x4B9,0x4B8,0x4B9}, {0x4BA,0x4BA,0x4BB}, {0x4BB,0x4BA,0x4BB}, {0x4BC,0x4BC,0x4BD}, {0x4BD,0x4BC,0x4BD},
	{0x4BE,0x4BE,0x4BF}, {0x4BF,0x4BE,0x4BF}, {0x4C1,0x4C1,0x4C2}, {0x4C2,0x4C1,0x4C2}, {0x4C3,0x4C3,0x4C4}, {0x4C4,0x4C3,0x4C4}, {0x4C5,0x4C5,0x4C6}, {0x4C6,0x4C5,0x4C6},
	{0x4C7,0x4C7,0x4C8}, {0x4C8,0x4C7,0x4C8}, {0x4C9,0x4C9,0x4CA}, {0x4CA,0x4C9,0x4CA}, {0x4CB,0x4CB,0x4CC}, {0x4CC,0x4CB,0x4CC}, {0x4CD,0x4CD,0x4CE}, {0x4CE,0x4CD,0x4CE},
	{0x4D0,0x4D0,0x4D1}, {0x4D1,0x4D0,0x4D1}, {0x4D2,0x4D2,0x4D3}, {0x4D3,0x4D2,0x4D3}, {0x4D4,0x4D4,0x4D5}, {0x4D5,0x4D4,0x4D5}, {0x4D6,0x4D6,0x4D7}, {0x4D7,0x4D6,0x4D7},
	{0x4D8,0x4D8,0x4D9}, {0x4D9,0x4D8,0x4D9}, {0x4DA,0x4DA,0x4DB}, {0x4DB,0x4DA,0x4DB}, {0x4DC,0x4DC,0x4DD}, {0x4DD,0x4DC,0x4DD}, {0x4DE,0x4DE,0x4DF}, {0x4DF,0x4DE,0x4DF},
	{0x4E0,0x4E0,0x4E1}, {0x4E1,0x4E0,0x4E1}, {0x4E2,0x4E2,0x4E3}, {0x4E3,0x4E2,0x4E3}, {0x4E4,0x4E4,0x4E5}, {0x4E5,0x4E4,0x4E5}, {0x4E6,0x4E6,0x4E7}, {0x4E7,0x4E6,0x4E7},
	{0x4E8,0x4E8,0x4E9}, {0x4E9,0x4E8,0x4E9}, {0x4EA,0x4EA,0x4EB}, {0x4EB,0x4EA,0x4EB}, {0x4EC,0x4EC,0x4ED}, {0x4ED,0x4EC,0x4ED}, {0x4EE,0x4EE,0x4EF}, {0x4EF,0x4EE,0x4EF},
	{0x4F0,0x4F0,0x4F1}, {0x4F1,0x4F0,0x4F1}, {0x4F2,0x4F2,0x4F3}, {0x4F3,0x4F2,0x4F3}, {0x4F4,0x4F4,0x4F5}, {0x4F5,0x4F4,0x4F5}, {0x4F8,0x4F8,0x4F9}, {0x4F9,0x4F8,0x4F9},
	{0x500,0x500,0x501}, {0x501,0x500,0x501}, {0x502,0x502,0x503}, {0x503,0x502,0x503}, {0x504,0x504,0x505}, {0x505,0x504,0x505}, {0x506,0x506,0x507}, {0x507,0x506,0x507},
	{0x508,0x508,0x509}, {0x509,0x508,0x509}, {0x50A,0x50A,0x50B}, {0x50B,0x50A,0x50B}, {0x50C,0x50C,0x50D}, {0x50D,0x50C,0x50D}, {0x50E,0x50E,0x50F}, {0x50F,0x50E,0x50F},
	{0x531,0x531,0x561}, {0x532,0x532,0x562}, {0x533,0x533,0x563}, {0x534,0x534,0x564}, {0x535,0x535,0x565}, {0x536,0x536,0x566}, {0x537,0x537,0x567}, {0x538,0x538,0x568},
	{0x539,0x539,0x569}, {0x53A,0x53A,0x56A}, {0x53B,0x53B,0x56B}, {0x53C,0x53C,0x56C}, {0x53D,0x53D,0x56D}, {0x53E,0x53E,0x56E}, {0x53F,0x53F,0x56F}, {0x540,0x540,0x570},
	{0x541,0x541,0x571}, {0x542,0x542,0x572}, {0x543,0x543,0x573}, {0x544,0x544,0x574}, {0x545,0x545,0x575}, {0x546,0x546,0x576}, {0x547,0x547,0x577}, {0x548,0x548,0x578},
	{0x549,0x549,0x579}, {0x54A,0x54A,0x57A}, {0x54B,0x54B,0x57B}, {0x54C,0x54C,0x57C}, {0x54D,0x54D,0x57D}, {0x54E,0x54E,0x57E}, {0x54F,0x54F,0x57F}, {0x550,0x550,0x580},
	{0x551,0x551,0x581}, {0x552,0x552,0x582}, {0x553,0x553,0x583}, {0x554,0x554,0x584}, {0x555,0x555,0x585}, {0x556,0x556,0x586}, {0x561,0x531,0x561}, {0x562,0x532,0x562},
	{0x563,0x533,0x563}, {0x564,0x534,0x564}, {0x565,0x535,0x565}, {0x566,0x536,0x566}, {0x567,0x537,0x567}, {0x568,0x538,0x568}, {0x569,0x539,0x569}, {0x56A,0x53A,0x56A},
	{0x56B,0x53B,0x56B}, {0x56C,0x53C,0x56C}, {0x56D,0x53D,0x56D}, {0x56E,0x53E,0x56E}, {0x56F,0x53F,0x56F}, {0x570,0x540,0x570}, {0x571,0x541,0x571}, {0x572,0x542,0x572},
	{0x573,0x543,0x573}, {0x574,0x544,0x574}, {0x575,0x545,0x575}, {0x576,0x546,0x576}, {0x577,0x547,0x577}, {0x578,0x548,0x578}, {0x579,0x549,0x579}, {0x57A,0x54A,0x57A},
	{0x57B,0x54B,0x57B}, {0x57C,0x54C,0x57C}, {0x57D,0x54D,0x57D}, {0x57E,0x54E,0x57E}, {0x57F,0x54F,0x57F}, {0x580,0x550,0x580}, {0x581,0x551,0x581}, {0x582,0x552,0x582},
	{0x583,0x553,0x583}, {0x584,0x554,0x584}, {0x585,0x555,0x585}, {0x586,0x556,0x586}, {0x1E00,0x1E00,0x1E01}, {0x1E01,0x1E00,0x1E01}, {0x1E02,0x1E02,0x1E03}, {0x1E03,0x1E02,0x1E03},
	{0x1E04,0x1E04,0x1E05}, {0x1E05,0x1E04,0x1E05}, {0x1E06,0x1E06,0x1E07}, {0x1E07,0x1E06,0x1E07}, {0x1E08,0x1E08,0x1E09}, {0x1E09,0x1E08,0x1E09}, {0x1E0A,0x1E0A,0x1E0B}, {0x1E0B,0x1E0A,0x1E0B},
	{0x1E0C,0x1E0C,0x1E0D}, {0x1E0D,0x1E0C,0x1E0D}, {0x1E0E,0x1E0E,0x1E0F}, {0x1E0F,0x1E0E,0x1E0F}, {0x1E10,0x1E10,0x1E11}, {0x1E11,0x1E10,0x1E11}, {0x1E12,0x1E12,0x1E13}, {0x1E13,0x1E12,0x1E13},
	{0x1E14,0x1E14,0x1E15}, {0x1E15,0x1E14,0x1E15}, {0x1E16,0x1E16,0x1E17}, {0x1E17,0x1E16,0x1E17}, {0x1E18,0x1E18,0x1E19}, {0x1E19,0x1E18,0x1E19}, {0x1E1A,0x1E1A,0x1E1B}, {0x1E1B,0x1E1A,0x1E1B},
	{0x1E1C,0x1E1C,0x1E1D}, {0x1E1D,0x1E1C,0x1E1D}, {0x1E1E,0x1E1E,0x1E1F}, {0x1E1F,0x1E1E,0x1E1F}, {0x1E20,0x1E20,0x1E21}, {0x1E21,0x1E20,0x1E21}, {0x1E22,0x1E22,0x1E23}, {0x1E23,0x1E22,0x1E23},
	{0x1E24,0x1E24,0x1E25}, {0x1E25,0x1E24,0x1E25}, {0x1E26,0x1E26,0x1E27}, {0x1E27,0x1E26,0x1E27}, {0x1E28,0x1E28,0x1E29}, {0x1E29,0x1E28,0x1E29}, {0x1E2A,0x1E2A,0x1E2B}, {0x1E2B,0x1E2A,0x1E2B},
	{0x1E2C,0x1E2C,0x1E2D}, {0x1E2D,0x1E2C,0x1E2D}, {0x1E2E,0x1E2E,0x1E2F}, {0x1E2F,0x1E2E,0x1E2F}, {0x1E30,0x1E30,0x1E31}, {0x1E31,0x1E30,0x1E31}, {0x1E32,0x1E32,0x1E33}, {0x1E33,0x1E32,0x1E33},
	{0x1E34,0x1E34,0x1E35}, {0x1E35,0x1E34,0x1E35}, {0x1E36,0x1E36,0x1E37}, {0x1E37,0x1E36,0x1E37}, {0x1E38,0x1E38,0x1E39}, {0x1E39,0x1E38,0x1E39}, {0x1E3A,0x1E3A,0x1E3B}, {0x1E3B,0x1E3A,0x1E3B},
	{0x1E3C,0x1E3C,0x1E3D}, {0x1E3D,0x1E3C,0x1E3D}, {0x1E3E,0x1E3E,0x1E3F}, {0x1E3F,0x1E3E,0x1E3F}, {0x1E40,0x1E40,0x1E41}, {0x1E41,0x1E40,0x1E41}, {0x1E42,0x1E42,0x1E43}, {0x1E43,0x1E42,0x1E43},
	{0x1E44,0x1E44,0x1E45}, {0x1E45,0x1E44,0x1E45}, {0x1E46,0x1E46,0x1E47}, {0x1E47,0x1E46,0x1E47}, {0x1E48,0x1E48,0x1E49}, {0x1E49,0x1E48,0x1E49}, {0x1E4A,0x1E4A,0x1E4B}, {0x1E4B,0x1E4A,0x1E4B},
	{0x1E4C,0x1E4C,0x1E4D}, {0x1E4D,0x1E4C,0x1E4D}, {0x1E4E,0x1E4E,0x1E4F}, {0x1E4F,0x1E4E,0x1E4F}, {0x1E50,0x1E50,0x1E51}, {0x1E51,0x1E50,0x1E51}, {0x1E52,0x1E52,0x1E53}, {0x1E53,0x1E52,0x1E53},
	{0x1E54,0x1E54,0x1E55}, {0x1E55,0x1E54,0x1E55}, {0x1E56,0x1E56,0x1E57}, {0x1E57,0x1E56,0x1E57}, {0x1E58,0x1E58,0x1E59}, {0x1E59,0x1E58,0x1E59}, {0x1E5A,0x1E5A,0x1E5B}, {0x1E5B,0x1E5A,0x1E5B},
	{0x1E5C,0x1E5C,0x1E5D}, {0x1E5D,0x1E5C,0x1E5D}, {0x1E5E,0x1E5E,0x1E5F}, {0x1E5F,0x1E5E,0x1E5F}, {0x1E60,0x1E60,0x1E61}, {0x1E61,0x1E60,0x1E61}, {0x1E62,0x1E62,0x1E63}, {0x1E63,0x1E62,0x1E63},
	{0x1E64,0x1E64,0x1E65}, {0x1E65,0x1E64,0x1E65}, {0x1E66,0x1E66,0x1E67}, {0x1E67,0x1E66,0x1E67}, {0x1E68,0x1E68,0x1E69}, {0x1E69,0x1E68,0x1E69}, {0x1E6A,0x1E6A,0x1E6B}, {0x1E6B,0x1E6A,0x1E6B},
	{0x1E6C,0x1E6C,0x1E6D}, {0x1E6D,0x1E6C,0x1E6D}, {0x1E6E,0x1E6E,0x1E6F}, {0x1E6F,0x1E6E,0x1E6F}, {0x1E70,0x1E70,0x1E71}, {0x1E71,0x1E70,0x1E71}, {0x1E72,0x1E72,0x1E73}, {0x1E73,0x1E72,0x1E73},
	{0x1E74,0x1E74,0x1E75}, {0x1E75,0x1E74,0x1E75}, {0x1E76,0x1E76,0x1E77}, {0x1E77,0x1E76,0x1E77}, {0x1E78,0x1E78,0x1E79}, {0x1E79,0x1E78,0x1E79}, {0x1E7A,0x1E7A,0x1E7B}, {0x1E7B,0x1E7A,0x1E7B},
	{0x1E7C,0x1E7C,0x1E7D}, {0x1E7D,0x1E7C,0x1E7D}, {0x1E7E,0x1E7E,0x1E7F}, {0x1E7F,0x1E7E,0x1E7F}, {0x1E80,0x1E80,0x1E81}, {0x1E81,0x1E80,0x1E81}, {0x1E82,0x1E82,0x1E83}, {0x1E83,0x1E82,0x1E83},
	{0x1E84,0x1E84,0x1E85}, {0x1E85,0x1E84,0x1E85}, {0x1E86,0x1E86,0x1E87}, {0x1E87,0x1E86,0x1E87}, {0x1E88,0x1E88,0x1E89}, {0x1E89,0x1E88,0x1E89}, {0x1E8A,0x1E8A,0x1E8B}, {0x1E8B,0x1E8A,0x1E8B},
	{0x1E8C,0x1E8C,0x1E8D}, {0x1E8D,0x1E8C,0x1E8D}, {0x1E8E,0x1E8E,0x1E8F}, {0x1E8F,0x1E8E,0x1E8F}, {0x1E90,0x1E90,0x1E91}, {0x1E91,0x1E90,0x1E91}, {0x1E92,0x1E92,0x1E93}, {0x1E93,0x1E92,0x1E93},
	{0x1E94,0x1E94,0x1E95}, {0x1E95,0x1E94,0x1E95}, {0x1E9B,0x1E60,0x1E9B}, {0x1EA0,0x1EA0,0x1EA1}, {0x1EA1,0x1EA0,0x1EA1}, {0x1EA2,0x1EA2,0x1EA3}, {0x1EA3,0x1EA2,0x1EA3}, {0x1EA4,0x1EA4,0x1EA5},
	{0x1EA5,0x1EA4,0x1EA5}, {0x1EA6,0x1EA6,0x1EA7}, {0x1EA7,0x1EA6,0x1EA7}, {0x1EA8,0x1EA8,0x1EA9}, {0x1EA9,0x1EA8,0x1EA9}, {0x1EAA,0x1EAA,0x1EAB}, {0x1EAB,0x1EAA,0x1EAB}, {0x1EAC,0x1EAC,0x1EAD},
	{0x1EAD,0x1EAC,0x1EAD}, {0x1EAE,0x1EAE,0x1EAF}, {0x1EAF,0x1EAE,0x1EAF}, {0x1EB0,0x1EB0,0x1EB1}, {0x1EB1,0x1EB0,0x1EB1}, {0x1EB2,0x1EB2,0x1EB3}, {0x1EB3,0x1EB2,0x1EB3}, {0x1EB4,0x1EB4,0x1EB5},
	{0x1EB5,0x1EB4,0x1EB5}, {0x1EB6,0x1EB6,0x1EB7}, {0x1EB7,0x1EB6,0x1EB7}, {0x1EB8,0x1EB8,0x1EB9}, {0x1EB9,0x1EB8,0x1EB9}, {0x1EBA,0x1EBA,0x1EBB}, {0x1EBB,0x1EBA,0x1EBB}, {0x1EBC,0x1EBC,0x1EBD},
	{0x1EBD,0x1EBC,0x1EBD}, {0x1EBE,0x1EBE,0x1EBF}, {0x1EBF,0x1EBE,0x1EBF}, {0x1EC0,0x1EC0,0x1EC1}, {0x1EC1,0x1EC0,0x1EC1}, {0x1EC2,0x1EC2,0x1EC3}, {0x1EC3,0x1EC2,0x1EC3}, {0x1EC4,0x1EC4,0x1EC5},
	{0x1EC5,0x1EC4,0x1EC5}, {0x1EC6,0x1EC6,0x1EC7}, {0x1EC7,0x1EC6,0x1EC7}, {0x1EC8,0x1EC8,0x1EC9}, {0x1EC9,0x1EC8,0x1EC9}, {0x1ECA,0x1ECA,0x1ECB}, {0x1ECB,0x1ECA,0x1ECB}, {0x1ECC,0x1ECC,0x1ECD},
	{0x1ECD,0x1ECC,0x1ECD}, {0x1ECE,0x1ECE,0x1ECF}, {0x1ECF,0x1ECE,0x1ECF}, {0x1ED0,0x1ED0,0x1ED1}, {0x1ED1,0x1ED0,0x1ED1}, {0x1ED2,0x1ED2,0x1ED3}, {0x1ED3,0x1ED2,0x1ED3}, {0x1ED4,0x1ED4,0x1ED5},
	{0x1ED5,0x1ED4,0x1ED5}, {0x1ED6,0x1ED6,0x1ED7}, {0x1ED7,0x1ED6,0x1ED7}, {0x1ED8,0x1ED8,0x1ED9}, {0x1ED9,0x1ED8,0x1ED9}, {0x1EDA,0x1EDA,0x1EDB}, {0x1EDB,0x1EDA,0x1EDB}, {0x1EDC,0x1EDC,0x1EDD},
	{0x1EDD,0x1EDC,0x1EDD}, {0x1EDE,0x1EDE,0x1EDF}, {0x1EDF,0x1EDE,0x1EDF}, {0x1EE0,0x1EE0,0x1EE1}, {0x1EE1,0x1EE0,0x1EE1}, {0x1EE2,0x1EE2,0x1EE3}, {0x1EE3,0x1EE2,0x1EE3}, {0x1EE4,0x1EE4,0x1EE5},
	{0x1EE5,0x1EE4,0x1EE5}, {0x1EE6,0x1EE6,0x1EE7}, {0x1EE7,0x1EE6,0x1EE7}, {0x1EE8,0x1EE8,0x1EE9}, {0x1EE9,0x1EE8,0x1EE9}, {0x1EEA,0x1EEA,0x1EEB}, {0x1EEB,0x1EEA,0x1EEB}, {0x1EEC,0x1EEC,0x1EED},
	{0x1EED,0x1EEC,0x1EED}, {0x1EEE,0x1EEE,0x1EEF}, {0x1EEF,0x1EEE,0x1EEF}, {0x1EF0,0x1EF0,0x1EF1}, {0x1EF1,0x1EF0,0x1EF1}, {0x1EF2,0x1EF2,0x1EF3}, {0x1EF3,0x1EF2,0x1EF3}, {0x1EF4,0x1EF4,0x1EF5},
	{0x1EF5,0x1EF4,0x1EF5}, {0x1EF6,0x1EF6,0x1EF7}, {0x1EF7,0x1EF6,0x1EF7}, {0x1EF8,0x1EF8,0x1EF9}, {0x1EF9,0x1EF8,0x1EF9}, {0x1F00,0x1F08,0x1F00}, {0x1F01,0x1F09,0x1F01}, {0x1F02,0x1F0A,0x1F02},
	{0x1F03,0x1F0B,0x1F03}, {0x1F04,0x1F0C,0x1F04}, {0x1F05,0x1F0D,0x1F05}, {0x1F06,0x1F0E,0x1F06}, {0x1F07,0x1F0F,0x1F07}, {0x1F08,0x1F08,0x1F00}, {0x1F09,0x1F09,0x1F01}, {0x1F0A,0x1F0A,0x1F02},
	{0x1F0B,0x1F0B,0x1F03}, {0x1F0C,0x1F0C,0x1F04}, {0x1F0D,0x1F0D,0x1F05}, {0x1F0E,0x1F0E,0x1F06}, {0x1F0F,0x1F0F,0x1F07}, {0x1F10,0x1F18,0x1F10}, {0x1F11,0x1F19,0x1F11}, {0x1F12,0x1F1A,0x1F12},
	{0x1F13,0x1F1B,0x1F13}, {0x1F14,0x1F1C,0x1F14}, {0x1F15,0x1F1D,0x1F15}, {0x1F18,0x1F18,0x1F10}, {0x1F19,0x1F19,0x1F11}, {0x1F1A,0x1F1A,0x1F12}, {0x1F1B,0x1F1B,0x1F13}, {0x1F1C,0x1F1C,0x1F14},
	{0x1F1D,0x1F1D,0x1F15}, {0x1F20,0x1F28,0x1F20}, {0x1F21,0x1F29,0x1F21}, {0x1F22,0x1F2A,0x1F22}, {0x1F23,0x1F2B,0x1F23}, {0x1F24,0x1F2C,0x1F24}, {0x1F25,0x1F2D,0x1F25}, {0x1F26,0x1F2E,0x1F26},
	{0x1F27,0x1F2F,0x1F27}, {0x1F28,0x1F28,0x1F20}, {0x1F29,0x1F29,0x1F21}, {0x1F2A,0x1F2A,0x1F22}, {0x1F2B,0x1F2B,0x1F23}, {0x1F2C,0x1F2C,0x1F24}, {0x1F2D,0x1F2D,0x1F25}, {0x1F2E,0x1F2E,0x1F26},
	{0x1F2F,0x1F2F,0x1F27}, {0x1F30,0x1F38,0x1F30}, {0x1F31,0x1F39,0x1F31}, {0x1F32,0x1F3A,0x1F32}, {0x1F33,0x1F3B,0x1F33}, {0x1F34,0x1F3C,0x1F34}, {0x1F35,0x1F3D,0x1F35}, {0x1F36,0x1F3E,0x1F36},
	{0x1F37,0x1F3F,0x1F37}, {0x1F38,0x1F38,0x1F30}, {0x1F39,0x1F39,0x1F31}, {0x1F3A,0x1F3A,0x1F32}, {0x1F3B,0x1F3B,0x1F33}, {0x1F3C,0x1F3C,0x1F34}, {0x1F3D,0x1F3D,0x1F35}, {0x1F3E,0x1F3E,0x1F36},
	{0x1F3F,0x1F3F,0x1F37}, {0x1F40,0x1F48,0x1F40}, {0x1F41,0x1F49,0x1F41}, {0x1F42,0x1F4A,0x1F42}, {0x1F43,0x1F4B,0x1F43}, {0x1F44,0x1F4C,0x1F44}, {0x1F45,0x1F4D,0x1F45}, {0x1F48,0x1F48,0x1F40},
	{0x1F49,0x1F49,0x1F41}, {0x1F4A,0x1F4A,0x1F42}, {0x1F4B,0x1F4B,0x1F43}, {0x1F4C,0x1F4C,0x1F44}, {0x1F4D,0x1F4D,0x1F45}, {0x1F51,0x1F59,0x1F51}, {0x1F53,0x1F5B,0x1F53}, {0x1F55,0x1F5D,0x1F55},
	{0x1F57,0x1F5F,0x1F57}, {0x1F59,0x1F59,0x1F51}, {0x1F5B,0x1F5B,0x1F53}, {0x1F5D,0x1F5D,0x1F55}, {0x1F5F,0x1F5F,0x1F57}, {0x1F60,0x1F68,0x1F60}, {0x1F61,0x1F69,0x1F61}, {0x1F62,0x1F6A,0x1F62},
	{0x1F63,0x1F6B,0x1F63}, {0x1F64,0x1F6C,0x1F64}, {0x1F65,0x1F6D,0x1F65}, {0x1F66,0x1F6E,0x1F66}, {0x1F67,0x1F6F,0x1F67}, {0x1F68,0x1F68,0x1F60}, {0x1F69,0x1F69,0x1F61}, {0x1F6A,0x1F6A,0x1F62},
	{0x1F6B,0x1F6B,0x1F63}, {0x1F6C,0x1F6C,0x1F64}, {0x1F6D,0x1F6D,0x1F65}, {0x1F6E,0x1F6E,0x1F66}, {0x1F6F,0x1F6F,0x1F67}, {0x1F70,0x1FBA,0x1F70}, {0x1F71,0x1FBB,0x1F71}, {0x1F72,0x1FC8,0x1F72},
	{0x1F73,0x1FC9,0x1F73}, {0x1F74,0x1FCA,0x1F74}, {0x1F75,0x1FCB,0x1F75}, {0x1F76,0x1FDA,0x1F76}, {0x1F77,0x1FDB,0x1F77}, {0x1F78,0x1FF8,0x1F78}, {0x1F79,0x1FF9,0x1F79}, {0x1F7A,0x1FEA,0x1F7A},
	{0x1F7B,0x1FEB,0x1F7B}, {0x1F7C,0x1FFA,0x1F7C}, {0x1F7D,0x1FFB,0x1F7D}, {0x1F80,0x1F88,0x1F80}, {0x1F81,0x1F89,0x1F81}, {0x1F82,0x1F8A,0x1F82}, {0x1F83,0x1F8B,0x1F83}, {0x1F84,0x1F8C,0x1F84},
	{0x1F85,0x1F8D,0x1F85}, {0x1F86,0x1F8E,0x1F86}, {0x1F87,0x1F8F,0x1F87}, {0x1F88,0x1F88,0x1F80}, {0x1F89,0x1F89,0x1F81}, {0x1F8A,0x1F8A,0x1F82}, {0x1F8B,0x1F8B,0x1F83}, {0x1F8C,0x1F8C,0x1F84},
	{0x1F8D,0x1F8D,0x1F85}, {0x1F8E,0x1F8E,0x1F86}, {0x1F8F,0x1F8F,0x1F87}, {0x1F90,0x1F98,0x1F90}, {0x1F91,0x1F99,0x1F91}, {0x1F92,0x1F9A,0x1F92}, {0x1F93,0x1F9B,0x1F93}, {0x1F94,0x1F9C,0x1F94},
	{0x1F95,0x1F9D,0x1F95}, {0x1F96,0x1F9E,0x1F96}, {0x1F97,0x1F9F,0x1F97}, {0x1F98,0x1F98,0x1F90}, {0x1F99,0x1F99,0x1F91}, {0x1F9A,0x1F9A,0x1F92}, {0x1F9B,0x1F9B,0x1F93}, {0x1F9C,0x1F9C,0x1F94},
	{0x1F9D,0x1F9D,0x1F95}, {0x1F9E,0x1F9E,0x1F96}, {0x1F9F,0x1F9F,0x1F97}, {0x1FA0,0x1FA8,0x1FA0}, {0x1FA1,0x1FA9,0x1FA1}, {0x1FA2,0x1FAA,0x1FA2}, {0x1FA3,0x1FAB,0x1FA3}, {0x1FA4,0x1FAC,0x1FA4},
	{0x1FA5,0x1FAD,0x1FA5}, {0x1FA6,0x1FAE,0x1FA6}, {0x1FA7,0x1FAF,0x1FA7}, {0x1FA8,0x1FA8,0x1FA0}, {0x1FA9,0x1FA9,0x1FA1}, {0x1FAA,0x1FAA,0x1FA2}, {0x1FAB,0x1FAB,0x1FA3}, {0x1FAC,0x1FAC,0x1FA4},
	{0x1FAD,0x1FAD,0x1FA5}, {0x1FAE,0x1FAE,0x1FA6}, {0x1FAF,0x1FAF,0x1FA7}, {0x1FB0,0x1FB8,0x1FB0}, {0x1FB1,0x1FB9,0x1FB1}, {0x1FB3,0x1FBC,0x1FB3}, {0x1FB8,0x1FB8,0x1FB0}, {0x1FB9,0x1FB9,0x1FB1},
	{0x1FBA,0x1FBA,0x1F70}, {0x1FBB,0x1FBB,0x1F71}, {0x1FBC,0x1FBC,0x1FB3}, {0x1FC3,0x1FCC,0x1FC3}, {0x1FC8,0x1FC8,0x1F72}, {0x1FC9,0x1FC9,0x1F73}, {0x1FCA,0x1FCA,0x1F74}, {0x1FCB,0x1FCB,0x1F75},
	{0x1FCC,0x1FCC,0x1FC3}, {0x1FD0,0x1FD8,0x1FD0}, {0x1FD1,0x1FD9,0x1FD1}, {0x1FD8,0x1FD8,0x1FD0}, {0x1FD9,0x1FD9,0x1FD1}, {0x1FDA,0x1FDA,0x1F76}, {0x1FDB,0x1FDB,0x1F77}, {0x1FE0,0x1FE8,0x1FE0},
	{0x1FE1,0x1FE9,0x1FE1}, {0x1FE5,0x1FEC,0x1FE5}, {0x1FE8,0x1FE8,0x1FE0}, {0x1FE9,0x1FE9,0x1FE1}, {0x1FEA,0x1FEA,0x1F7A}, {0x1FEB,0x1FEB,0x1F7B}, {0x1FEC,0x1FEC,0x1FE5}, {0x1FF3,0x1FFC,0x1FF3},
	{0x1FF8,0x1FF8,0x1F78}, {0x1FF9,0x1FF9,0x1F79}, {0x1FFA,0x1FFA,0x1F7C}, {0x1FFB,0x1FFB,0x1F7D}, {0x1FFC,0x1FFC,0x1FF3}, {0x2160,0x2160,0x2170}, {0x2161,0x2161,0x2171}, {0x2162,0x2162,0x2172},
	{0x2163,0x2163,0x2173}, {0x2164,0x2164,0x2174}, {0x2165,0x2165,0x2175}, {0x2166,0x2166,0x2176}, {0x2167,0x2167,0x2177}, {0x2168,0x2168,0x2178}, {0x2169,0x2169,0x2179}, {0x216A,0x216A,0x217A},
	{0x216B,0x216B,0x217B}, {0x216C,0x216C,0x217C}, {0x216D,0x216D,0x217D}, {0x216E,0x216E,0x217E}, {0x216F,0x216F,0x217F}, {0x2170,0x2160,0x2170}, {0x2171,0x2161,0x2171}, {0x2172,0x2162,0x2172},
	{0x2173,0x2163,0x2173}, {0x2174,0x2164,0x2174}, {0x2175,0x2165,0x2175}, {0x2176,0x2166,0x2176}, {0x2177,0x2167,0x2177}, {0x2178,0x2168,0x2178}, {0x2179,0x2169,0x2179}, {0x217A,0x216A,0x217A},
	{0x217B,0x216B,0x217B}, {0x217C,0x216C,0x217C}, {0x217D,0x216D,0x217D}, {0x217E,0x216E,0x217E}, {0x217F,0x216F,0x217F}, {0x24B6,0x24B6,0x24D0}, {0x24B7,0x24B7,0x24D1}, {0x24B8,0x24B8,0x24D2},
	{0x24B9,0x24B9,0x24D3}, {0x24BA,0x24BA,0x24D4}, {0x24BB,0x24BB,0x24D5}, {0x24BC,0x24BC,0x24D6}, {0x24BD,0x24BD,0x24D7}, {0x24BE,0x24BE,0x24D8}, {0x24BF,0x24BF,0x24D9}, {0x24C0,0x24C0,0x24DA},
	{0x24C1,0x24C1,0x24DB}, {0x24C2,0x24C2,0x24DC}, {0x24C3,0x24C3,0x24DD}, {0x24C4,0x24C4,0x24DE}, {0x24C5,0x24C5,0x24DF}, {0x24C6,0x24C6,0x24E0}, {0x24C7,0x24C7,0x24E1}, {0x24C8,0x24C8,0x24E2},
	{0x24C9,0x24C9,0x24E3}, {0x24CA,0x24CA,0x24E4}, {0x24CB,0x24CB,0x24E5}, {0x24CC,0x24CC,0x24E6}, {0x24CD,0x24CD,0x24E7}, {0x24CE,0x24CE,0x24E8}, {0x24CF,0x24CF,0x24E9}, {0x24D0,0x24B6,0x24D0},
	{0x24D1,0x24B7,0x24D1}, {0x24D2,0x24B8,0x24D2}, {0x24D3,0x24B9,0x24D3}, {0x24D4,0x24BA,0x24D4}, {0x24D5,0x24BB,0x24D5}, {0x24D6,0x24BC,0x24D6}, {0x24D7,0x24BD,0x24D7}, {0x24D8,0x24BE,0x24D8},
	{0x24D9,0x24BF,0x24D9}, {0x24DA,0x24C0,0x24DA}, {0x24DB,0x24C1,0x24DB}, {0x24DC,0x24C2,0x24DC}, {0x24DD,0x24C3,0x24DD}, {0x24DE,0x24C4,0x24DE}, {0x24DF,0x24C5,0x24DF}, {0x24E0,0x24C6,0x24E0},
	{0x24E1,0x24C7,0x24E1}, {0x24E2,0x24C8,0x24E2}, {0x24E3,0x24C9,0x24E3}, {0x24E4,0x24CA,0x24E4}, {0x24E5,0x24CB,0x24E5}, {0x24E6,0x24CC,0x24E6}, {0x24E7,0x24CD,0x24E7}, {0x24E8,0x24CE,0x24E8},
	{0x24E9,0x24CF,0x24E9}, {0xFF21,0xFF21,0xFF41}, {0xFF22,0xFF22,0xFF42}, {0xFF23,0xFF23,0xFF43}, {0xFF24,0xFF24,0xFF44}, {0xFF25,0xFF25,0xFF45}, {0xFF26,0xFF26,0xFF46}, {0xFF27,0xFF27,0xFF47},
	{0xFF28,0xFF28,0xFF48}, {0xFF29,0xFF29,0xFF49}, {0xFF2A,0xFF2A,0xFF4A}, {0xFF2B,0xFF2B,0xFF4B}, {0xFF2C,0xFF2C,0xFF4C}, {0xFF2D,0xFF2D,0xFF4D}, {0xFF2E,0xFF2E,0xFF4E}, {0xFF2F,0xFF2F,0xFF4F},
	{0xFF30,0xFF30,0xFF50}, {0xFF31,0xFF31,0xFF51}, {0xFF32,0xFF32,0xFF52}, {0xFF33,0xFF33,0xFF53}, {0xFF34,0xFF34,0xFF54}, {0xFF35,0xFF35,0xFF55}, {0xFF36,0xFF36,0xFF56}, {0xFF37,0xFF37,0xFF57},
	{0xFF38,0xFF38,0xFF58}, {0xFF39,0xFF39,0xFF59}, {0xFF3A,0xFF3A,0xFF5A}, {0xFF41,0xFF21,0xFF41}, {0xFF42,0xFF22,0xFF42}, {0xFF43,0xFF23,0xFF43}, {0xFF44,0xFF24,0xFF44}, {0xFF45,0xFF25,0xFF45},
	{0xFF46,0xFF26,0xFF46}, {0xFF47,0xFF27,0xFF47}, {0xFF48,0xFF28,0xFF48}, {0xFF49,0xFF29,0xFF49}, {0xFF4A,0xFF2A,0xFF4A}, {0xFF4B,0xFF2B,0xFF4B}, {0xFF4C,0xFF2C,0xFF4C}, {0xFF4D,0xFF2D,0xFF4D},
	{0xFF4E,0xFF2E,0xFF4E}, {0xFF4F,0xFF2F,0xFF4F}, {0xFF50,0xFF30,0xFF50}, {0xFF51,0xFF31,0xFF51}, {0xFF52,0xFF32,0xFF52}, {0xFF53,0xFF33,0xFF53}, {0xFF54,0xFF34,0xFF54}, {0xFF55,0xFF35,0xFF55},
	{0xFF56,0xFF36,0xFF56}, {0xFF57,0xFF37,0xFF57}, {0xFF58,0xFF38,0xFF58}, {0xFF59,0xFF39,0xFF59}, {0xFF5A,0xFF3A,0xFF5A},
};
static const unsigned caseTableSize = sizeof(caseTable) / sizeof(caseTable[0]);
}
#endif
