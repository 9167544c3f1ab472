package font

// vfRanges lists the blocks of every bit of ulUnicodeRange in the order of the OpenType specification: bit, first, last, 1 for the first block of the bit.
var vfRanges = [][4]uint32{
	{0, 0x0000, 0x007F, 1},
	{1, 0x0080, 0x00FF, 1},
	{2, 0x0100, 0x017F, 1},
	{3, 0x0180, 0x024F, 1},
	{4, 0x0250, 0x02AF, 1},
	{4, 0x1D00, 0x1D7F, 0},
	{4, 0x1D80, 0x1DBF, 0},
	{5, 0x02B0, 0x02FF, 1},
	{5, 0xA700, 0xA71F, 0},
	{6, 0x0300, 0x036F, 1},
	{6, 0x1DC0, 0x1DFF, 0},
	{7, 0x0370, 0x03FF, 1},
	{8, 0x2C80, 0x2CFF, 1},
	{9, 0x0400, 0x04FF, 1},
	{9, 0x0500, 0x052F, 0},
	{9, 0x2DE0, 0x2DFF, 0},
	{9, 0xA640, 0xA69F, 0},
	{10, 0x0530, 0x058F, 1},
	{11, 0x0590, 0x05FF, 1},
	{12, 0xA500, 0xA63F, 1},
	{13, 0x0600, 0x06FF, 1},
	{13, 0x0750, 0x077F, 0},
	{14, 0x07C0, 0x07FF, 1},
	{15, 0x0900, 0x097F, 1},
	{16, 0x0980, 0x09FF, 1},
	{17, 0x0A00, 0x0A7F, 1},
	{18, 0x0A80, 0x0AFF, 1},
	{19, 0x0B00, 0x0B7F, 1},
	{20, 0x0B80, 0x0BFF, 1},
	{21, 0x0C00, 0x0C7F, 1},
	{22, 0x0C80, 0x0CFF, 1},
	{23, 0x0D00, 0x0D7F, 1},
	{24, 0x0E00, 0x0E7F, 1},
	{25, 0x0E80, 0x0EFF, 1},
	{26, 0x10A0, 0x10FF, 1},
	{26, 0x2D00, 0x2D2F, 0},
	{27, 0x1B00, 0x1B7F, 1},
	{28, 0x1100, 0x11FF, 1},
	{29, 0x1E00, 0x1EFF, 1},
	{29, 0x2C60, 0x2C7F, 0},
	{29, 0xA720, 0xA7FF, 0},
	{30, 0x1F00, 0x1FFF, 1},
	{31, 0x2000, 0x206F, 1},
	{31, 0x2E00, 0x2E7F, 0},
	{32, 0x2070, 0x209F, 1},
	{33, 0x20A0, 0x20CF, 1},
	{34, 0x20D0, 0x20FF, 1},
	{35, 0x2100, 0x214F, 1},
	{36, 0x2150, 0x218F, 1},
	{37, 0x2190, 0x21FF, 1},
	{37, 0x27F0, 0x27FF, 0},
	{37, 0x2900, 0x297F, 0},
	{37, 0x2B00, 0x2BFF, 0},
	{38, 0x2200, 0x22FF, 1},
	{38, 0x2A00, 0x2AFF, 0},
	{38, 0x27C0, 0x27EF, 0},
	{38, 0x2980, 0x29FF, 0},
	{39, 0x2300, 0x23FF, 1},
	{40, 0x2400, 0x243F, 1},
	{41, 0x2440, 0x245F, 1},
	{42, 0x2460, 0x24FF, 1},
	{43, 0x2500, 0x257F, 1},
	{44, 0x2580, 0x259F, 1},
	{45, 0x25A0, 0x25FF, 1},
	{46, 0x2600, 0x26FF, 1},
	{47, 0x2700, 0x27BF, 1},
	{48, 0x3000, 0x303F, 1},
	{49, 0x3040, 0x309F, 1},
	{50, 0x30A0, 0x30FF, 1},
	{50, 0x31F0, 0x31FF, 0},
	{51, 0x3100, 0x312F, 1},
	{51, 0x31A0, 0x31BF, 0},
	{52, 0x3130, 0x318F, 1},
	{53, 0xA840, 0xA87F, 1},
	{54, 0x3200, 0x32FF, 1},
	{55, 0x3300, 0x33FF, 1},
	{56, 0xAC00, 0xD7AF, 1},
	{57, 0x10000, 0x10FFFF, 1},
	{58, 0x10900, 0x1091F, 1},
	{59, 0x4E00, 0x9FFF, 1},
	{59, 0x2E80, 0x2EFF, 0},
	{59, 0x2F00, 0x2FDF, 0},
	{59, 0x2FF0, 0x2FFF, 0},
	{59, 0x3400, 0x4DBF, 0},
	{59, 0x20000, 0x2A6DF, 0},
	{59, 0x3190, 0x319F, 0},
	{60, 0xE000, 0xF8FF, 1},
	{61, 0x31C0, 0x31EF, 1},
	{61, 0xF900, 0xFAFF, 0},
	{61, 0x2F800, 0x2FA1F, 0},
	{62, 0xFB00, 0xFB4F, 1},
	{63, 0xFB50, 0xFDFF, 1},
	{64, 0xFE20, 0xFE2F, 1},
	{65, 0xFE10, 0xFE1F, 1},
	{65, 0xFE30, 0xFE4F, 0},
	{66, 0xFE50, 0xFE6F, 1},
	{67, 0xFE70, 0xFEFF, 1},
	{68, 0xFF00, 0xFFEF, 1},
	{69, 0xFFF0, 0xFFFF, 1},
	{70, 0x0F00, 0x0FFF, 1},
	{71, 0x0700, 0x074F, 1},
	{72, 0x0780, 0x07BF, 1},
	{73, 0x0D80, 0x0DFF, 1},
	{74, 0x1000, 0x109F, 1},
	{75, 0x1200, 0x137F, 1},
	{75, 0x1380, 0x139F, 0},
	{75, 0x2D80, 0x2DDF, 0},
	{76, 0x13A0, 0x13FF, 1},
	{77, 0x1400, 0x167F, 1},
	{78, 0x1680, 0x169F, 1},
	{79, 0x16A0, 0x16FF, 1},
	{80, 0x1780, 0x17FF, 1},
	{80, 0x19E0, 0x19FF, 0},
	{81, 0x1800, 0x18AF, 1},
	{82, 0x2800, 0x28FF, 1},
	{83, 0xA000, 0xA48F, 1},
	{83, 0xA490, 0xA4CF, 0},
	{84, 0x1700, 0x171F, 1},
	{84, 0x1720, 0x173F, 0},
	{84, 0x1740, 0x175F, 0},
	{84, 0x1760, 0x177F, 0},
	{85, 0x10300, 0x1032F, 1},
	{86, 0x10330, 0x1034F, 1},
	{87, 0x10400, 0x1044F, 1},
	{88, 0x1D000, 0x1D0FF, 1},
	{88, 0x1D100, 0x1D1FF, 0},
	{88, 0x1D200, 0x1D24F, 0},
	{89, 0x1D400, 0x1D7FF, 1},
	{90, 0xF0000, 0xFFFFD, 1},
	{90, 0x100000, 0x10FFFD, 0},
	{91, 0xFE00, 0xFE0F, 1},
	{91, 0xE0100, 0xE01EF, 0},
	{92, 0xE0000, 0xE007F, 1},
	{93, 0x1900, 0x194F, 1},
	{94, 0x1950, 0x197F, 1},
	{95, 0x1980, 0x19DF, 1},
	{96, 0x1A00, 0x1A1F, 1},
	{97, 0x2C00, 0x2C5F, 1},
	{98, 0x2D30, 0x2D7F, 1},
	{99, 0x4DC0, 0x4DFF, 1},
	{100, 0xA800, 0xA82F, 1},
	{101, 0x10000, 0x1007F, 1},
	{101, 0x10080, 0x100FF, 0},
	{101, 0x10100, 0x1013F, 0},
	{102, 0x10140, 0x1018F, 1},
	{103, 0x10380, 0x1039F, 1},
	{104, 0x103A0, 0x103DF, 1},
	{105, 0x10450, 0x1047F, 1},
	{106, 0x10480, 0x104AF, 1},
	{107, 0x10800, 0x1083F, 1},
	{108, 0x10A00, 0x10A5F, 1},
	{109, 0x1D300, 0x1D35F, 1},
	{110, 0x12000, 0x123FF, 1},
	{110, 0x12400, 0x1247F, 0},
	{111, 0x1D360, 0x1D37F, 1},
	{112, 0x1B80, 0x1BBF, 1},
	{113, 0x1C00, 0x1C4F, 1},
	{114, 0x1C50, 0x1C7F, 1},
	{115, 0xA880, 0xA8DF, 1},
	{116, 0xA900, 0xA92F, 1},
	{117, 0xA930, 0xA95F, 1},
	{118, 0xAA00, 0xAA5F, 1},
	{119, 0x10190, 0x101CF, 1},
	{120, 0x101D0, 0x101FF, 1},
	{121, 0x102A0, 0x102DF, 1},
	{121, 0x10280, 0x1029F, 0},
	{121, 0x10920, 0x1093F, 0},
	{122, 0x1F030, 0x1F09F, 1},
	{122, 0x1F000, 0x1F02F, 0},
}

// vfRangeBits returns the bits whose first block contains r and the bits that have any block that contains r.
func vfRangeBits(r uint32) (must, may [4]uint32) {
	for _, x := range vfRanges {
		b := uint32(vfB2i(x[1] <= r && r <= x[2])) << (x[0] & 31)
		may[x[0]>>5] |= b
		if x[3] == 1 {
			must[x[0]>>5] |= b
		}
	}
	return
}
