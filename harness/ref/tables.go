package ref

// Character tables of 3GPP TS 23.038, recorded code point by code point and
// independent of the tables of the code under test (see DESIGN.md for how they
// were reviewed).

var lockTable = [14]map[byte]rune{
	{ // 0
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00e8, 0x05: 0x00e9, 0x06: 0x00f9, 0x07: 0x00ec,
		0x08: 0x00f2, 0x09: 0x00c7, 0x0a: 0x000a, 0x0b: 0x00d8, 0x0c: 0x00f8, 0x0d: 0x000d, 0x0e: 0x00c5, 0x0f: 0x00e5,
		0x10: 0x0394, 0x11: 0x005f, 0x12: 0x03a6, 0x13: 0x0393, 0x14: 0x039b, 0x15: 0x03a9, 0x16: 0x03a0, 0x17: 0x03a8,
		0x18: 0x03a3, 0x19: 0x0398, 0x1a: 0x039e, 0x1b: 0x001b, 0x1c: 0x00c6, 0x1d: 0x00e6, 0x1e: 0x00df, 0x1f: 0x00c9,
		0x20: 0x0020, 0x21: 0x0021, 0x22: 0x0022, 0x23: 0x0023, 0x24: 0x00a4, 0x25: 0x0025, 0x26: 0x0026, 0x27: 0x0027,
		0x28: 0x0028, 0x29: 0x0029, 0x2a: 0x002a, 0x2b: 0x002b, 0x2c: 0x002c, 0x2d: 0x002d, 0x2e: 0x002e, 0x2f: 0x002f,
		0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037,
		0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b, 0x3c: 0x003c, 0x3d: 0x003d, 0x3e: 0x003e, 0x3f: 0x003f,
		0x40: 0x00a1, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047,
		0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f,
		0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057,
		0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x5b: 0x00c4, 0x5c: 0x00d6, 0x5d: 0x00d1, 0x5e: 0x00dc, 0x5f: 0x00a7,
		0x60: 0x00bf, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067,
		0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f,
		0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077,
		0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x00e4, 0x7c: 0x00f6, 0x7d: 0x00f1, 0x7e: 0x00fc, 0x7f: 0x00e0,
	},
	{ // 1
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x20ac, 0x05: 0x00e9, 0x06: 0x00f9, 0x07: 0x0131,
		0x08: 0x00f2, 0x09: 0x00c7, 0x0a: 0x000a, 0x0b: 0x011e, 0x0c: 0x011f, 0x0d: 0x000d, 0x0e: 0x00c5, 0x0f: 0x00e5,
		0x10: 0x0394, 0x11: 0x005f, 0x12: 0x03a6, 0x13: 0x0393, 0x14: 0x039b, 0x15: 0x03a9, 0x16: 0x03a0, 0x17: 0x03a8,
		0x18: 0x03a3, 0x19: 0x0398, 0x1a: 0x039e, 0x1b: 0x001b, 0x1c: 0x015e, 0x1d: 0x015f, 0x1e: 0x00df, 0x1f: 0x00c9,
		0x20: 0x0020, 0x21: 0x0021, 0x22: 0x0022, 0x23: 0x0023, 0x24: 0x00a4, 0x25: 0x0025, 0x26: 0x0026, 0x27: 0x0027,
		0x28: 0x0028, 0x29: 0x0029, 0x2a: 0x002a, 0x2b: 0x002b, 0x2c: 0x002c, 0x2d: 0x002d, 0x2e: 0x002e, 0x2f: 0x002f,
		0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037,
		0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b, 0x3c: 0x003c, 0x3d: 0x003d, 0x3e: 0x003e, 0x3f: 0x003f,
		0x40: 0x0130, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047,
		0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f,
		0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057,
		0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x5b: 0x00c4, 0x5c: 0x00d6, 0x5d: 0x00d1, 0x5e: 0x00dc, 0x5f: 0x00a7,
		0x60: 0x00e7, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067,
		0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f,
		0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077,
		0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x00e4, 0x7c: 0x00f6, 0x7d: 0x00f1, 0x7e: 0x00fc, 0x7f: 0x00e0,
	},
	{ // 2
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00e8, 0x05: 0x00e9, 0x06: 0x00f9, 0x07: 0x00ec,
		0x08: 0x00f2, 0x09: 0x00c7, 0x0a: 0x000a, 0x0b: 0x00d8, 0x0c: 0x00f8, 0x0d: 0x000d, 0x0e: 0x00c5, 0x0f: 0x00e5,
		0x10: 0x0394, 0x11: 0x005f, 0x12: 0x03a6, 0x13: 0x0393, 0x14: 0x039b, 0x15: 0x03a9, 0x16: 0x03a0, 0x17: 0x03a8,
		0x18: 0x03a3, 0x19: 0x0398, 0x1a: 0x039e, 0x1b: 0x001b, 0x1c: 0x00c6, 0x1d: 0x00e6, 0x1e: 0x00df, 0x1f: 0x00c9,
		0x20: 0x0020, 0x21: 0x0021, 0x22: 0x0022, 0x23: 0x0023, 0x24: 0x00a4, 0x25: 0x0025, 0x26: 0x0026, 0x27: 0x0027,
		0x28: 0x0028, 0x29: 0x0029, 0x2a: 0x002a, 0x2b: 0x002b, 0x2c: 0x002c, 0x2d: 0x002d, 0x2e: 0x002e, 0x2f: 0x002f,
		0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037,
		0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b, 0x3c: 0x003c, 0x3d: 0x003d, 0x3e: 0x003e, 0x3f: 0x003f,
		0x40: 0x00a1, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047,
		0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f,
		0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057,
		0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x5b: 0x00c4, 0x5c: 0x00d6, 0x5d: 0x00d1, 0x5e: 0x00dc, 0x5f: 0x00a7,
		0x60: 0x00bf, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067,
		0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f,
		0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077,
		0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x00e4, 0x7c: 0x00f6, 0x7d: 0x00f1, 0x7e: 0x00fc, 0x7f: 0x00e0,
	},
	{ // 3
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00ea, 0x05: 0x00e9, 0x06: 0x00fa, 0x07: 0x00ed,
		0x08: 0x00f3, 0x09: 0x00e7, 0x0a: 0x000a, 0x0b: 0x00d4, 0x0c: 0x00f4, 0x0d: 0x000d, 0x0e: 0x00c1, 0x0f: 0x00e1,
		0x10: 0x0394, 0x11: 0x005f, 0x12: 0x00aa, 0x13: 0x00c7, 0x14: 0x00c0, 0x15: 0x221e, 0x16: 0x005e, 0x17: 0x005c,
		0x18: 0x20ac, 0x19: 0x00d3, 0x1a: 0x007c, 0x1b: 0x001b, 0x1c: 0x00c2, 0x1d: 0x00e2, 0x1e: 0x00ca, 0x1f: 0x00c9,
		0x20: 0x0020, 0x21: 0x0021, 0x22: 0x0022, 0x23: 0x0023, 0x24: 0x00ba, 0x25: 0x0025, 0x26: 0x0026, 0x27: 0x0027,
		0x28: 0x0028, 0x29: 0x0029, 0x2a: 0x002a, 0x2b: 0x002b, 0x2c: 0x002c, 0x2d: 0x002d, 0x2e: 0x002e, 0x2f: 0x002f,
		0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037,
		0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b, 0x3c: 0x003c, 0x3d: 0x003d, 0x3e: 0x003e, 0x3f: 0x003f,
		0x40: 0x00cd, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047,
		0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f,
		0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057,
		0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x5b: 0x00c3, 0x5c: 0x00d5, 0x5d: 0x00da, 0x5e: 0x00dc, 0x5f: 0x00a7,
		0x60: 0x007e, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067,
		0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f,
		0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077,
		0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x00e3, 0x7c: 0x00f5, 0x7d: 0x0060, 0x7e: 0x00fc, 0x7f: 0x00e0,
	},
	{ // 4
		0x00: 0x0981, 0x01: 0x0982, 0x02: 0x0983, 0x03: 0x0985, 0x04: 0x0986, 0x05: 0x0987, 0x06: 0x0988, 0x07: 0x0989,
		0x08: 0x098a, 0x09: 0x098b, 0x0a: 0x000a, 0x0b: 0x098c, 0x0d: 0x000d, 0x0f: 0x098f, 0x10: 0x0990, 0x13: 0x0993,
		0x14: 0x0994, 0x15: 0x0995, 0x16: 0x0996, 0x17: 0x0997, 0x18: 0x0998, 0x19: 0x0999, 0x1a: 0x099a, 0x1b: 0x001b,
		0x1c: 0x099b, 0x1d: 0x099c, 0x1e: 0x099d, 0x1f: 0x099e, 0x20: 0x0020, 0x21: 0x0021, 0x22: 0x099f, 0x23: 0x09a0,
		0x24: 0x09a1, 0x25: 0x09a2, 0x26: 0x09a3, 0x27: 0x09a4, 0x28: 0x0029, 0x29: 0x0028, 0x2a: 0x09a5, 0x2b: 0x09a6,
		0x2c: 0x002c, 0x2d: 0x09a7, 0x2e: 0x002e, 0x2f: 0x09a8, 0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033,
		0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037, 0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b,
		0x3d: 0x09aa, 0x3e: 0x09ab, 0x3f: 0x003f, 0x40: 0x09ac, 0x41: 0x09ad, 0x42: 0x09ae, 0x43: 0x09af, 0x44: 0x09b0,
		0x46: 0x09b2, 0x4a: 0x09b6, 0x4b: 0x09b7, 0x4c: 0x09b8, 0x4d: 0x09b9, 0x4e: 0x09bc, 0x4f: 0x09bd, 0x50: 0x09be,
		0x51: 0x09bf, 0x52: 0x09c0, 0x53: 0x09c1, 0x54: 0x09c2, 0x55: 0x09c3, 0x56: 0x09c4, 0x59: 0x09c7, 0x5a: 0x09c8,
		0x5d: 0x09cb, 0x5e: 0x09cc, 0x5f: 0x09cd, 0x60: 0x09ce, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064,
		0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067, 0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c,
		0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f, 0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074,
		0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077, 0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x09d7, 0x7c: 0x09dc,
		0x7d: 0x09dd, 0x7e: 0x09f0, 0x7f: 0x09f1,
	},
	{ // 5
		0x00: 0x0a81, 0x01: 0x0a82, 0x02: 0x0a83, 0x03: 0x0a85, 0x04: 0x0a86, 0x05: 0x0a87, 0x06: 0x0a88, 0x07: 0x0a89,
		0x08: 0x0a8a, 0x09: 0x0a8b, 0x0a: 0x000a, 0x0b: 0x0a8c, 0x0c: 0x0a8d, 0x0d: 0x000d, 0x0f: 0x0a8f, 0x10: 0x0a90,
		0x11: 0x0a91, 0x13: 0x0a93, 0x14: 0x0a94, 0x15: 0x0a95, 0x16: 0x0a96, 0x17: 0x0a97, 0x18: 0x0a98, 0x19: 0x0a99,
		0x1a: 0x0a9a, 0x1b: 0x001b, 0x1c: 0x0a9b, 0x1d: 0x0a9c, 0x1e: 0x0a9d, 0x1f: 0x0a9e, 0x20: 0x0020, 0x21: 0x0021,
		0x22: 0x0a9f, 0x23: 0x0aa0, 0x24: 0x0aa1, 0x25: 0x0aa2, 0x26: 0x0aa3, 0x27: 0x0aa4, 0x28: 0x0029, 0x29: 0x0028,
		0x2a: 0x0aa5, 0x2b: 0x0aa6, 0x2c: 0x002c, 0x2d: 0x0aa7, 0x2e: 0x002e, 0x2f: 0x0aa8, 0x30: 0x0030, 0x31: 0x0031,
		0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037, 0x38: 0x0038, 0x39: 0x0039,
		0x3a: 0x003a, 0x3b: 0x003b, 0x3d: 0x0aaa, 0x3e: 0x0aab, 0x3f: 0x003f, 0x40: 0x0aac, 0x41: 0x0aad, 0x42: 0x0aae,
		0x43: 0x0aaf, 0x44: 0x0ab0, 0x46: 0x0ab2, 0x47: 0x0ab3, 0x49: 0x0ab5, 0x4a: 0x0ab6, 0x4b: 0x0ab7, 0x4c: 0x0ab8,
		0x4d: 0x0ab9, 0x4e: 0x0abc, 0x4f: 0x0abd, 0x50: 0x0abe, 0x51: 0x0abf, 0x52: 0x0ac0, 0x53: 0x0ac1, 0x54: 0x0ac2,
		0x55: 0x0ac3, 0x56: 0x0ac4, 0x57: 0x0ac5, 0x59: 0x0ac7, 0x5a: 0x0ac8, 0x5b: 0x0ac9, 0x5d: 0x0acb, 0x5e: 0x0acc,
		0x5f: 0x0acd, 0x60: 0x0ad0, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066,
		0x67: 0x0067, 0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e,
		0x6f: 0x006f, 0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076,
		0x77: 0x0077, 0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x0ae0, 0x7c: 0x0ae1, 0x7d: 0x0ae2, 0x7e: 0x0ae3,
		0x7f: 0x0af1,
	},
	{ // 6
		0x00: 0x0981, 0x01: 0x0902, 0x02: 0x0903, 0x03: 0x0905, 0x04: 0x0906, 0x05: 0x0907, 0x06: 0x0908, 0x07: 0x0909,
		0x08: 0x090a, 0x09: 0x090b, 0x0a: 0x000a, 0x0b: 0x090c, 0x0c: 0x090d, 0x0d: 0x000d, 0x0e: 0x090e, 0x0f: 0x090f,
		0x10: 0x0910, 0x11: 0x0911, 0x12: 0x0912, 0x13: 0x0913, 0x14: 0x0914, 0x15: 0x0915, 0x16: 0x0916, 0x17: 0x0917,
		0x18: 0x0918, 0x19: 0x0919, 0x1a: 0x091a, 0x1b: 0x001b, 0x1c: 0x091b, 0x1d: 0x091c, 0x1e: 0x091d, 0x1f: 0x091e,
		0x20: 0x0020, 0x21: 0x0021, 0x22: 0x091f, 0x23: 0x0920, 0x24: 0x0921, 0x25: 0x0922, 0x26: 0x0923, 0x27: 0x0924,
		0x28: 0x0029, 0x29: 0x0028, 0x2a: 0x0925, 0x2b: 0x0926, 0x2c: 0x002c, 0x2d: 0x0927, 0x2e: 0x002e, 0x2f: 0x0928,
		0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037,
		0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b, 0x3c: 0x0929, 0x3d: 0x092a, 0x3e: 0x092b, 0x3f: 0x003f,
		0x40: 0x092c, 0x41: 0x092d, 0x42: 0x092e, 0x43: 0x092f, 0x44: 0x0930, 0x45: 0x0931, 0x46: 0x0932, 0x47: 0x0933,
		0x48: 0x0934, 0x49: 0x0935, 0x4a: 0x0936, 0x4b: 0x0937, 0x4c: 0x0938, 0x4d: 0x0939, 0x4e: 0x093c, 0x4f: 0x093d,
		0x50: 0x093e, 0x51: 0x093f, 0x52: 0x0940, 0x53: 0x0941, 0x54: 0x0942, 0x55: 0x0943, 0x56: 0x0944, 0x57: 0x0945,
		0x58: 0x0946, 0x59: 0x0947, 0x5a: 0x0948, 0x5b: 0x0949, 0x5c: 0x094a, 0x5d: 0x094b, 0x5e: 0x094c, 0x5f: 0x094d,
		0x60: 0x0950, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067,
		0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f,
		0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077,
		0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x0972, 0x7c: 0x097b, 0x7d: 0x097c, 0x7e: 0x097e, 0x7f: 0x097f,
	},
	{ // 7
		0x01: 0x0c82, 0x02: 0x0c83, 0x03: 0x0c85, 0x04: 0x0c86, 0x05: 0x0c87, 0x06: 0x0c88, 0x07: 0x0c89, 0x08: 0x0c8a,
		0x09: 0x0c8b, 0x0a: 0x000a, 0x0b: 0x0c8c, 0x0d: 0x000d, 0x0e: 0x0c8e, 0x0f: 0x0c8f, 0x10: 0x0c90, 0x12: 0x0c92,
		0x13: 0x0c93, 0x14: 0x0c94, 0x15: 0x0c95, 0x16: 0x0c96, 0x17: 0x0c97, 0x18: 0x0c98, 0x19: 0x0c99, 0x1a: 0x0c9a,
		0x1b: 0x001b, 0x1c: 0x0c9b, 0x1d: 0x0c9c, 0x1e: 0x0c9d, 0x1f: 0x0c9e, 0x20: 0x0020, 0x21: 0x0021, 0x22: 0x0c9f,
		0x23: 0x0ca0, 0x24: 0x0ca1, 0x25: 0x0ca2, 0x26: 0x0ca3, 0x27: 0x0ca4, 0x28: 0x0029, 0x29: 0x0028, 0x2a: 0x0ca5,
		0x2b: 0x0ca6, 0x2c: 0x002c, 0x2d: 0x0ca7, 0x2e: 0x002e, 0x2f: 0x0ca8, 0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032,
		0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037, 0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a,
		0x3b: 0x003b, 0x3d: 0x0caa, 0x3e: 0x0cab, 0x3f: 0x003f, 0x40: 0x0cac, 0x41: 0x0cad, 0x42: 0x0cae, 0x43: 0x0caf,
		0x44: 0x0cb0, 0x45: 0x0cb1, 0x46: 0x0cb2, 0x47: 0x0cb3, 0x49: 0x0cb5, 0x4a: 0x0cb6, 0x4b: 0x0cb7, 0x4c: 0x0cb8,
		0x4d: 0x0cb9, 0x4e: 0x0cbc, 0x4f: 0x0cbd, 0x50: 0x0cbe, 0x51: 0x0cbf, 0x52: 0x0cc0, 0x53: 0x0cc1, 0x54: 0x0cc2,
		0x55: 0x0cc3, 0x56: 0x0cc4, 0x58: 0x0cc6, 0x59: 0x0cc7, 0x5a: 0x0cc8, 0x5c: 0x0cca, 0x5d: 0x0ccb, 0x5e: 0x0ccc,
		0x5f: 0x0ccd, 0x60: 0x0cd5, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066,
		0x67: 0x0067, 0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e,
		0x6f: 0x006f, 0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076,
		0x77: 0x0077, 0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x0cd6, 0x7c: 0x0ce0, 0x7d: 0x0ce1, 0x7e: 0x0ce2,
		0x7f: 0x0ce3,
	},
	{ // 8
		0x01: 0x0d02, 0x02: 0x0d03, 0x03: 0x0d05, 0x04: 0x0d06, 0x05: 0x0d07, 0x06: 0x0d08, 0x07: 0x0d09, 0x08: 0x0d0a,
		0x09: 0x0d0b, 0x0a: 0x000a, 0x0b: 0x0d0c, 0x0d: 0x000d, 0x0e: 0x0d0e, 0x0f: 0x0d0f, 0x10: 0x0d10, 0x12: 0x0d12,
		0x13: 0x0d13, 0x14: 0x0d14, 0x15: 0x0d15, 0x16: 0x0d16, 0x17: 0x0d17, 0x18: 0x0d18, 0x19: 0x0d19, 0x1a: 0x0d1a,
		0x1b: 0x001b, 0x1c: 0x0d1b, 0x1d: 0x0d1c, 0x1e: 0x0d1d, 0x1f: 0x0d1e, 0x20: 0x0020, 0x21: 0x0021, 0x22: 0x0d1f,
		0x23: 0x0d20, 0x24: 0x0d21, 0x25: 0x0d22, 0x26: 0x0d23, 0x27: 0x0d24, 0x28: 0x0029, 0x29: 0x0028, 0x2a: 0x0d25,
		0x2b: 0x0d26, 0x2c: 0x002c, 0x2d: 0x0d27, 0x2e: 0x002e, 0x2f: 0x0d28, 0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032,
		0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037, 0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a,
		0x3b: 0x003b, 0x3d: 0x0d2a, 0x3e: 0x0d2b, 0x3f: 0x003f, 0x40: 0x0d2c, 0x41: 0x0d2d, 0x42: 0x0d2e, 0x43: 0x0d2f,
		0x44: 0x0d30, 0x45: 0x0d31, 0x46: 0x0d32, 0x47: 0x0d33, 0x48: 0x0d34, 0x49: 0x0d35, 0x4a: 0x0d36, 0x4b: 0x0d37,
		0x4c: 0x0d38, 0x4d: 0x0d39, 0x4f: 0x0d3d, 0x50: 0x0d3e, 0x51: 0x0d3f, 0x52: 0x0d40, 0x53: 0x0d41, 0x54: 0x0d42,
		0x55: 0x0d43, 0x56: 0x0d44, 0x58: 0x0d46, 0x59: 0x0d47, 0x5a: 0x0d48, 0x5c: 0x0d4a, 0x5d: 0x0d4b, 0x5e: 0x0d4c,
		0x5f: 0x0d4d, 0x60: 0x0d57, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066,
		0x67: 0x0067, 0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e,
		0x6f: 0x006f, 0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076,
		0x77: 0x0077, 0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x0d60, 0x7c: 0x0d61, 0x7d: 0x0d62, 0x7e: 0x0d63,
		0x7f: 0x0d79,
	},
	{ // 9
		0x00: 0x0b01, 0x01: 0x0b02, 0x02: 0x0b03, 0x03: 0x0b05, 0x04: 0x0b06, 0x05: 0x0b07, 0x06: 0x0b08, 0x07: 0x0b09,
		0x08: 0x0b0a, 0x09: 0x0b0b, 0x0a: 0x000a, 0x0b: 0x0b0c, 0x0d: 0x000d, 0x0f: 0x0b0f, 0x10: 0x0b10, 0x13: 0x0b13,
		0x14: 0x0b14, 0x15: 0x0b15, 0x16: 0x0b16, 0x17: 0x0b17, 0x18: 0x0b18, 0x19: 0x0b19, 0x1a: 0x0b1a, 0x1b: 0x001b,
		0x1c: 0x0b1b, 0x1d: 0x0b1c, 0x1e: 0x0b1d, 0x1f: 0x0b1e, 0x20: 0x0020, 0x21: 0x0021, 0x22: 0x0b1f, 0x23: 0x0b20,
		0x24: 0x0b21, 0x25: 0x0b22, 0x26: 0x0b23, 0x27: 0x0b24, 0x28: 0x0029, 0x29: 0x0028, 0x2a: 0x0b25, 0x2b: 0x0b26,
		0x2c: 0x002c, 0x2d: 0x0b27, 0x2e: 0x002e, 0x2f: 0x0b28, 0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033,
		0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037, 0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b,
		0x3d: 0x0b2a, 0x3e: 0x0b2b, 0x3f: 0x003f, 0x40: 0x0b2c, 0x41: 0x0b2d, 0x42: 0x0b2e, 0x43: 0x0b2f, 0x44: 0x0b30,
		0x46: 0x0b32, 0x47: 0x0b33, 0x49: 0x0b35, 0x4a: 0x0b36, 0x4b: 0x0b37, 0x4c: 0x0b38, 0x4d: 0x0b39, 0x4e: 0x0b3c,
		0x4f: 0x0b3d, 0x50: 0x0b3e, 0x51: 0x0b3f, 0x52: 0x0b40, 0x53: 0x0b41, 0x54: 0x0b42, 0x55: 0x0b43, 0x56: 0x0b44,
		0x59: 0x0b47, 0x5a: 0x0b48, 0x5d: 0x0b4b, 0x5e: 0x0b4c, 0x5f: 0x0b4d, 0x60: 0x0b56, 0x61: 0x0061, 0x62: 0x0062,
		0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067, 0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a,
		0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f, 0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072,
		0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077, 0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a,
		0x7b: 0x0b57, 0x7c: 0x0b60, 0x7d: 0x0b61, 0x7e: 0x0b62, 0x7f: 0x0b63,
	},
	{ // 10
		0x00: 0x0a01, 0x01: 0x0a02, 0x02: 0x0a03, 0x03: 0x0a05, 0x04: 0x0a06, 0x05: 0x0a07, 0x06: 0x0a08, 0x07: 0x0a09,
		0x08: 0x0a0a, 0x0a: 0x000a, 0x0d: 0x000d, 0x0f: 0x0a0f, 0x10: 0x0a10, 0x13: 0x0a13, 0x14: 0x0a14, 0x15: 0x0a15,
		0x16: 0x0a16, 0x17: 0x0a17, 0x18: 0x0a18, 0x19: 0x0a19, 0x1a: 0x0a1a, 0x1b: 0x001b, 0x1c: 0x0a1b, 0x1d: 0x0a1c,
		0x1e: 0x0a1d, 0x1f: 0x0a1e, 0x20: 0x0020, 0x21: 0x0021, 0x22: 0x0a1f, 0x23: 0x0a20, 0x24: 0x0a21, 0x25: 0x0a22,
		0x26: 0x0a23, 0x27: 0x0a24, 0x28: 0x0029, 0x29: 0x0028, 0x2a: 0x0a25, 0x2b: 0x0a26, 0x2c: 0x002c, 0x2d: 0x0a27,
		0x2e: 0x002e, 0x2f: 0x0a28, 0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035,
		0x36: 0x0036, 0x37: 0x0037, 0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b, 0x3d: 0x0a2a, 0x3e: 0x0a2b,
		0x3f: 0x003f, 0x40: 0x0a2c, 0x41: 0x0a2d, 0x42: 0x0a2e, 0x43: 0x0a2f, 0x44: 0x0a30, 0x46: 0x0a32, 0x47: 0x0a33,
		0x49: 0x0a35, 0x4a: 0x0a36, 0x4c: 0x0a38, 0x4d: 0x0a39, 0x4e: 0x0a3c, 0x50: 0x0a3e, 0x51: 0x0a3f, 0x52: 0x0a40,
		0x53: 0x0a41, 0x54: 0x0a42, 0x59: 0x0a47, 0x5a: 0x0a48, 0x5d: 0x0a4b, 0x5e: 0x0a4c, 0x5f: 0x0a4d, 0x60: 0x0a51,
		0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067, 0x68: 0x0068,
		0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f, 0x70: 0x0070,
		0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077, 0x78: 0x0078,
		0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x0a70, 0x7c: 0x0a71, 0x7d: 0x0a72, 0x7e: 0x0a73, 0x7f: 0x0a74,
	},
	{ // 11
		0x01: 0x0b82, 0x02: 0x0b83, 0x03: 0x0b85, 0x04: 0x0b86, 0x05: 0x0b87, 0x06: 0x0b88, 0x07: 0x0b89, 0x08: 0x0b8a,
		0x0a: 0x000a, 0x0d: 0x000d, 0x0e: 0x0b8e, 0x0f: 0x0b8f, 0x10: 0x0b90, 0x12: 0x0b92, 0x13: 0x0b93, 0x14: 0x0b94,
		0x15: 0x0b95, 0x19: 0x0b99, 0x1a: 0x0b9a, 0x1b: 0x001b, 0x1d: 0x0b9c, 0x1f: 0x0b9e, 0x20: 0x0020, 0x21: 0x0021,
		0x22: 0x0b9f, 0x26: 0x0ba3, 0x27: 0x0ba4, 0x28: 0x0029, 0x29: 0x0028, 0x2c: 0x002c, 0x2e: 0x002e, 0x2f: 0x0ba8,
		0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037,
		0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b, 0x3c: 0x0ba9, 0x3d: 0x0baa, 0x3f: 0x003f, 0x42: 0x0bae,
		0x43: 0x0baf, 0x44: 0x0bb0, 0x45: 0x0bb1, 0x46: 0x0bb2, 0x47: 0x0bb3, 0x48: 0x0bb4, 0x49: 0x0bb5, 0x4a: 0x0bb6,
		0x4b: 0x0bb7, 0x4c: 0x0bb8, 0x4d: 0x0bb9, 0x50: 0x0bbe, 0x51: 0x0bbf, 0x52: 0x0bc0, 0x53: 0x0bc1, 0x54: 0x0bc2,
		0x58: 0x0bc6, 0x59: 0x0bc7, 0x5a: 0x0bc8, 0x5c: 0x0bca, 0x5d: 0x0bcb, 0x5e: 0x0bcc, 0x5f: 0x0bcd, 0x60: 0x0bd0,
		0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067, 0x68: 0x0068,
		0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f, 0x70: 0x0070,
		0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077, 0x78: 0x0078,
		0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x0bd7, 0x7c: 0x0bf0, 0x7d: 0x0bf1, 0x7e: 0x0bf2, 0x7f: 0x0bf9,
	},
	{ // 12
		0x00: 0x0c01, 0x01: 0x0c02, 0x02: 0x0c03, 0x03: 0x0c05, 0x04: 0x0c06, 0x05: 0x0c07, 0x06: 0x0c08, 0x07: 0x0c09,
		0x08: 0x0c0a, 0x09: 0x0c0b, 0x0a: 0x000a, 0x0b: 0x0c0c, 0x0d: 0x000d, 0x0e: 0x0c0e, 0x0f: 0x0c0f, 0x10: 0x0c10,
		0x12: 0x0c12, 0x13: 0x0c13, 0x14: 0x0c14, 0x15: 0x0c15, 0x16: 0x0c16, 0x17: 0x0c17, 0x18: 0x0c18, 0x19: 0x0c19,
		0x1a: 0x0c1a, 0x1b: 0x001b, 0x1c: 0x0c1b, 0x1d: 0x0c1c, 0x1e: 0x0c1d, 0x1f: 0x0c1e, 0x20: 0x0020, 0x21: 0x0021,
		0x22: 0x0c1f, 0x23: 0x0c20, 0x24: 0x0c21, 0x25: 0x0c22, 0x26: 0x0c23, 0x27: 0x0c24, 0x28: 0x0029, 0x29: 0x0028,
		0x2a: 0x0c25, 0x2b: 0x0c26, 0x2c: 0x002c, 0x2d: 0x0c27, 0x2e: 0x002e, 0x2f: 0x0c28, 0x30: 0x0030, 0x31: 0x0031,
		0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037, 0x38: 0x0038, 0x39: 0x0039,
		0x3a: 0x003a, 0x3b: 0x003b, 0x3d: 0x0c2a, 0x3e: 0x0c2b, 0x3f: 0x003f, 0x40: 0x0c2c, 0x41: 0x0c2d, 0x42: 0x0c2e,
		0x43: 0x0c2f, 0x44: 0x0c30, 0x45: 0x0c31, 0x46: 0x0c32, 0x47: 0x0c33, 0x49: 0x0c35, 0x4a: 0x0c36, 0x4b: 0x0c37,
		0x4c: 0x0c38, 0x4d: 0x0c39, 0x4f: 0x0c3d, 0x50: 0x0c3e, 0x51: 0x0c3f, 0x52: 0x0c40, 0x53: 0x0c41, 0x54: 0x0c42,
		0x55: 0x0c43, 0x56: 0x0c44, 0x58: 0x0c46, 0x59: 0x0c47, 0x5a: 0x0c48, 0x5c: 0x0c4a, 0x5d: 0x0c4b, 0x5e: 0x0c4c,
		0x5f: 0x0c4d, 0x60: 0x0c55, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066,
		0x67: 0x0067, 0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e,
		0x6f: 0x006f, 0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076,
		0x77: 0x0077, 0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x0c56, 0x7c: 0x0c60, 0x7d: 0x0c61, 0x7e: 0x0c62,
		0x7f: 0x0c63,
	},
	{ // 13
		0x00: 0x0627, 0x01: 0x0622, 0x02: 0x0628, 0x03: 0x067b, 0x04: 0x0680, 0x05: 0x067e, 0x06: 0x06a6, 0x07: 0x062a,
		0x08: 0x06c2, 0x09: 0x067f, 0x0a: 0x000a, 0x0b: 0x0679, 0x0c: 0x067d, 0x0d: 0x000d, 0x0e: 0x067a, 0x0f: 0x067c,
		0x10: 0x062b, 0x11: 0x062c, 0x12: 0x0681, 0x13: 0x0684, 0x14: 0x0683, 0x15: 0x0685, 0x16: 0x0686, 0x17: 0x0687,
		0x18: 0x062d, 0x19: 0x062e, 0x1a: 0x062f, 0x1b: 0x001b, 0x1c: 0x068c, 0x1d: 0x0688, 0x1e: 0x0689, 0x1f: 0x068a,
		0x20: 0x0020, 0x21: 0x0021, 0x22: 0x068f, 0x23: 0x068d, 0x24: 0x0630, 0x25: 0x0631, 0x26: 0x0691, 0x27: 0x0693,
		0x28: 0x0029, 0x29: 0x0028, 0x2a: 0x0699, 0x2b: 0x0632, 0x2c: 0x002c, 0x2d: 0x0696, 0x2e: 0x002e, 0x2f: 0x0698,
		0x30: 0x0030, 0x31: 0x0031, 0x32: 0x0032, 0x33: 0x0033, 0x34: 0x0034, 0x35: 0x0035, 0x36: 0x0036, 0x37: 0x0037,
		0x38: 0x0038, 0x39: 0x0039, 0x3a: 0x003a, 0x3b: 0x003b, 0x3c: 0x069a, 0x3d: 0x0633, 0x3e: 0x0634, 0x3f: 0x003f,
		0x40: 0x0635, 0x41: 0x0636, 0x42: 0x0637, 0x43: 0x0638, 0x44: 0x0639, 0x45: 0x0641, 0x46: 0x0642, 0x47: 0x06a9,
		0x48: 0x06aa, 0x49: 0x06ab, 0x4a: 0x06af, 0x4b: 0x06b3, 0x4c: 0x06b1, 0x4d: 0x0644, 0x4e: 0x0645, 0x4f: 0x0646,
		0x50: 0x06ba, 0x51: 0x06bb, 0x52: 0x06bc, 0x53: 0x0648, 0x54: 0x06c4, 0x55: 0x06d5, 0x56: 0x06c1, 0x57: 0x06be,
		0x58: 0x0621, 0x59: 0x06cc, 0x5a: 0x06d0, 0x5b: 0x06d2, 0x5c: 0x064d, 0x5d: 0x0650, 0x5e: 0x064f, 0x5f: 0x0657,
		0x60: 0x0654, 0x61: 0x0061, 0x62: 0x0062, 0x63: 0x0063, 0x64: 0x0064, 0x65: 0x0065, 0x66: 0x0066, 0x67: 0x0067,
		0x68: 0x0068, 0x69: 0x0069, 0x6a: 0x006a, 0x6b: 0x006b, 0x6c: 0x006c, 0x6d: 0x006d, 0x6e: 0x006e, 0x6f: 0x006f,
		0x70: 0x0070, 0x71: 0x0071, 0x72: 0x0072, 0x73: 0x0073, 0x74: 0x0074, 0x75: 0x0075, 0x76: 0x0076, 0x77: 0x0077,
		0x78: 0x0078, 0x79: 0x0079, 0x7a: 0x007a, 0x7b: 0x0655, 0x7c: 0x0651, 0x7d: 0x0653, 0x7e: 0x0656, 0x7f: 0x0670,
	},
}

var shiftTable = [14]map[byte]rune{
	{ // 0
		0x0a: 0x000c, 0x0d: 0x000a, 0x14: 0x005e, 0x28: 0x007b, 0x29: 0x007d, 0x2f: 0x005c, 0x3c: 0x005b, 0x3d: 0x007e,
		0x3e: 0x005d, 0x40: 0x007c, 0x65: 0x20ac,
	},
	{ // 1
		0x0a: 0x000c, 0x0d: 0x000a, 0x14: 0x005e, 0x28: 0x007b, 0x29: 0x007d, 0x2f: 0x005c, 0x3c: 0x005b, 0x3d: 0x007e,
		0x3e: 0x005d, 0x40: 0x007c, 0x47: 0x011e, 0x49: 0x0130, 0x53: 0x015e, 0x63: 0x00e7, 0x65: 0x20ac, 0x67: 0x011f,
		0x69: 0x0131, 0x73: 0x015f,
	},
	{ // 2
		0x09: 0x00e7, 0x0a: 0x000c, 0x0d: 0x000a, 0x14: 0x005e, 0x28: 0x007b, 0x29: 0x007d, 0x2f: 0x005c, 0x3c: 0x005b,
		0x3d: 0x007e, 0x3e: 0x005d, 0x40: 0x007c, 0x41: 0x00c1, 0x49: 0x00cd, 0x4f: 0x00d3, 0x55: 0x00da, 0x61: 0x00e1,
		0x65: 0x20ac, 0x69: 0x00ed, 0x6f: 0x00f3, 0x75: 0x00fa,
	},
	{ // 3
		0x05: 0x00ea, 0x09: 0x00e7, 0x0a: 0x000c, 0x0b: 0x00d4, 0x0c: 0x00f4, 0x0d: 0x000a, 0x0e: 0x00c1, 0x0f: 0x00e1,
		0x12: 0x03a6, 0x13: 0x0393, 0x14: 0x005e, 0x15: 0x03a9, 0x16: 0x03a0, 0x17: 0x03a8, 0x18: 0x03a3, 0x19: 0x0398,
		0x1f: 0x00ca, 0x28: 0x007b, 0x29: 0x007d, 0x2f: 0x005c, 0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d, 0x40: 0x007c,
		0x41: 0x00c0, 0x49: 0x00cd, 0x4f: 0x00d3, 0x55: 0x00da, 0x5b: 0x00c3, 0x5c: 0x00d5, 0x61: 0x00c2, 0x65: 0x20ac,
		0x69: 0x00ed, 0x6f: 0x00f3, 0x75: 0x00fa, 0x7b: 0x00e3, 0x7c: 0x00f5, 0x7f: 0x00e2,
	},
	{ // 4
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x09e6, 0x1a: 0x09e7, 0x1b: 0x001b, 0x1c: 0x09e8, 0x1d: 0x09e9, 0x1e: 0x09ea, 0x1f: 0x09eb,
		0x20: 0x09ec, 0x21: 0x09ed, 0x22: 0x09ee, 0x23: 0x09ef, 0x24: 0x09df, 0x25: 0x09e0, 0x26: 0x09e1, 0x27: 0x09e2,
		0x28: 0x007b, 0x29: 0x007d, 0x2a: 0x09e3, 0x2b: 0x09f2, 0x2c: 0x09f3, 0x2d: 0x09f4, 0x2e: 0x09f5, 0x2f: 0x005c,
		0x30: 0x09f6, 0x31: 0x09f7, 0x32: 0x09f8, 0x33: 0x09f9, 0x34: 0x09fa, 0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d,
		0x40: 0x007c, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047,
		0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f,
		0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057,
		0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 5
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x0964, 0x1a: 0x0965, 0x1b: 0x001b, 0x1c: 0x0ae6, 0x1d: 0x0ae7, 0x1e: 0x0ae8, 0x1f: 0x0ae9,
		0x20: 0x0aea, 0x21: 0x0aeb, 0x22: 0x0aec, 0x23: 0x0aed, 0x24: 0x0aee, 0x25: 0x0aef, 0x28: 0x007b, 0x29: 0x007d,
		0x2f: 0x005c, 0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d, 0x40: 0x007c, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043,
		0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047, 0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b,
		0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f, 0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053,
		0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057, 0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 6
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x0964, 0x1a: 0x0965, 0x1b: 0x001b, 0x1c: 0x0966, 0x1d: 0x0967, 0x1e: 0x0968, 0x1f: 0x0969,
		0x20: 0x096a, 0x21: 0x096b, 0x22: 0x096c, 0x23: 0x096d, 0x24: 0x096e, 0x25: 0x096f, 0x26: 0x0951, 0x27: 0x0952,
		0x28: 0x007b, 0x29: 0x007d, 0x2a: 0x0953, 0x2b: 0x0954, 0x2c: 0x0958, 0x2d: 0x0959, 0x2e: 0x095a, 0x2f: 0x005c,
		0x30: 0x095b, 0x31: 0x095c, 0x32: 0x095d, 0x33: 0x095e, 0x34: 0x095f, 0x35: 0x0960, 0x36: 0x0961, 0x37: 0x0962,
		0x38: 0x0963, 0x39: 0x0970, 0x3a: 0x0971, 0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d, 0x40: 0x007c, 0x41: 0x0041,
		0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047, 0x48: 0x0048, 0x49: 0x0049,
		0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f, 0x50: 0x0050, 0x51: 0x0051,
		0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057, 0x58: 0x0058, 0x59: 0x0059,
		0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 7
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x0964, 0x1a: 0x0965, 0x1b: 0x001b, 0x1c: 0x0ce6, 0x1d: 0x0ce7, 0x1e: 0x0ce8, 0x1f: 0x0ce9,
		0x20: 0x0cea, 0x21: 0x0ceb, 0x22: 0x0cec, 0x23: 0x0ced, 0x24: 0x0cee, 0x25: 0x0cef, 0x26: 0x0cde, 0x27: 0x0cf1,
		0x28: 0x007b, 0x29: 0x007d, 0x2a: 0x0cf2, 0x2f: 0x005c, 0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d, 0x40: 0x007c,
		0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047, 0x48: 0x0048,
		0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f, 0x50: 0x0050,
		0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057, 0x58: 0x0058,
		0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 8
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x0964, 0x1a: 0x0965, 0x1b: 0x001b, 0x1c: 0x0d66, 0x1d: 0x0d67, 0x1e: 0x0d68, 0x1f: 0x0d69,
		0x20: 0x0d6a, 0x21: 0x0d6b, 0x22: 0x0d6c, 0x23: 0x0d6d, 0x24: 0x0d6e, 0x25: 0x0d6f, 0x26: 0x0d70, 0x27: 0x0d71,
		0x28: 0x007b, 0x29: 0x007d, 0x2a: 0x0d72, 0x2b: 0x0d73, 0x2c: 0x0d74, 0x2d: 0x0d75, 0x2e: 0x0d7a, 0x2f: 0x005c,
		0x30: 0x0d7b, 0x31: 0x0d7c, 0x32: 0x0d7d, 0x33: 0x0d7e, 0x34: 0x0d7f, 0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d,
		0x40: 0x007c, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047,
		0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f,
		0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057,
		0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 9
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x0964, 0x1a: 0x0965, 0x1b: 0x001b, 0x1c: 0x0b66, 0x1d: 0x0b67, 0x1e: 0x0b68, 0x1f: 0x0b69,
		0x20: 0x0b6a, 0x21: 0x0b6b, 0x22: 0x0b6c, 0x23: 0x0b6d, 0x24: 0x0b6e, 0x25: 0x0b6f, 0x26: 0x0b5c, 0x27: 0x0b5d,
		0x28: 0x007b, 0x29: 0x007d, 0x2a: 0x0b5f, 0x2b: 0x0b70, 0x2c: 0x0b71, 0x2f: 0x005c, 0x3c: 0x005b, 0x3d: 0x007e,
		0x3e: 0x005d, 0x40: 0x007c, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046,
		0x47: 0x0047, 0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e,
		0x4f: 0x004f, 0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056,
		0x57: 0x0057, 0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 10
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x0964, 0x1a: 0x0965, 0x1b: 0x001b, 0x1c: 0x0a66, 0x1d: 0x0a67, 0x1e: 0x0a68, 0x1f: 0x0a69,
		0x20: 0x0a6a, 0x21: 0x0a6b, 0x22: 0x0a6c, 0x23: 0x0a6d, 0x24: 0x0a6e, 0x25: 0x0a6f, 0x26: 0x0a59, 0x27: 0x0a5a,
		0x28: 0x007b, 0x29: 0x007d, 0x2a: 0x0a5b, 0x2b: 0x0a5c, 0x2c: 0x0a5e, 0x2d: 0x0a75, 0x2f: 0x005c, 0x3c: 0x005b,
		0x3d: 0x007e, 0x3e: 0x005d, 0x40: 0x007c, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045,
		0x46: 0x0046, 0x47: 0x0047, 0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d,
		0x4e: 0x004e, 0x4f: 0x004f, 0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055,
		0x56: 0x0056, 0x57: 0x0057, 0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 11
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x0964, 0x1a: 0x0965, 0x1b: 0x001b, 0x1c: 0x0be6, 0x1d: 0x0be7, 0x1e: 0x0be8, 0x1f: 0x0be9,
		0x20: 0x0bea, 0x21: 0x0beb, 0x22: 0x0bec, 0x23: 0x0bed, 0x24: 0x0bee, 0x25: 0x0bef, 0x26: 0x0bf3, 0x27: 0x0bf4,
		0x28: 0x007b, 0x29: 0x007d, 0x2a: 0x0bf5, 0x2b: 0x0bf6, 0x2c: 0x0bf7, 0x2d: 0x0bf8, 0x2e: 0x0bfa, 0x2f: 0x005c,
		0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d, 0x40: 0x007c, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044,
		0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047, 0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c,
		0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f, 0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054,
		0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057, 0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 12
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x1b: 0x001b, 0x1c: 0x0c66, 0x1d: 0x0c67, 0x1e: 0x0c68, 0x1f: 0x0c69, 0x20: 0x0c6a, 0x21: 0x0c6b,
		0x22: 0x0c6c, 0x23: 0x0c6d, 0x24: 0x0c6e, 0x25: 0x0c6f, 0x26: 0x0c58, 0x27: 0x0c59, 0x28: 0x007b, 0x29: 0x007d,
		0x2a: 0x0c78, 0x2b: 0x0c79, 0x2c: 0x0c7a, 0x2d: 0x0c7b, 0x2e: 0x0c7c, 0x2f: 0x005c, 0x30: 0x0c7d, 0x31: 0x0c7e,
		0x32: 0x0c7f, 0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d, 0x40: 0x007c, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043,
		0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047, 0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b,
		0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f, 0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053,
		0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057, 0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
	{ // 13
		0x00: 0x0040, 0x01: 0x00a3, 0x02: 0x0024, 0x03: 0x00a5, 0x04: 0x00bf, 0x05: 0x0022, 0x06: 0x00a4, 0x07: 0x0025,
		0x08: 0x0026, 0x09: 0x0027, 0x0a: 0x000c, 0x0b: 0x002a, 0x0c: 0x002b, 0x0d: 0x000d, 0x0e: 0x002d, 0x0f: 0x002f,
		0x10: 0x003c, 0x11: 0x003d, 0x12: 0x003e, 0x13: 0x00a1, 0x14: 0x005e, 0x15: 0x00a1, 0x16: 0x005f, 0x17: 0x0023,
		0x18: 0x002a, 0x19: 0x0600, 0x1a: 0x0601, 0x1b: 0x001b, 0x1c: 0x06f0, 0x1d: 0x06f1, 0x1e: 0x06f2, 0x1f: 0x06f3,
		0x20: 0x06f4, 0x21: 0x06f5, 0x22: 0x06f6, 0x23: 0x06f7, 0x24: 0x06f8, 0x25: 0x06f9, 0x26: 0x060c, 0x27: 0x060d,
		0x28: 0x007b, 0x29: 0x007d, 0x2a: 0x060e, 0x2b: 0x060f, 0x2c: 0x0610, 0x2d: 0x0611, 0x2e: 0x0612, 0x2f: 0x005c,
		0x30: 0x0613, 0x31: 0x0614, 0x32: 0x061b, 0x33: 0x061f, 0x34: 0x0640, 0x35: 0x0652, 0x36: 0x0658, 0x37: 0x066b,
		0x38: 0x066c, 0x39: 0x0672, 0x3a: 0x0673, 0x3b: 0x06cd, 0x3c: 0x005b, 0x3d: 0x007e, 0x3e: 0x005d, 0x3f: 0x06d4,
		0x40: 0x007c, 0x41: 0x0041, 0x42: 0x0042, 0x43: 0x0043, 0x44: 0x0044, 0x45: 0x0045, 0x46: 0x0046, 0x47: 0x0047,
		0x48: 0x0048, 0x49: 0x0049, 0x4a: 0x004a, 0x4b: 0x004b, 0x4c: 0x004c, 0x4d: 0x004d, 0x4e: 0x004e, 0x4f: 0x004f,
		0x50: 0x0050, 0x51: 0x0051, 0x52: 0x0052, 0x53: 0x0053, 0x54: 0x0054, 0x55: 0x0055, 0x56: 0x0056, 0x57: 0x0057,
		0x58: 0x0058, 0x59: 0x0059, 0x5a: 0x005a, 0x65: 0x20ac,
	},
}
