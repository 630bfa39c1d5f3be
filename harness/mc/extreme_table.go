package main

// Written by tools/extreme 4000000.
var extremeTable = []extremeEntry{
	{151084, "R: bytes 255"},
	{1219964, "R: bytes with the high bit"},
	{3326040, "R: bytes without the high bit"},
	{22998, "R: equal bytes"},
	{450307, "R: high end ones"},
	{3215411, "R: high end zero"},
	{2429050, "R: low end ones"},
	{233570, "R: low end zero"},
	{1057468, "R: run of one bits"},
	{1341199, "R: run of zero bits"},
	{479368, "R: zero bytes"},
	{129732, "S: bytes 255"},
	{454770, "S: bytes with the high bit"},
	{674319, "S: bytes without the high bit"},
	{2034597, "S: equal bytes"},
	{2061050, "S: high end ones"},
	{451678, "S: high end zero"},
	{432208, "S: low end ones"},
	{3465998, "S: low end zero"},
	{1124762, "S: run of one bits"},
	{1733803, "S: run of zero bits"},
	{48595, "S: zero bytes"},
	{127581, "challenge: bytes 255"},
	{556651, "challenge: bytes with the high bit"},
	{294767, "challenge: bytes without the high bit"},
	{499354, "challenge: equal bytes"},
	{1457943, "challenge: high end ones"},
	{1113471, "challenge: high end zero"},
	{531630, "challenge: low end ones"},
	{1484787, "challenge: low end zero"},
	{2540736, "challenge: run of one bits"},
	{1113471, "challenge: run of zero bits"},
	{60828, "challenge: zero bytes"},
	{513842, "nonce: bytes 255"},
	{2593989, "nonce: bytes with the high bit"},
	{3767137, "nonce: bytes without the high bit"},
	{3519576, "nonce: equal bytes"},
	{2570451, "nonce: high end ones"},
	{1990124, "nonce: high end zero"},
	{1999849, "nonce: low end ones"},
	{3346920, "nonce: low end zero"},
	{3135885, "nonce: run of one bits"},
	{2832520, "nonce: run of zero bits"},
	{1777314, "nonce: zero bytes"},
	{236035, "prefix: bytes 255"},
	{1342723, "prefix: bytes with the high bit"},
	{497439, "prefix: bytes without the high bit"},
	{131013, "prefix: equal bytes"},
	{3943900, "prefix: high end ones"},
	{3410202, "prefix: high end zero"},
	{1649638, "prefix: low end ones"},
	{2617767, "prefix: low end zero"},
	{2188959, "prefix: run of one bits"},
	{804777, "prefix: run of zero bits"},
	{3823233, "prefix: zero bytes"},
	{2385409, "public: bytes 255"},
	{126402, "public: bytes with the high bit"},
	{123713, "public: bytes without the high bit"},
	{11676, "public: equal bytes"},
	{3737458, "public: high end ones"},
	{1702172, "public: high end zero"},
	{3174088, "public: low end ones"},
	{2371919, "public: low end zero"},
	{2505910, "public: run of one bits"},
	{2098129, "public: run of zero bits"},
	{2072939, "public: zero bytes"},
	{212773, "scalar: bytes 255"},
	{216847, "scalar: bytes with the high bit"},
	{1079931, "scalar: bytes without the high bit"},
	{55170, "scalar: equal bytes"},
	{2093928, "scalar: high end ones"},
	{2540532, "scalar: high end zero"},
	{3465644, "scalar: low end ones"},
	{1658230, "scalar: low end zero"},
	{178373, "scalar: run of one bits"},
	{125031, "scalar: run of zero bits"},
	{1659631, "scalar: zero bytes"},
	{1020333, "shared: bytes 255"},
	{3569212, "shared: bytes with the high bit"},
	{72446, "shared: bytes without the high bit"},
	{2130286, "shared: equal bytes"},
	{3742033, "shared: high end ones"},
	{38646, "shared: high end zero"},
	{351604, "shared: low end ones"},
	{3589863, "shared: low end zero"},
	{2832413, "shared: run of one bits"},
	{3690380, "shared: run of zero bits"},
	{322969, "shared: zero bytes"},
}
