// Proofs of work found with an independent miner for the header of pow_mc.cpp's base() with the given nonce.
#pragma once
struct Proof { int alg; int bits; unsigned long nonce; pw::N n; };
inline const std::vector<Proof>& proofs() { static std::vector<Proof> p = {
	{ pw::ROOD, 29, 18, { 0x94317f, 0x10f58a1, 0x30984ad, 0x31aac1f, 0x3a27392, 0x5362bc4, 0x650d568, 0x68aca0f, 0x728115c, 0x840b428, 0x84e725b, 0x895c797, 0x9eed673, 0xd1f4f6f, 0xd2e997e, 0xe71f01c, 0x10cab5d0, 0x13732101, 0x1383b412, 0x13c13a7a, 0x142c4bf2, 0x145f319b, 0x14a9b178, 0x15036a6d, 0x155dfb0f, 0x159226b7, 0x165fb7ae, 0x168ea68c, 0x1897bc06, 0x18e50801, 0x197ffd13, 0x19bd70ae, 0x1a5de0dc, 0x1b04f89b, 0x1b0ecf60, 0x1b5a30c6, 0x1c42630b, 0x1d199c92, 0x1d3177cd, 0x1e9d7ee8, 0x1ef76c5b, 0x1f3f3efd } },
	{ pw::ROOM, 29, 20, { 0xcd52de, 0x366c9fd, 0x3707399, 0x4f066df, 0x6689ded, 0x739b602, 0x75a639d, 0x780c472, 0x82e8c43, 0x91926b0, 0x923601d, 0xadad500, 0xb606097, 0xbad3e78, 0xd7771a9, 0xdb622cd, 0xe7b48c7, 0xf17a403, 0xf437f0c, 0xfa5e602, 0x106ce804, 0x116de025, 0x1183acf8, 0x1227fc39, 0x12783c78, 0x12bb8cce, 0x13168e3a, 0x14587699, 0x146a63cb, 0x14c6b949, 0x15e26923, 0x16e5e528, 0x17cd2987, 0x17e33104, 0x1874e638, 0x1b968216, 0x1bf07e4b, 0x1c347627, 0x1cb25b72, 0x1db8f380, 0x1e2c405d, 0x1f280e9a } },
}; return p; }
