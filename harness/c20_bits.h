// C20: the bit-by-bit model of a buffer shared by the harnesses of this property.
#pragma once
#include "vh.h"
#include <stingraykit/BitwiseOperations.h>
#include <stingraykit/IntegerBuilder.h>
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/io/BitStream.h>
#include <array>
#include <utility>

using namespace stingray;

namespace {
	typedef std::vector<u8> Bytes;

	bool BitAt(const Bytes& b, size_t i) { return b[i / 8] >> (7 - i % 8) & 1; }
	void PutBit(Bytes& b, size_t i, bool v) { const u8 m = u8(1 << (7 - i % 8)); if (v) b[i / 8] |= m; else b[i / 8] &= u8(~m); }
	// where in the stream the bit with the given weight is: big endian from the last bit back; little endian byte by byte, an incomplete last byte being the top of the value
	size_t Place(size_t weight, size_t size, bool big)
	{
		if (big || size <= 8) return size - 1 - weight;
		const size_t byte = weight / 8, width = std::min<size_t>(8, size - byte * 8);
		return byte * 8 + width - 1 - weight % 8;
	}
	u64 RefRead(const Bytes& b, size_t at, size_t size, bool big) { u64 r = 0; for (size_t w = 0; w < size; ++w) r |= u64(BitAt(b, at + Place(w, size, big))) << w; return r; }
	void RefWrite(Bytes& b, size_t at, size_t size, bool big, u64 v) { for (size_t w = 0; w < size; ++w) PutBit(b, at + Place(w, size, big), v >> w & 1); }
	std::string Hex(const Bytes& b) { std::string r; char t[4]; for (u8 x : b) { snprintf(t, 4, "%02x", x); r += t; } return r; }
	std::string N(u64 v) { char t[24]; snprintf(t, 24, "%llu(0x%llx)", (unsigned long long)v, (unsigned long long)v); return t; }

	class Letter { STINGRAYKIT_ENUM_VALUES(A = 0, B = 1, C = 5, All = 0x7fffffff); STINGRAYKIT_DECLARE_ENUM_CLASS(Letter); };

	u64 AnyValue(vh::Rng& rng)
	{
		switch (rng.Below(6)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << rng.Below(64); case 3: return rng.Below(256); case 4: return 0x8040201008040201ull << rng.Below(8); default: return rng.Below(~0ull); }
	}
	Bytes AnyBytes(vh::Rng& rng, size_t n) { Bytes b(n); const int k = (int)rng.Below(4); for (u8& x : b) x = k == 0 ? 0 : k == 1 ? 0xff : (u8)rng.Below(256); return b; }

	// widths read and written: all small ones and those around every byte
	typedef std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 55, 56, 57, 63, 64> Widths;
	typedef std::index_sequence<1, 5, 8, 13, 16, 24, 32, 64> SomeWidths;
}
