// C20: bit field accessors, judged by a bit-by-bit model of the buffer.
#include "c20_bits.h"

namespace {
	template < size_t Offset, size_t Size > struct Unsafe
	{
		static u64 Get(u8* p, size_t skip, bool big) { return big ? (u64)UnsafeBitsGetter(p, skip).Get<Offset, Size>() : (u64)UnsafeLittleEndianBitsGetter(p, skip).Get<Offset, Size>(); }
		static void Set(u8* p, size_t skip, bool big, u64 v) { if (big) UnsafeBitsSetter(p, skip).Set<Offset, Size>(v); else UnsafeLittleEndianBitsSetter(p, skip).Set<Offset, Size>(v); }
	};

	template < size_t Offset, size_t Size > struct Fixed
	{
		static const bool Raw = Size == 1 || Size == 8 || Size == 12 || Size == 24 || Size == 64;
		static void Run(vh::Rng& rng)
		{
			const size_t n = 1 + rng.Below(20), skip = rng.Below(3) ? 0 : rng.Below(n + 1), bits = (n - skip) * 8; Bytes model = AnyBytes(rng, n);
			const std::unique_ptr<u8[]> mem(new u8[n]); std::copy(model.begin(), model.end(), mem.get()); const bool fits = Offset + Size <= bits;
			const std::string at = std::to_string(Size) + " bits at " + std::to_string(Offset) + " of " + std::to_string(bits) + " after " + std::to_string(skip) + " bytes: "; vh_distinct("offsets", Offset << 8 | Size); vh_count("fields", 4);
			for (int big = 0; big < 2; ++big)
			{
				bool refused = false; u64 got = 0;
				try { if (big) got = BitsGetter(ConstByteData(mem.get(), n), skip).Get<Offset, Size>(); else got = LittleEndianBitsGetter(ConstByteData(mem.get(), n), skip).Get<Offset, Size>(); } catch (const std::exception&) { refused = true; }
				if (!fits) VH_CHECK(refused, "get-past-the-end", at + N(got));
				else
				{
					const u64 want = RefRead(model, skip * 8 + Offset, Size, big); VH_CHECK(!refused && got == want, "get", at + (big ? "big" : "little") + " endian " + Hex(model) + " gives " + N(got) + ", expected " + N(want));
					if (Raw) { const u64 unsafeGot = Unsafe<Offset, Raw ? Size : 8>::Get(mem.get(), skip, big); VH_CHECK(unsafeGot == want, "get-unsafe", at + N(unsafeGot)); }
				}
				const u64 v = AnyValue(rng); const Bytes before = model; refused = false; const bool raw = Raw && fits && rng.Bool();
				try
				{
					if (raw) { Unsafe<Offset, Raw ? Size : 8>::Set(mem.get(), skip, big, v); }
					else if (big) BitsSetter(ByteData(mem.get(), n), skip).Set<Offset, Size>(v); else LittleEndianBitsSetter(ByteData(mem.get(), n), skip).Set<Offset, Size>(v);
				}
				catch (const std::exception&) { refused = true; }
				if (fits) RefWrite(model, skip * 8 + Offset, Size, big, v);
				const Bytes now(mem.get(), mem.get() + n);
				VH_CHECK(refused == !fits && now == model, "set", at + (big ? "big" : "little") + " endian " + N(v) + " turns " + Hex(before) + " into " + Hex(now) + ", expected " + Hex(model));
			}
		}
	};
	typedef void (*FixedF)(vh::Rng&);
	template < size_t Offset, size_t... I > void Add(std::vector<FixedF>& v, std::index_sequence<I...>) { const FixedF all[] = { &Fixed<Offset, I>::Run... }; v.insert(v.end(), all, all + sizeof...(I)); }

	template < typename T > void Whole(vh::Rng& rng)
	{
		const Bytes model = AnyBytes(rng, 12);
		const u64 big = RefRead(model, 0, sizeof(T) * 8, true), big24 = RefRead(model, 24, sizeof(T) * 8, true), little = RefRead(model, 0, sizeof(T) * 8, false); const ConstByteData data(model.data(), model.size());
		VH_CHECK(BitsGetter(data).Get<T>() == (T)big && (BitsGetter(data).Get<24, T>()) == (T)big24 && LittleEndianBitsGetter(data).Get<T>() == (T)little, "get-integer", Hex(model));
		Bytes out(12), want(12); const T v = (T)AnyValue(rng); BitsSetter(ByteData(out)).Set(v); BitsSetter(ByteData(out)).Set<32>(v); RefWrite(want, 0, sizeof(T) * 8, true, (u64)v); RefWrite(want, 32, sizeof(T) * 8, true, (u64)v);
		VH_CHECK(out == want, "set-integer", Hex(out) + ", expected " + Hex(want));
		LittleEndianBitsSetter(ByteData(out)).Set<16>(v); RefWrite(want, 16, sizeof(T) * 8, false, (u64)v);
		VH_CHECK(out == want, "set-integer", Hex(out) + ", expected " + Hex(want));
		// fields appended to an integer
		typedef typename IntType<sizeof(T) * 8, false>::ValueT U; IntegerBuilder<U> b; u64 r = 0; size_t used = 0;
		while (used < sizeof(T) * 8) { const size_t w = 1 + rng.Below(std::min<size_t>(15, sizeof(T) * 8 - used) ); if (w >= sizeof(T) * 8) break; const u16 f = (u16)rng.Below(65536); if (w == 1 && rng.Bool()) { b.Append(bool(f & 1)); r = r << 1 | (f & 1); } else { b.Append(f, w); r = r << w | (f & ((1u << w) - 1)); } used += w; VH_CHECK(b.GetResult() == (U)r, "integer-builder", N(b.GetResult()) + ", expected " + N(r)); }
	}
	template < typename T, size_t... I > void Single(u64 v, std::index_sequence<I...>)
	{
		const T x = (T)v; const u64 m = (u64)std::numeric_limits<T>::max();
		const bool ok[] = { (TestBit<I>(x) == bool((u64)x >> I & 1) && SetBit<I>(x) == (T)(x | (u64)1 << I) && ResetBit<I>(x) == (T)(x & ~((u64)1 << I)) && FlipBit<I>(x) == (T)(x ^ (u64)1 << I))... };
		for (size_t i = 0; i < sizeof...(I); ++i) VH_CHECK(ok[i], "single-bit", N(x) + " bit " + std::to_string(i)); (void)m;
	}
}

VH_SCENARIO(fields)
{
	static std::vector<FixedF> all; if (all.empty()) { Widths sizes; Add<0>(all, sizes); Add<5>(all, sizes); Add<12>(all, sizes); Add<64>(all, sizes); }
	for (int i = 0; i < 20; ++i) rng.Pick(all)(rng);
	Whole<u8>(rng); Whole<u16>(rng); Whole<u32>(rng); Whole<u64>(rng); Whole<s8>(rng); Whole<s16>(rng); Whole<s32>(rng); Whole<s64>(rng);
	const u64 v = AnyValue(rng); Single<u8>(v, std::make_index_sequence<8>()); Single<u16>(v, std::make_index_sequence<16>()); Single<u32>(v, std::make_index_sequence<32>()); Single<u64>(v, std::make_index_sequence<64>());
	const u8 b = (u8)v; u8 reversed = 0; for (int i = 0; i < 8; ++i) reversed |= u8((b >> i & 1) << (7 - i)); VH_CHECK(ReverseBits(b) == reversed, "reverse-bits", N(b) + " -> " + N(ReverseBits(b)));
	// fields in arithmetic
	const Bytes data = AnyBytes(rng, 9); BitsGetter g((ConstByteData(data.data(), data.size()))); const u32 k = (u32)rng.Below(1000) + 1;
	const u64 f = RefRead(data, 3, 30, true); VH_CHECK((g.Get<3, 30>() + k) == (u32)(f + k) && (k + g.Get<3, 30>()) == (u32)(f + k) && (g.Get<3, 30>() - k) == (u32)(f - k) && (g.Get<3, 30>() / k) == (u32)(f / k) && (g.Get<3, 30>() & k) == (u32)(f & k) && (g.Get<3, 30>() | k) == (u32)(f | k) && (g.Get<3, 30>() == (u32)f) && !(g.Get<3, 30>() != (u32)f), "field-arithmetic", Hex(data));
}

