// C20: bit streams, judged by a bit-by-bit model of the buffer.
#include "c20_bits.h"

namespace {
	template < typename S > struct Dispatch
	{
		typedef u64 (*ReadF)(S&, int); typedef void (*WriteF)(S&, u64, int);
		template < size_t Size > static u64 Read(S& s, int how)
		{
			if (how == 8) { const u64 r = s.template Peek<Size>(); s.Skip(Size); return r; }
			if (how == 9) { const Detail::BasicBitStreamReadProxy<typename S::Data, S::Big, Size> later = s.template Read<Size>(); return static_cast<u64>(later); }
			const u64 r = s.template Read<Size>(); return r;
		}
		template < size_t Size > static void Write(S& s, u64 v, int how)
		{
			if (how == 8) { typename S::template DeferredWriter<Size> d(s); d.Write(v); return; }
			s.template Write<Size>(v);
		}
		// a value read may be of any type that is wide enough
		template < typename T, size_t Size, bool Ok > struct As
		{ static bool Read(S& s, u64& out) { const T r = s.template Read<Size>(); out = (u64)(typename Detail::BitsGetterResultType<T>::ValueT)r; return true; } };
		template < typename T, size_t Size > struct As<T, Size, false>
		{ static bool Read(S&, u64&) { return false; } };
		template < size_t Size > static u64 ReadTyped(S& s, int how)
		{
			u64 r = 0;
			switch (how)
			{
			case 1: if (As<u8, Size, Size <= 8>::Read(s, r)) return r; break; case 2: if (As<u16, Size, Size <= 16>::Read(s, r)) return r; break; case 3: if (As<u32, Size, Size <= 32>::Read(s, r)) return r; break;
			case 4: if (As<s64, Size, Size == 64>::Read(s, r)) return r; break; case 5: if (As<s32, Size, (Size < 32)>::Read(s, r)) return r; break; case 6: if (As<bool, Size, Size == 1>::Read(s, r)) return r; break;
			case 7: if (As<Letter, Size, (Size < 32)>::Read(s, r)) return r; break;
			}
			return Read<Size>(s, how);
		}
		template < size_t Size > static void WriteTyped(S& s, u64 v, int how)
		{
			switch (how)
			{
			case 1: if (v <= 0xff) { s.template Write<Size>((u8)v); return; } break; case 2: if (v <= 0xffff) { s.template Write<Size>((u16)v); return; } break; case 3: if (v <= 0xffffffffu) { s.template Write<Size>((u32)v); return; } break;
			case 4: if (Size == 64) { s.template Write<Size>((s64)v); return; } break; case 5: if (Size <= 32) { s.template Write<Size>((s32)v); return; } break; case 6: if (v <= 1) { s.template Write<Size>(v != 0); return; } break;
			case 7: if (v <= 0x7fffffff) { s.template Write<Size>(Letter(typename Letter::Enum(v))); return; } break;
			}
			Write<Size>(s, v, how);
		}
		template < size_t... I > static std::array<ReadF, 65> Reads(std::index_sequence<I...>) { std::array<ReadF, 65> t = { }; const int all[] = { (t[I] = &Read<I>, 0)... }; (void)all; return t; }
		template < size_t... I > static std::array<WriteF, 65> Writes(std::index_sequence<I...>) { std::array<WriteF, 65> t = { }; const int all[] = { (t[I] = &Write<I>, 0)... }; (void)all; return t; }
		template < size_t... I > static void Typed(std::array<ReadF, 65>& r, std::array<WriteF, 65>& w, std::index_sequence<I...>) { const int all[] = { (r[I] = &ReadTyped<I>, w[I] = &WriteTyped<I>, 0)... }; (void)all; }
		struct Table { std::array<ReadF, 65> R; std::array<WriteF, 65> W; Table() : R(Reads(typename S::Sizes())), W(Writes(typename S::Sizes())) { Typed(R, W, typename S::TypedSizes()); } };
		static Table& Get() { static Table t; return t; }
		static size_t Known(size_t size) { while (!Get().R[size]) size = (size + 1) % 65; return size; }
		static u64 DoRead(S& s, size_t size, int how) { return Get().R[size](s, how); }
		static void DoWrite(S& s, size_t size, u64 v, int how) { Get().W[size](s, v, how); }
	};
	template < typename D, bool B > struct Stream : BasicBitStream<D, B>
	{ typedef D Data; static const bool Big = B; typedef typename std::conditional<IsSame<D, ByteData>::Value, Widths, SomeWidths>::type Sizes; typedef typename std::conditional<IsSame<D, ByteData>::Value, SomeWidths, std::index_sequence<> >::type TypedSizes; using BasicBitStream<D, B>::BasicBitStream; };

	size_t AnySize(vh::Rng& rng) { return rng.Chance(1, 3) ? 8 * (1 + rng.Below(8)) : rng.Chance(1, 20) ? 0 : 1 + rng.Below(64); }

	// a stream of fixed size: reads, writes, seeks and refusals
	template < typename S > void RunFixed(vh::Rng& rng, size_t ops)
	{
		const size_t n = 1 + rng.Below(28), bits = n * 8; Bytes model = AnyBytes(rng, n); const std::unique_ptr<u8[]> mem(new u8[n]); std::copy(model.begin(), model.end(), mem.get());
		S s(typename S::Data(mem.get(), n)); size_t pos = 0;
		for (size_t i = 0; i < ops; ++i)
		{
			const size_t size = Dispatch<S>::Known(AnySize(rng)); const std::string at = std::string(S::Big ? "big" : "little") + " endian, " + std::to_string(size) + " bits at " + std::to_string(pos) + " of " + std::to_string(bits) + ": "; const Bytes before = model;
			vh_distinct("fields", (pos & 7) << 20 | size << 8 | (S::Big << 4)); vh_count("fields", 1);
			switch (rng.Below(6))
			{
			case 0: case 1:
			{
				const int how = (int)rng.Below(10); bool refused = false; u64 got = 0; try { got = Dispatch<S>::DoRead(s, size, how); } catch (const std::exception&) { refused = true; }
				if (pos + size > bits || pos > bits) { VH_CHECK(refused, "read-past-the-end", at + "gave " + N(got)); s.Seek(pos); }
				else { const u64 want = RefRead(model, pos, size, S::Big); VH_CHECK(!refused && got == want, "read", at + Hex(model) + " gives " + (refused ? "a refusal" : N(got)) + ", expected " + N(want) + " way " + std::to_string(how)); pos += size; }
				break;
			}
			case 2: case 3:
			{
				const int how = (int)rng.Below(9); u64 v = AnyValue(rng); if (how == 5 && size && size < 64) v &= (1ull << size) - 1; bool refused = false; try { Dispatch<S>::DoWrite(s, size, v, how); } catch (const std::exception&) { refused = true; }
				if (pos + size > bits) { VH_CHECK(refused, "write-past-the-end", at + "accepted"); s.Seek(pos); }
				else { RefWrite(model, pos, size, S::Big, v); VH_CHECK(!refused, "write-refused", at); pos += size; }
				const Bytes now(mem.get(), mem.get() + n);
				VH_CHECK(now == model, "write", at + "value " + N(v) + " way " + std::to_string(how) + " turns " + Hex(before) + " into " + Hex(now) + ", expected " + Hex(model));
				break;
			}
			case 4: pos = rng.Below(bits + 1); s.Seek(pos); break;
			default:
			{
				if (rng.Bool() && size <= bits - pos) { const size_t start = pos; typename S::Watcher w(s); s.Skip(size); pos += size; VH_CHECK(w.GetOffsetDelta() == pos - start, "watcher", at); if (start % 8 == 0) VH_CHECK(w.GetDataDelta().size() == size / 8, "watcher", at); }
				else { typename S::Rollback r(s); s.Skip(size); }
				break;
			}
			}
			VH_CHECK(s.GetBitPosition() == pos, "position", at + std::to_string(s.GetBitPosition()) + ", expected " + std::to_string(pos));
			VH_CHECK(s.AtEnd() == (pos >= bits) && s.GetRemainingBitsCount() == bits - pos && s.CanRead(size) == (pos + size <= bits), "remaining", at);
			if (pos % 8 == 0) { const auto rest = s.GetAvailableByteData(); VH_CHECK(Bytes(rest.begin(), rest.end()) == Bytes(model.begin() + pos / 8, model.end()), "available", at); }
		}
	}

	// a stream that grows its array
	template < typename S > void RunGrowing(vh::Rng& rng, size_t ops)
	{
		ByteArray mem; S s(mem); Bytes model; size_t pos = 0;
		for (size_t i = 0; i < ops; ++i)
		{
			const size_t size = Dispatch<S>::Known(AnySize(rng)), bits = model.size() * 8; const std::string at = std::string(S::Big ? "big" : "little") + " endian, " + std::to_string(size) + " bits at " + std::to_string(pos) + " of " + std::to_string(bits) + ": ";
			if (rng.Chance(1, 4) && pos > 0) { pos = rng.Below(bits + 1); s.Seek(pos); continue; }
			if (rng.Chance(1, 3) && pos + size <= bits)
			{
				const u64 got = Dispatch<S>::DoRead(s, size, (int)rng.Below(10)), want = RefRead(model, pos, size, S::Big); pos += size;
				VH_CHECK(got == want, "read", at + "gives " + N(got) + ", expected " + N(want)); continue;
			}
			const u64 v = AnyValue(rng); int how = (int)rng.Below(9); if (how == 5) how = 0;
			Dispatch<S>::DoWrite(s, size, v, how); const size_t need = (pos + size + 7) / 8; if (model.size() < need) model.resize(need);
			RefWrite(model, pos, size, S::Big, v); pos += size; const ByteArray now = s.GetData();
			VH_CHECK(Bytes(now.begin(), now.end()) == model, "write-growing", at + "value " + N(v) + " way " + std::to_string(how) + " gives " + Hex(Bytes(now.begin(), now.end())) + ", expected " + Hex(model));
			VH_CHECK(s.GetBitPosition() == pos, "position", at);
		}
		VH_CHECK(Bytes(mem.begin(), mem.end()) == model, "shared-array", Hex(Bytes(mem.begin(), mem.end())));
	}
}

VH_SCENARIO(streams)
{
	switch (rng.Below(4))
	{
	case 0: RunFixed<Stream<ByteData, true> >(rng, 40); break;
	case 1: RunFixed<Stream<ByteData, false> >(rng, 40); break;
	case 2: RunGrowing<Stream<ByteArray, true> >(rng, 40); break;
	default: RunGrowing<Stream<ByteArray, false> >(rng, 40); break;
	}
}

namespace {
	// composite items written one after another and read back, next to a model of the bytes
	template < typename S > void RunItems(vh::Rng& rng)
	{
		ByteArray mem; S s(mem); Bytes model; size_t pos = 0; struct Item { int Kind; std::string Text; std::vector<u64> Values; u64 V; size_t At; }; std::vector<Item> items;
		const auto put = [&](size_t size, u64 v) { const size_t need = (pos + size + 7) / 8; if (model.size() < need) model.resize(need); RefWrite(model, pos, size, S::Big, v); pos += size; };
		if (rng.Bool()) { const u64 lead = rng.Below(8); s.template Write<3>(lead); put(3, lead); items.push_back({ 9, "", { }, lead, 0 }); }
		for (size_t n = 1 + rng.Below(6); n; --n)
		{
			Item it; it.Kind = (int)rng.Below(6); it.At = pos; it.V = rng.Below(~0ull); for (size_t k = rng.Below(30); k; --k) it.Text += char(it.Kind == 1 ? 1 + rng.Below(255) : rng.Below(256)); for (size_t k = rng.Below(8); k; --k) it.Values.push_back(rng.Below(1 << 11));
			switch (it.Kind)
			{
			case 0: s.template WriteLengthPrefixedString<8>(it.Text); put(8, it.Text.size()); for (char c : it.Text) put(8, (u8)c); break;
			case 1: s.WriteNullTerminatedString(it.Text); for (char c : it.Text) put(8, (u8)c); put(8, 0); break;
			case 2: { const ByteArray a(it.Text.begin(), it.Text.end()); s.template WriteLengthPrefixedArray<16>(a); put(16, it.Text.size()); for (char c : it.Text) put(8, (u8)c); break; }
			case 3: if (rng.Bool()) s.template WriteArray<11>(it.Values.begin(), it.Values.size()); else if (rng.Bool()) s.template WriteArray<11>(it.Values.begin(), it.Values.end()); else s.template WriteArray<11>(it.Values); for (u64 v : it.Values) put(11, v); break;
			case 4: { typename S::template DeferredWriter<13> d(s); const size_t at = pos; pos += 13; s.template Write<7>(it.V); put(7, it.V); d.Write(it.V >> 7); RefWrite(model, at, 13, S::Big, it.V >> 7); break; }
			default: s.template Write<33>(it.V); put(33, it.V); break;
			}
			items.push_back(it);
		}
		VH_CHECK(s.GetBitPosition() == pos && Bytes(mem.begin(), mem.end()) == model, "items-written", Hex(Bytes(mem.begin(), mem.end())) + ", expected " + Hex(model) + " position " + std::to_string(s.GetBitPosition()));
		vh_distinct("item_streams", vh::HashStr(Hex(model)));
		BasicBitStream<ConstByteArray, S::Big> in((ConstByteArray(mem))); const size_t cut = rng.Chance(1, 4) ? rng.Below(mem.size() + 1) : mem.size(); BasicBitStream<ConstByteArray, S::Big> r(ConstByteArray(mem), 0, cut);
		for (const Item& it : items)
		{
			const std::string at = "item kind " + std::to_string(it.Kind) + " at " + std::to_string(it.At) + " of " + std::to_string(cut) + " bytes: ";
			bool refused = false, good = true; size_t end = it.At;
			try
			{
				switch (it.Kind)
				{
				case 9: end += 3; good = (u64)r.template Read<3>() == it.V; break;
				case 0: end += 8 + it.Text.size() * 8; good = r.template ReadLengthPrefixedString<8>() == it.Text; break;
				case 1: end += 8 + it.Text.size() * 8; good = r.ReadNullTerminatedString() == it.Text; break;
				case 2: { end += 16 + it.Text.size() * 8; const ByteArray a = r.template ReadLengthPrefixedArray<16>(); good = std::string(a.begin(), a.end()) == it.Text; break; }
				case 3: { end += it.Values.size() * 11; std::vector<u64> v(it.Values.size()); if (rng.Bool()) r.template ReadArray<11>(v.begin(), v.size()); else if (rng.Bool()) r.template ReadArray<11>(v.begin(), v.end()); else { std::vector<u64> w; r.template ReadArray<11>(std::back_inserter(w), it.Values.size()); v = w; } good = v == it.Values; break; }
				case 4: { end += 20; const u64 a = r.template Read<13>(), b = r.template Read<7>(); good = a == (it.V >> 7 & 0x1fff) && b == (it.V & 0x7f); break; }
				default: end += 33; good = (u64)r.template Read<33>() == (it.V & 0x1ffffffffull); break;
				}
			}
			catch (const std::exception&) { refused = true; }
			if (refused) { VH_CHECK(end > cut * 8, "item-refused", at); break; }
			VH_CHECK(end <= cut * 8, "item-past-the-end", at);
			VH_CHECK(good && r.GetBitPosition() == end, "item-read", at + Hex(model) + " position " + std::to_string(r.GetBitPosition()));
		}
	}
}

VH_SCENARIO(items)
{ if (rng.Bool()) RunItems<Stream<ByteArray, true> >(rng); else RunItems<Stream<ByteArray, false> >(rng); }
