// C10: in-memory byte streams, wrappers, ring buffers, paged buffers and byte views against flat reference buffers.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/BytesOwner.h>
#include <stingraykit/io/BufferedStream.h>
#include <stingraykit/io/ByteStreamWithOffset.h>
#include <stingraykit/io/ByteStreamWithOffsetAndSize.h>
#include <stingraykit/io/ChunkedMemoryByteStream.h>
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/io/MemoryCircularBuffer.h>
#include <stingraykit/io/PagedBuffer.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <algorithm>
#include <memory>
#include <sys/mman.h>

using namespace stingray;

namespace {
	typedef std::vector<u8> Bytes;

	std::string Hex(const Bytes& b) { std::ostringstream s; for (size_t i = 0; i < b.size() && i < 100; ++i) { char t[4]; snprintf(t, sizeof t, "%02x", b[i]); s << t; } return s.str(); }

	Bytes RandomBytes(vh::Rng& r, size_t n) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = (u8)r.Next(); return b; }

	size_t SomeSize(vh::Rng& r, size_t max)
	{
		switch (r.Below(4)) { case 0: return r.Below(std::min<size_t>(4, max + 1)); case 1: return max; default: return r.Below(max + 1); }
	}

	// heap block of the exact size, so that ASan sees every byte beyond it
	struct Exact
	{
		std::unique_ptr<u8[]> p; size_t n;
		explicit Exact(size_t n_) : p(new u8[n_ ? n_ : 1]), n(n_) { memset(p.get(), 0xA5, n_ ? n_ : 1); }
		explicit Exact(const Bytes& b) : p(new u8[b.size() ? b.size() : 1]), n(b.size()) { std::copy(b.begin(), b.end(), p.get()); }
		ByteData Data() { return ByteData(p.get(), n); }
		ConstByteData CData() const { return ConstByteData(p.get(), n); }
		Bytes Get() const { return Bytes(p.get(), p.get() + n); }
	};

	// like a file: seeking beyond the end is allowed, optionally short reads and writes
	struct FileLike : public virtual IByteStream
	{
		shared_ptr<Bytes> data; u64 pos; vh::Rng r; bool shortOps;
		FileLike(const shared_ptr<Bytes>& d, uint64_t seed, bool s) : data(d), pos(0), r(seed), shortOps(s) { }
		virtual u64 Read(ByteData d, const ICancellationToken&)
		{
			u64 n = pos >= data->size() ? 0 : std::min<u64>(d.size(), data->size() - pos);
			if (shortOps && n > 1 && r.Bool()) n = 1 + r.Below(n);
			std::copy(data->begin() + (pos < data->size() ? pos : 0), data->begin() + (pos < data->size() ? pos : 0) + n, d.data());
			pos += n;
			return n;
		}
		virtual u64 Write(ConstByteData d, const ICancellationToken&)
		{
			u64 n = d.size();
			if (shortOps && n > 1 && r.Bool()) n = 1 + r.Below(n);
			if (n == 0) return 0;
			if (pos + n > data->size()) data->resize(pos + n);
			std::copy(d.data(), d.data() + n, data->begin() + pos);
			pos += n;
			return n;
		}
		virtual void Seek(s64 offset, SeekMode mode)
		{
			s64 np = offset;
			switch (mode) { case SeekMode::Begin: break; case SeekMode::Current: np += pos; break; case SeekMode::End: np += data->size(); break; }
			if (np < 0) STINGRAYKIT_THROW(IndexOutOfRangeException());
			pos = np;
		}
		virtual u64 Tell() const { return pos; }
	};

	struct Layer { int kind; s64 begin, end; };   // kind: 0 base, 1 offset, 2 offset and size, 3 buffered; begin/end absolute (end -1: open)

	struct Stack
	{
		enum Base { GrowingArray, FixedData, ConstData, File, ShortFile };
		Base base; shared_ptr<Bytes> content; ByteArray array; std::unique_ptr<Exact> fixed;
		IByteStreamPtr top; std::vector<Layer> layers; s64 pos;

		s64 Size() const { return base == FixedData || base == ConstData ? (s64)fixed->n : base == GrowingArray ? (s64)array.size() : (s64)content->size(); }
		Bytes Content() const { return base == FixedData || base == ConstData ? fixed->Get() : base == GrowingArray ? Bytes(array.data(), array.data() + array.size()) : *content; }
		bool BaseSeekable(s64 p) const { return p >= 0 && (base >= File || p <= Size()); }
		s64 Begin() const { s64 b = 0; for (size_t i = 0; i < layers.size(); ++i) b = layers[i].begin; return b; }
		s64 Limit() const { s64 e = -1; for (size_t i = 0; i < layers.size(); ++i) if (layers[i].end >= 0 && (e < 0 || layers[i].end < e)) e = layers[i].end; return e; }
		bool Seekable(s64 p, size_t upTo) const
		{
			if (!BaseSeekable(p)) return false;
			for (size_t i = 0; i < upTo; ++i) { if (p < layers[i].begin) return false; if (layers[i].kind == 2 && p > layers[i].end) return false; }
			return true;
		}
		// absolute position a seek relative to the end refers to, or -1 when it cannot be determined
		s64 End(size_t upTo) const
		{
			if (upTo == 0) return Size();
			const Layer& l = layers[upTo - 1];
			switch (l.kind)
			{
			case 2: return l.end;
			case 3: return End(upTo - 1);
			case 1: { const s64 e = End(upTo - 1); return e >= 0 && Seekable(e, upTo - 1) ? e : -1; }
			default: return -1;
			}
		}
	};

	void CheckStack(const Stack& s, const Bytes& model, const vh::Trace& t)
	{ VH_CHECK(s.Content() == model, "stream:content", Hex(s.Content()) << " != " << Hex(model) << "; " << t.Str()); }
}

VH_SCENARIO(stream_stack)
{
	Stack s;
	vh::Trace t;
	const int kinds = (int)rng.Below(10);
	s.base = kinds < 3 ? Stack::GrowingArray : kinds < 5 ? Stack::FixedData : kinds < 6 ? Stack::ConstData : kinds < 9 ? Stack::File : Stack::ShortFile;
	const size_t size = SomeSize(rng, rng.Chance(1, 4) ? 300 : 40);
	const Bytes init = RandomBytes(rng, size);
	Bytes model = init;
	switch (s.base)
	{
	case Stack::GrowingArray: s.array = ByteArray(init); s.top = CreateMemoryByteStream(s.array); break;
	case Stack::FixedData: s.fixed.reset(new Exact(init)); s.top = make_shared_ptr<MemoryByteStream<ByteData> >(s.fixed->Data()); break;
	case Stack::ConstData: s.fixed.reset(new Exact(init)); s.top = CreateMemoryByteStream(s.fixed->CData()); break;
	default: s.content = make_shared_ptr<Bytes>(init); s.top = make_shared_ptr<FileLike>(s.content, rng.Next(), s.base == Stack::ShortFile); break;
	}
	t << "base " << (int)s.base << " size " << size;
	const size_t depth = rng.Below(4);
	std::vector<IByteStreamPtr> keep(1, s.top);
	s64 abs = 0; bool aligned = false;
	for (size_t i = 0; i < depth; ++i)
	{
		const int k = 1 + (int)rng.Below(3);
		Layer l = { k, abs, -1 };
		if (k == 1)
		{
			const s64 o = (s64)SomeSize(rng, 12);
			l.begin = abs + o;
			if (!s.Seekable(l.begin, s.layers.size())) continue;
			s.top = make_shared_ptr<ByteStreamWithOffset>(s.top, o);
			t << " offset(" << o << ")";
		}
		else if (k == 2)
		{
			const s64 o = (s64)SomeSize(rng, 12); const s64 n = 1 + (s64)SomeSize(rng, 60);
			l.begin = abs + o; l.end = l.begin + n;
			if (!s.Seekable(l.begin, s.layers.size())) continue;
			s.top = make_shared_ptr<ByteStreamWithOffsetAndSize>(s.top, o, n);
			t << " window(" << o << "," << n << ")";
		}
		else
		{
			// a buffered stream starts at the beginning of what it wraps
			s.top->Seek(0);
			const size_t align = s.base == Stack::ShortFile ? 1 : (rng.Chance(1, 2) ? 1 : 1 + rng.Below(8));
			const size_t buf = align * (1 + rng.Below(6));
			s.top = make_shared_ptr<BufferedStream>(s.top, buf, align);
			aligned = aligned || align > 1;
			t << " buffered(" << buf << "," << align << ")";
		}
		s.layers.push_back(l);
		abs = l.begin;
		keep.push_back(s.top);
	}
	const s64 begin = s.Begin();
	s.pos = begin;
	if (rng.Bool()) s.top->Seek(0); else if (depth == 0 || s.layers.empty()) { }
	const DummyCancellationToken token;
	const size_t n = 4 + rng.Below(40);
	bool wrote = false, beyond = false;
	for (size_t i = 0; i < n && !vh_violated(); ++i)
	{
		const s64 limit = s.Limit();
		switch (rng.Below(10))
		{
		case 0: case 1: case 2: case 3:
			{
				const size_t want = SomeSize(rng, 30);
				t << " r" << want << "@" << s.pos;
				Exact buf(want);
				s64 avail = std::min<s64>(s.Size(), limit < 0 ? s.Size() : limit) - s.pos;
				if (avail < 0) avail = 0;
				const size_t expect = std::min<size_t>(want, (size_t)avail);
				u64 got = 0;
				try { got = s.top->Read(buf.Data(), token); }
				catch (const std::exception& ex) { VH_CHECK_R(false, "stream:read-throws", ex.what() << "; " << t.Str()); }
				if (s.base == Stack::ShortFile)
					VH_CHECK_R(got <= expect && (got > 0 || expect == 0), "stream:read-count", got << " of " << expect << "; " << t.Str());
				else
					VH_CHECK_R(got == expect, "stream:read-count", got << " instead of " << expect << "; " << t.Str());
				VH_CHECK(std::equal(buf.p.get(), buf.p.get() + got, model.begin() + std::min<s64>(s.pos, model.size())), "stream:read-bytes", Hex(buf.Get()) << "; " << t.Str());
				for (size_t k = got; k < want; ++k) VH_CHECK(buf.p[k] == 0xA5, "stream:read-touches-rest", t.Str());
				s.pos += got;
				break;
			}
		case 4: case 5: case 6:
			{
				if (beyond) break;
				const size_t want = SomeSize(rng, 20);
				t << " w" << want << "@" << s.pos;
				const Bytes d = RandomBytes(rng, want);
				Exact buf(d);
				bool fail = s.base == Stack::ConstData;
				for (size_t k = 0; k < s.layers.size(); ++k) if (s.layers[k].kind == 2 && s.layers[k].end == s.pos) fail = true;
				size_t expect = limit < 0 ? want : std::min<size_t>(want, (size_t)(limit - s.pos));
				if (s.base == Stack::FixedData) expect = std::min<size_t>(expect, (size_t)(s.Size() - s.pos));
				u64 got = 0; bool threw = false;
				try { got = s.top->Write(buf.CData(), token); } catch (const std::exception& ex) { threw = true; }
				VH_CHECK_R(threw == fail, "stream:write-failure", "threw: " << threw << "; " << t.Str());
				if (!threw)
				{
					if (s.base == Stack::ShortFile)
						VH_CHECK_R(got <= expect && (got > 0 || expect == 0), "stream:write-count", got << " of " << expect << "; " << t.Str());
					else
						VH_CHECK_R(got == expect, "stream:write-count", got << " instead of " << expect << "; " << t.Str());
					if (got && s.pos + got > model.size()) model.resize(s.pos + got);
					std::copy(d.begin(), d.begin() + got, model.begin() + std::min<s64>(s.pos, model.size()));
					s.pos += got;
					wrote = wrote || got;
				}
				CheckStack(s, model, t);
				break;
			}
		default:
			{
				const int m = (int)rng.Below(3);
				s64 off; s64 target;
				const s64 span = s.Size() + 8;
				if (m == 0) { off = rng.Range(-2, span); target = begin + off; }
				else if (m == 1) { off = rng.Range(-12, 12); target = s.pos + off; }
				else { off = rng.Range(-span, 4); const s64 e = s.End(s.layers.size()); if (e < 0 && aligned) break; target = e < 0 ? -1000000 : e + off; }
				t << " s" << "bce"[m] << off << "@" << s.pos;
				const bool ok = s.Seekable(target, s.layers.size());
				bool threw = false;
				try { s.top->Seek(off, m == 0 ? SeekMode::Begin : m == 1 ? SeekMode::Current : SeekMode::End); } catch (const std::exception&) { threw = true; }
				// an aligned buffered stream only moves its device to the aligned position, which may exist although the target does not
				if (!ok && !threw && aligned && target >= begin && (beyond || target > s.Size() || limit >= 0)) { beyond = true; s.pos = target; break; }
				if (ok) beyond = false;
				if (!(beyond && threw))
				VH_CHECK_R(threw == !ok, "stream:seek", "threw: " << threw << ", target " << target << " size " << s.Size() << "; " << t.Str());
				if (ok) s.pos = target;
			}
		}
		u64 tell = 0;
		try { tell = s.top->Tell(); } catch (const std::exception& ex) { VH_CHECK_R(false, "stream:tell-throws", ex.what() << "; " << t.Str()); }
		VH_CHECK_R((s64)tell == s.pos - begin, "stream:tell", tell << " instead of " << s.pos - begin << "; " << t.Str());
	}
	CheckStack(s, model, t);
	vh_distinct("stack", vh::HashStr(t.Str()));
	if (wrote) vh_count("stacks written", 1);
	vh_sample(t.Str().c_str());
}

// several windows over one device, each with its own position
VH_SCENARIO(stream_windows)
{
	shared_ptr<Bytes> content = make_shared_ptr<Bytes>(RandomBytes(rng, 40 + rng.Below(60)));
	Bytes model = *content;
	IByteStreamPtr base = make_shared_ptr<FileLike>(content, rng.Next(), false);
	struct W { IByteStreamPtr s; s64 b, e, p; };
	std::vector<W> ws;
	vh::Trace t;
	const size_t n = 2 + rng.Below(3);
	for (size_t i = 0; i < n; ++i)
	{
		if (!ws.empty() && rng.Chance(1, 3))
		{
			const W o = ws[rng.Below(ws.size())];
			const s64 off = rng.Below(o.e - o.b); const s64 len = 1 + rng.Below(o.e - o.b - off);
			W w = { make_shared_ptr<ByteStreamWithOffsetAndSize>(o.s, off, len), o.b + off, o.b + off + len, o.b + off };
			// the nested window moves the position of the window it is built on
			for (size_t k = 0; k < ws.size(); ++k) if (ws[k].s == o.s) { ws.erase(ws.begin() + k); break; }
			ws.push_back(w);
		}
		else
		{
			const s64 off = rng.Below(model.size()); const s64 len = 1 + rng.Below(model.size() - off);
			W w = { make_shared_ptr<ByteStreamWithOffsetAndSize>(base, off, len), off, off + len, off };
			ws.push_back(w);
		}
		t << " [" << ws.back().b << "," << ws.back().e << ")";
	}
	const DummyCancellationToken token;
	for (size_t i = 0; i < 40 && !vh_violated(); ++i)
	{
		W& w = ws[rng.Below(ws.size())];
		const size_t want = SomeSize(rng, 20);
		Exact buf(RandomBytes(rng, want));
		const size_t expect = std::min<size_t>(want, w.e - w.p);
		switch (rng.Below(3))
		{
		case 0:
			{
				t << " r" << want << "@" << w.p;
				const u64 got = w.s->Read(buf.Data(), token);
				VH_CHECK_R(got == expect, "windows:read-count", got << " instead of " << expect << "; " << t.Str());
				VH_CHECK(std::equal(buf.p.get(), buf.p.get() + got, model.begin() + w.p), "windows:read-bytes", t.Str());
				w.p += got;
				break;
			}
		case 1:
			{
				t << " w" << want << "@" << w.p;
				bool threw = false; u64 got = 0;
				try { got = w.s->Write(buf.CData(), token); } catch (const std::exception&) { threw = true; }
				VH_CHECK_R(threw == (w.p == w.e), "windows:write-failure", t.Str());
				if (threw) break;
				VH_CHECK_R(got == expect, "windows:write-count", got << " instead of " << expect << "; " << t.Str());
				std::copy(buf.p.get(), buf.p.get() + got, model.begin() + w.p);
				w.p += got;
				VH_CHECK(*content == model, "windows:content", t.Str());
				break;
			}
		default:
			{
				const s64 p = rng.Range(w.b - 2, w.e + 2); const int m = (int)rng.Below(3);
				t << " s" << p;
				bool threw = false;
				try { w.s->Seek(m == 0 ? p - w.b : m == 1 ? p - w.p : p - w.e, m == 0 ? SeekMode::Begin : m == 1 ? SeekMode::Current : SeekMode::End); } catch (const std::exception&) { threw = true; }
				VH_CHECK_R(threw == (p < w.b || p > w.e), "windows:seek", t.Str());
				if (!threw) w.p = p;
			}
		}
		for (size_t k = 0; k < ws.size(); ++k)
			VH_CHECK_R((s64)ws[k].s->Tell() == ws[k].p - ws[k].b, "windows:tell", t.Str());
	}
	vh_distinct("windows", vh::HashStr(t.Str()));
}

VH_SCENARIO(stream_chunked)
{
	typedef std::vector<ByteArray> Chunks;
	shared_ptr<Chunks> chunks = make_shared_ptr<Chunks>();
	Bytes model;
	vh::Trace t;
	const size_t nc = rng.Below(5);
	for (size_t i = 0; i < nc; ++i) { const Bytes b = RandomBytes(rng, 1 + rng.Below(8)); chunks->push_back(ByteArray(b)); model.insert(model.end(), b.begin(), b.end()); t << " [" << b.size() << "]"; }
	ChunkedMemoryByteStream<ByteArray> s(chunks);
	size_t pos = 0;
	for (size_t i = 0; i < 25 && !vh_violated(); ++i)
	{
		switch (rng.Below(3))
		{
		case 0:
			{
				const size_t want = 1 + rng.Below(20);
				t << " r" << want << "@" << pos;
				Exact buf(want);
				const size_t expect = std::min(want, model.size() - pos);
				u64 got = 0; bool threw = false;
				try { got = s.Read(buf.Data()); } catch (const LogicException&) { threw = true; }
				VH_CHECK_R(threw == (expect == 0), "chunked:read-failure", threw << "; " << t.Str());
				if (threw) break;
				VH_CHECK_R(got == expect, "chunked:read-count", got << " instead of " << expect << "; " << t.Str());
				VH_CHECK(std::equal(buf.p.get(), buf.p.get() + got, model.begin() + pos), "chunked:read-bytes", t.Str());
				pos += got;
				break;
			}
		case 1:
			{
				const size_t want = rng.Below(16);
				t << " w" << want << "@" << pos;
				Exact buf(RandomBytes(rng, want));
				u64 got = 0; bool threw = false;
				try { got = s.Write(buf.CData()); } catch (const std::exception&) { threw = true; }
				VH_CHECK_R(threw == (want == 0), "chunked:write-failure", threw << "; " << t.Str());
				if (threw) break;
				VH_CHECK_R(got == want, "chunked:write-count", got << "; " << t.Str());
				if (pos + want > model.size()) model.resize(pos + want);
				std::copy(buf.p.get(), buf.p.get() + want, model.begin() + pos);
				pos += want;
				Bytes all;
				for (size_t k = 0; k < chunks->size(); ++k) all.insert(all.end(), (*chunks)[k].data(), (*chunks)[k].data() + (*chunks)[k].size());
				VH_CHECK_R(all == model, "chunked:content", Hex(all) << " != " << Hex(model) << "; " << t.Str());
				break;
			}
		default:
			{
				const s64 p = rng.Range(-1, model.size() + 1); const int m = (int)rng.Below(3);
				t << " s" << p;
				bool threw = false;
				try { s.Seek(m == 0 ? p : m == 1 ? p - (s64)pos : p - (s64)model.size(), m == 0 ? SeekMode::Begin : m == 1 ? SeekMode::Current : SeekMode::End); } catch (const std::exception&) { threw = true; }
				VH_CHECK_R(threw == (model.empty() || p < 0 || p > (s64)model.size()), "chunked:seek", threw << "; " << t.Str());
				if (!threw) pos = p;
			}
		}
		VH_CHECK_R(s.Tell() == pos, "chunked:tell", s.Tell() << " instead of " << pos << "; " << t.Str());
	}
	vh_distinct("chunked", vh::HashStr(t.Str()));
}

namespace {
	template < bool Discard_ >
	void Ring(vh::Rng& rng)
	{
		const size_t cap = 1 + rng.Below(rng.Chance(1, 3) ? 40 : 8);
		MemoryCircularBuffer<Discard_> ring(cap);
		Bytes model; CircularDataReserverPtr held; size_t locked = 0; std::vector<CircularDataReserverPtr> empties;
		vh::Trace t; t << "cap " << cap << (Discard_ ? " discarding" : "");
		u8 next = 0; size_t wraps = 0;
		for (size_t i = 0; i < 60 && !vh_violated(); ++i)
		{
			switch (rng.Below(9))
			{
			case 0: case 1: case 2: case 3:
				{
					const size_t n = rng.Chance(1, 10) ? rng.Below(cap * 3 + 1) : SomeSize(rng, cap);
					Bytes d(n); for (size_t k = 0; k < n; ++k) d[k] = ++next;
					Exact buf(d);
					t << " push" << n;
					const size_t free = cap - model.size();
					VH_CHECK(ring.CanPush(n) == (n <= free), "ring:can-push", t.Str());
					bool threw = false, full = false;
					try { ring.Push(buf.CData()); } catch (const BufferIsFullException&) { full = threw = true; } catch (const std::exception& ex) { threw = true; t << " threw " << ex.what(); }
					if (n <= free) VH_CHECK_R(!threw, "ring:push-refused", t.Str());
					else if (!Discard_) VH_CHECK_R(full, "ring:overflow-accepted", t.Str());
					else if (locked) VH_CHECK_R(threw, "ring:locked-data-discarded", t.Str());
					else VH_CHECK_R(!threw, "ring:push-refused", t.Str());
					if (!threw)
					{
						model.insert(model.end(), d.begin(), d.end());
						if (model.size() > cap) model.erase(model.begin(), model.end() - cap);
						wraps += n;
					}
					break;
				}
			case 4: case 5:
				{
					const size_t n = rng.Chance(1, 3) ? std::numeric_limits<size_t>::max() : SomeSize(rng, cap);
					t << " pop" << (n > 1000 ? std::string("*") : std::to_string(n));
					CircularDataReserverPtr r; bool threw = false;
					try { r = ring.Pop(n); } catch (const std::exception&) { threw = true; }
					VH_CHECK_R(threw == (locked != 0), "ring:pop-failure", threw << "; " << t.Str());
					if (threw) break;
					const ConstByteData d = r->GetData();
					VH_CHECK_R(d.size() <= n && d.size() <= model.size() && (d.size() > 0 || n == 0 || model.empty()), "ring:pop-size", d.size() << "; " << t.Str());
					VH_CHECK(std::equal(d.data(), d.data() + d.size(), model.begin()), "ring:pop-bytes", t.Str());
					if (d.empty()) { empties.push_back(r); t << "=0"; break; }
					held = r; locked = d.size();
					t << "=" << locked;
					break;
				}
			case 6:
				if (held)
				{
					t << " release";
					const ConstByteData d = held->GetData();
					VH_CHECK(std::equal(d.data(), d.data() + d.size(), model.begin()), "ring:locked-bytes-changed", t.Str());
					held.reset();
					model.erase(model.begin(), model.begin() + locked);
					locked = 0;
				}
				break;
			case 7:
				if (!empties.empty()) { t << " release0"; empties.erase(empties.begin() + rng.Below(empties.size())); }
				break;
			default:
				if (rng.Chance(1, 2))
				{ t << " clear"; ring.Clear(); model.resize(locked); }
			}
			VH_CHECK_R(ring.GetSize() == model.size(), "ring:size", ring.GetSize() << " instead of " << model.size() << "; " << t.Str());
			VH_CHECK(ring.GetFreeSize() == cap - model.size(), "ring:free-size", ring.GetFreeSize() << "; " << t.Str());
			VH_CHECK(ring.GetStorageSize() == cap, "ring:storage-size", t.Str());
			const shared_ptr<Bytes> all = ring.GetAllData();
			VH_CHECK_R(*all == model, "ring:content", Hex(*all) << " != " << Hex(model) << "; " << t.Str());
		}
		empties.clear();
		if (held) { held.reset(); model.erase(model.begin(), model.begin() + locked); }
		// draining yields everything in at most two pieces
		Bytes rest; int pieces = 0;
		while (ring.GetSize() && pieces < 4) { CircularDataReserverPtr r = ring.Pop(); rest.insert(rest.end(), r->GetData().data(), r->GetData().data() + r->GetData().size()); ++pieces; }
		VH_CHECK(rest == model && pieces <= 2, "ring:drain", pieces << " pieces " << Hex(rest) << " != " << Hex(model) << "; " << t.Str());
		vh_distinct("ring", vh::HashStr(t.Str()));
		vh_count("ring bytes", wraps);
	}
}

VH_SCENARIO(ring_model)
{ if (rng.Bool()) Ring<false>(rng); else Ring<true>(rng); }

VH_SCENARIO(stream_helpers)
{
	const size_t size = SomeSize(rng, 200);
	Bytes content = RandomBytes(rng, size);
	for (size_t i = 0; i < size; ++i) { const uint64_t k = rng.Below(8); if (k == 0) content[i] = '\n'; else if (k == 1) content[i] = '\r'; else if (k == 2) content[i] = 0; }
	shared_ptr<Bytes> data = make_shared_ptr<Bytes>(content);
	FileLike f(data, rng.Next(), true);
	const size_t pos = SomeSize(rng, size);
	f.pos = pos;
	switch (rng.Below(6))
	{
	case 0:
		{
			const size_t want = SomeSize(rng, 100); Exact buf(want);
			const size_t got = ReadAll(f, buf.Data());
			VH_CHECK(got == std::min(want, size - pos) && std::equal(buf.p.get(), buf.p.get() + got, content.begin() + pos), "helpers:read-all", got << " at " << pos << "/" << size);
			VH_CHECK(f.pos == pos + got, "helpers:position", "");
			break;
		}
	case 1:
		{
			const size_t want = SomeSize(rng, 100); Exact buf(want);
			bool threw = false;
			try { CheckedReadAll(f, buf.Data()); } catch (const InputOutputException&) { threw = true; }
			VH_CHECK(threw == (want > size - pos), "helpers:checked-read-all", want << " at " << pos << "/" << size);
			if (!threw) VH_CHECK(std::equal(buf.p.get(), buf.p.get() + want, content.begin() + pos), "helpers:read-all", "");
			break;
		}
	case 2:
		{
			const size_t initial = 1 + rng.Below(60);
			const ConstByteArray r = ReadToEnd(f, initial);
			VH_CHECK(Bytes(r.data(), r.data() + r.size()) == Bytes(content.begin() + pos, content.end()), "helpers:read-to-end", r.size() << " at " << pos << "/" << size << " initial " << initial);
			break;
		}
	case 3:
		{
			// all lines: '\n', '\r' and "\r\n" end a line, the last one may be unterminated
			size_t p = pos;
			for (int i = 0; i < 1000; ++i)
			{
				const optional<std::string> got = ReadLine(f);
				if (p == size) { VH_CHECK(!got, "helpers:line-after-end", *got); break; }
				std::string line; bool ended = false;
				while (p < size && !ended)
				{
					const u8 c = content[p++];
					if (c == '\n') ended = true;
					else if (c == '\r') { ended = true; if (p < size && content[p] == '\n') ++p; }
					else line += (char)c;
				}
				VH_CHECK_R(got && *got == line, "helpers:line", vh::Printable(got ? *got : "null") << " instead of " << vh::Printable(line));
				VH_CHECK_R(f.pos == p, "helpers:line-position", f.pos << " instead of " << p);
			}
			break;
		}
	case 4:
		{
			const Bytes d = RandomBytes(rng, SomeSize(rng, 100)); Exact buf(d);
			if (rng.Bool()) { const size_t n = WriteAll(f, buf.CData()); VH_CHECK(n == d.size(), "helpers:write-all", n << " of " << d.size()); }
			else CheckedWriteAll(f, buf.CData());
			if (content.size() < pos + d.size()) content.resize(pos + d.size());
			std::copy(d.begin(), d.end(), content.begin() + pos);
			VH_CHECK(*data == content && f.pos == pos + d.size(), "helpers:write-all-bytes", "");
			break;
		}
	default:
		{
			// bounded target: what fits is transferred, the checked form reports it
			if (size == 0 || pos == size) break;
			Exact target(content);
			MemoryByteStream<ByteData> m(target.Data());
			m.Seek(pos);
			const Bytes d = RandomBytes(rng, 1 + rng.Below(100)); Exact buf(d);
			const size_t fit = std::min(d.size(), size - pos);
			if (rng.Bool()) { const size_t n = WriteAll(m, buf.CData()); VH_CHECK(n == fit, "helpers:write-all", n << " of " << fit); }
			else
			{
				bool threw = false;
				try { CheckedWriteAll(m, buf.CData()); } catch (const InputOutputException&) { threw = true; }
				VH_CHECK(threw == (fit != d.size()), "helpers:checked-write-all", "");
			}
			std::copy(d.begin(), d.begin() + fit, content.begin() + pos);
			VH_CHECK(target.Get() == content, "helpers:write-all-bytes", "");
		}
	}
	vh_distinct("helpers", vh::HashBytes(content.data(), content.size(), pos));
}

// content beyond the range of 32-bit offsets
VH_SCENARIO(stream_large)
{
	const size_t size = (size_t)3 << 30;
	u8* p = (u8*)mmap(0, size, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == (u8*)MAP_FAILED) { vh_count("large map refused", 1); return; }
	{
		const ConstByteData data(p, size);
		MemoryByteStream<ConstByteData> m(data);
		const DummyCancellationToken token;
		u8 buf[16];
		for (int i = 0; i < 20; ++i)
		{
			const s64 at = rng.Chance(1, 3) ? (s64)(((u64)1 << 31) + rng.Range(-3, 3)) : (s64)rng.Below(size);
			bool threw = false;
			const bool fromEnd = rng.Bool();
			try { if (fromEnd) m.Seek(at - (s64)size, SeekMode::End); else m.Seek(at); } catch (const std::exception&) { threw = true; }
			VH_CHECK_R(!threw && m.Tell() == (u64)at, "large:seek", at << " refused");
			const u64 n = m.Read(ByteData(buf, sizeof buf), token);
			VH_CHECK(n == std::min<u64>(sizeof buf, size - at) && m.Tell() == at + n, "large:read", n << " at " << at);
		}
		const shared_ptr<MemoryByteStream<ConstByteData> > mp = make_shared_ptr<MemoryByteStream<ConstByteData> >(data);
		ByteStreamWithOffsetAndSize w(mp, (s64)1 << 30, (s64)3 << 29);
		w.Seek(-5, SeekMode::End);
		VH_CHECK(w.Tell() == ((u64)3 << 29) - 5 && w.Read(ByteData(buf, sizeof buf), token) == 5, "large:window", w.Tell());
		bool threw = false;
		try { m.Seek((s64)size + 1); } catch (const std::exception&) { threw = true; }
		VH_CHECK(threw, "large:seek-beyond", "");
	}
	munmap(p, size);
}

// views of byte arrays: shared storage, offsets and limits
VH_SCENARIO(byte_views)
{
	static const size_t NoLimit = ~(size_t)0;
	struct View { ByteArray a; std::shared_ptr<Bytes> st; size_t off, limit; size_t Size() const { return std::min(st->size() > off ? st->size() - off : 0, limit); } };
	std::vector<View> vs;
	vh::Trace t;
	for (int i = 0; i < 2; ++i)
	{
		const Bytes b = RandomBytes(rng, rng.Below(20));
		View v = { ByteArray(b), std::make_shared<Bytes>(b), 0, NoLimit };
		vs.push_back(v);
		t << " new" << b.size();
	}
	for (int i = 0; i < 40 && !vh_violated(); ++i)
	{
		const size_t vi = rng.Below(vs.size());
		const View v = vs[vi];
		switch (rng.Below(9))
		{
		case 0: case 1:
			{
				const size_t o = rng.Chance(1, 5) ? rng.Below(24) : rng.Below(v.Size() + 1);
				t << " v" << vi << "+" << o;
				View n = { ByteArray(), v.st, v.off + o, v.limit == NoLimit ? NoLimit : v.limit - o };
				const bool ok = o <= v.Size() || (v.limit == NoLimit && v.off + o <= v.st->size());
				bool threw = false;
				try { n.a = ByteArray(v.a, o); } catch (const IndexOutOfRangeException&) { threw = true; }
				VH_CHECK_R(threw == !ok, "views:offset-accepted", "view of size " << v.Size() << " offset " << o << (threw ? " refused" : " accepted") << "; " << t.Str());
				if (!threw) vs.push_back(n);
				break;
			}
		case 2: case 3:
			{
				const size_t o = rng.Below(v.Size() + 1);
				const int k = (int)rng.Below(6);
				const size_t l = k == 0 ? v.Size() - o + 1 + rng.Below(5) : k == 1 ? NoLimit - 1 - rng.Below(30) : rng.Below(v.Size() - o + 1);
				t << " v" << vi << "[" << o << "," << (l > 1000 ? -(long)(NoLimit - l) : (long)l) << "]";
				View n = { ByteArray(), v.st, v.off + o, l };
				bool threw = false;
				try { n.a = ByteArray(v.a, o, l); } catch (const IndexOutOfRangeException&) { threw = true; }
				// a limit beyond the storage is either refused or does not take effect
				if (l <= v.Size() - o) VH_CHECK_R(!threw, "views:window-refused", t.Str());
				if (!threw)
				{
					VH_CHECK_R(n.a.size() <= v.Size() - o, "views:window-escapes", n.a.size() << " of " << v.Size() << "; " << t.Str());
					if (l <= v.Size() - o) vs.push_back(n);
				}
				break;
			}
		case 4:
			if (v.limit == NoLimit)
			{
				const size_t n = rng.Below(30);
				t << " v" << vi << ".require" << n;
				ByteArray a(v.a); a.RequireSize(n);
				if (v.st->size() < v.off + n) v.st->resize(v.off + n);
			}
			break;
		case 5:
			if (v.limit == NoLimit)
			{
				const Bytes d = RandomBytes(rng, rng.Below(6));
				t << " v" << vi << ".append" << d.size();
				ByteArray a(v.a);
				if (rng.Bool()) a.append(d.begin(), d.end()); else a.append(d);
				v.st->insert(v.st->end(), d.begin(), d.end());
			}
			break;
		case 6:
			{
				const size_t idx = rng.Below(v.Size() + 2);
				bool threw = false;
				const u8 val = (u8)rng.Next();
				try { v.a[idx] = val; } catch (const IndexOutOfRangeException&) { threw = true; }
				VH_CHECK_R(threw == (idx >= v.Size()), "views:index", idx << " of " << v.Size() << "; " << t.Str());
				if (!threw) (*v.st)[v.off + idx] = val;
				break;
			}
		case 7:
			{
				// plain views
				const size_t sz = v.Size();
				if (sz == 0) break;
				const size_t o = rng.Below(sz + 3);
				const int k = (int)rng.Below(4);
				const size_t l = k == 0 ? NoLimit - rng.Below(20) : rng.Below(sz + 3);
				const bool ok = o <= sz && l <= sz - o;
				t << " data" << vi << "[" << o << "," << (l > 1000 ? -(long)(NoLimit - l) - 1 : (long)l) << "]";
				for (int form = 0; form < 3; ++form)
				{
					bool threw = false; size_t got = 0; bool same = true;
					try
					{
						ConstByteData d;
						if (form == 0) d = ConstByteData(v.a, o, l);
						else if (form == 1) d = ConstByteData(ConstByteData(v.a), o, l);
						else { const ConstBytesOwner ow(BytesOwner(v.a, Token()), o, l); d = ConstByteData(ow.data(), ow.size()); }
						got = d.size();
						if (got <= sz) same = std::equal(d.data(), d.data() + got, v.st->begin() + v.off + o);
					}
					catch (const IndexOutOfRangeException&) { threw = true; }
					VH_CHECK_R(threw == !ok, "views:data-range", "form " << form << " [" << o << ", +" << l << ") of " << sz << (threw ? " refused" : " accepted") << "; " << t.Str());
					if (!threw) VH_CHECK(got == l && same, "views:data", "form " << form << "; " << t.Str());
				}
				bool threw = false; size_t got = 0;
				try { got = rng.Bool() ? ConstByteData(v.a, o).size() : ConstByteData(ConstByteData(v.a), o).size(); } catch (const IndexOutOfRangeException&) { threw = true; }
				VH_CHECK_R(threw == (o > sz) && (threw || got == sz - o), "views:data-offset", o << " of " << sz << "; " << t.Str());
				break;
			}
		default:
			{
				// comparisons and copies
				const View& w = vs[rng.Below(vs.size())];
				const Bytes b1(v.st->begin() + std::min(v.off, v.st->size()), v.st->begin() + std::min(v.off, v.st->size()) + v.Size()), b2(w.st->begin() + std::min(w.off, w.st->size()), w.st->begin() + std::min(w.off, w.st->size()) + w.Size());
				VH_CHECK((v.a == w.a) == (b1 == b2) && (v.a < w.a) == (b1 < b2) && (v.a >= w.a) == (b1 >= b2), "views:compare", t.Str());
				if (!b1.empty() && !b2.empty())
					VH_CHECK((ConstByteData(v.a) == ConstByteData(w.a)) == (b1 == b2) && (ConstByteData(v.a) < ConstByteData(w.a)) == (b1 < b2), "views:compare-data", t.Str());
				const BytesOwner ow = BytesOwner::Create(ConstByteData(v.a));
				VH_CHECK(Bytes(ow.begin(), ow.end()) == b1 && (b1.empty() || ow.data() != v.a.data()), "views:owner-copy", t.Str());
				const size_t half = b1.size() / 2;
				const BytesOwner part(ow, half);
				VH_CHECK(Bytes(part.begin(), part.end()) == Bytes(b1.begin() + half, b1.end()), "views:owner-part", t.Str());
				Bytes rev(v.a.rbegin(), v.a.rend()); std::reverse(rev.begin(), rev.end());
				VH_CHECK(rev == b1, "views:reverse", t.Str());
			}
		}
		for (size_t k = 0; k < vs.size(); ++k)
		{
			const View& w = vs[k];
			const ConstByteArray c(w.a);
			VH_CHECK_R(w.a.size() == w.Size() && w.a.empty() == (w.Size() == 0) && c.size() == w.Size(), "views:size", w.a.size() << " instead of " << w.Size() << "; " << t.Str());
			VH_CHECK(Bytes(w.a.begin(), w.a.end()) == Bytes(w.st->begin() + std::min(w.off, w.st->size()), w.st->begin() + std::min(w.off, w.st->size()) + w.Size()), "views:content", t.Str());
		}
		if (vs.size() > 8) vs.erase(vs.begin() + rng.Below(vs.size()));
	}
	vh_distinct("views", vh::HashStr(t.Str()));
}

namespace {
	struct TestPaged : public PagedBuffer
	{
		struct Page : public virtual IPage
		{
			Bytes data; vs::Mutex m;
			virtual size_t Read(u64 offset, IDataConsumer& consumer, const ICancellationToken& token)
			{
				Bytes part;
				{
					vs::Lock l(m);
					VH_CHECK(offset < data.size(), "paged:read-offset", offset << " of " << data.size());
					if (offset >= data.size()) return 0;
					part.assign(data.begin() + offset, data.end());
				}
				Exact e(part);
				return consumer.Process(e.CData(), token);
			}
			virtual size_t Write(u64 offset, ConstByteData d, const ICancellationToken&)
			{
				vs::Lock l(m);
				VH_CHECK(offset == data.size(), "paged:write-offset", offset << " after " << data.size());
				data.insert(data.end(), d.data(), d.data() + d.size());
				return d.size();
			}
		};
		u64 pageSize;
		TestPaged(u64 pageSize_, size_t chunk) : PagedBuffer("test", pageSize_, chunk), pageSize(pageSize_) { }
		virtual IPagePtr CreatePage(size_t) { return make_shared_ptr<Page>(); }
	};

	struct PagedSink : public virtual IDataConsumer
	{
		std::function<size_t (ConstByteData)> f;
		virtual size_t Process(ConstByteData d, const ICancellationToken&) { return f(d); }
		virtual void EndOfData(const ICancellationToken&) { VH_CHECK(false, "paged:end", ""); }
	};

	u8 PagedVal(u64 i) { return (u8)(i * 7 + i / 251); }
}

// pushes, reads, pops and seeks of a paged buffer; pops and seeks may happen inside a read
VH_SCENARIO(paged_model)
{
	const size_t chunk = 1 + rng.Below(4);
	const u64 page = chunk * (1 + rng.Below(5));
	TestPaged b(page, chunk);
	vh::Trace t; t << "page " << page << " chunk " << chunk;
	u64 start = 0, cur = 0, end = 0;   // absolute offsets
	const DummyCancellationToken token;
	for (int i = 0; i < 40 && !vh_violated(); ++i)
	{
		switch (rng.Below(8))
		{
		case 0: case 1: case 2:
			{
				const size_t n = 1 + rng.Below(page * 3);
				t << " push" << n;
				Bytes d(n); for (size_t k = 0; k < n; ++k) d[k] = PagedVal(end + k);
				Exact e(d);
				b.Push(e.CData(), token);
				end += n;
				break;
			}
		case 3: case 4: case 5:
			{
				if (end - cur < chunk) break;
				PagedSink s;
				u64 expectCur = cur; bool called = false;
				s.f = [&](ConstByteData d) -> size_t
				{
					called = true;
					VH_CHECK(d.size() > 0 && d.size() <= end - cur, "paged:read-size", d.size() << "; " << t.Str());
					for (size_t k = 0; k < d.size(); ++k) if (d[k] != PagedVal(cur + k)) { VH_CHECK(false, "paged:read-bytes", "at " << cur + k << "; " << t.Str()); break; }
					const u64 readFrom = cur;
					if (rng.Chance(1, 4))
					{
						const u64 n = rng.Below((cur - start) / chunk + 1) * chunk;
						t << " pop" << n << "-inside";
						b.Pop(n); start += n;
					}
					else if (rng.Chance(1, 6))
					{	// moves the position away: it stays where it was put
						const u64 n = rng.Below((end - start) / chunk + 1) * chunk;
						const bool pop = rng.Bool();
						t << (pop ? " pop" : " seek") << n << "-inside";
						if (pop) { b.Pop(n); start += n; cur = std::max(cur, start); }
						else { b.Seek(n); cur = start + n; }
					}
					const size_t take = d.size() < chunk ? 0 : (rng.Chance(1, 4) ? 0 : (1 + rng.Below(d.size() / chunk)) * chunk);
					t << " read" << take << "/" << d.size();
					expectCur = cur == readFrom ? readFrom + take : cur;
					return take;
				};
				b.Read(s, token);
				VH_CHECK_R(called, "paged:not-read", t.Str());
				cur = expectCur;
				break;
			}
		case 6:
			{
				const u64 n = rng.Below((end - start) / chunk + 2) * chunk + (rng.Chance(1, 8) && chunk > 1 ? 1 : 0);
				t << " pop" << n;
				const bool ok = n <= end - start && n % chunk == 0;
				bool threw = false;
				try { b.Pop(n); } catch (const std::exception&) { threw = true; }
				VH_CHECK_R(threw == !ok, "paged:pop", t.Str());
				if (!threw) { start += n; cur = std::max(cur, start); }
				break;
			}
		default:
			{
				const u64 n = rng.Below((end - start) / chunk + 2) * chunk + (rng.Chance(1, 8) && chunk > 1 ? 1 : 0);
				t << " seek" << n;
				const bool ok = n <= end - start && n % chunk == 0;
				bool threw = false;
				try { b.Seek(n); } catch (const std::exception&) { threw = true; }
				VH_CHECK_R(threw == !ok, "paged:seek", t.Str());
				if (!threw) cur = start + n;
			}
		}
		VH_CHECK_R(b.GetStorageSize() == end - start, "paged:size", b.GetStorageSize() << " instead of " << end - start << "; " << t.Str());
	}
	vh_distinct("paged", vh::HashStr(t.Str()));
}

// two pushers' data must not mix inside one push; one reader; pops of what was read
VH_SCHED_SCENARIO(paged_race)
{
	const size_t chunk = 1 + rng.Below(3);
	const u64 page = chunk * (1 + rng.Below(4));
	TestPaged b(page, chunk);
	const size_t pushers = 1 + rng.Below(2); const size_t perPush = chunk * (1 + rng.Below(5)); const size_t pushes = 1 + rng.Below(3);
	const u64 total = pushers * perPush * pushes;
	const bool popper = rng.Bool();
	Bytes got; u64 read = 0, popped = 0; vs::Mutex m; bool overlap = false;
	{
		vs::Threads ts;
		for (size_t p = 0; p < pushers; ++p)
			ts.Add([&, p] {
				for (size_t i = 0; i < pushes; ++i)
				{ Exact e(Bytes(perPush, (u8)(p * 16 + i + 1))); b.Push(e.CData(), DummyCancellationToken()); }
			});
		const uint64_t seed = rng.Next();
		ts.Add([&, seed] {
			vh::Rng r(seed);
			PagedSink s;
			s.f = [&](ConstByteData d) -> size_t
			{
				const size_t take = d.size() < chunk ? 0 : (1 + r.Below(d.size() / chunk)) * chunk;
				got.insert(got.end(), d.data(), d.data() + take);
				vs::Pause(r);
				return take;
			};
			while (got.size() < total)
			{
				const size_t before = got.size();
				b.Read(s, DummyCancellationToken());
				vs::Lock l(m);
				read = got.size();
				(void)before;
			}
		});
		if (popper)
		{
			const uint64_t seed2 = rng.Next();
			ts.Add([&, seed2] {
				vh::Rng r(seed2);
				for (int i = 0; i < 6; ++i)
				{
					u64 n;
					{ vs::Lock l(m); n = (read - popped) / chunk; n = r.Below(n + 1) * chunk; popped += n; }
					b.Pop(n);
					vs::Pause(r);
				}
			});
		}
		ts.Join();
	}
	(void)overlap;
	VH_CHECK(got.size() == total, "paged:race-size", got.size() << " of " << total);
	VH_CHECK(b.GetStorageSize() == total - popped, "paged:race-storage", b.GetStorageSize());
	// every push arrives whole, those of one pusher in order
	std::vector<u8> last(4, 0);
	for (size_t i = 0; i + perPush <= got.size(); i += perPush)
	{
		for (size_t k = 1; k < perPush; ++k) VH_CHECK_R(got[i + k] == got[i], "paged:race-mixed", Hex(got));
		u8& l = last[got[i] >> 4];
		VH_CHECK_R((got[i] & 15) == l + 1, "paged:race-order", Hex(got));
		l = got[i] & 15;
	}
	vh_distinct("paged race", vh_log_hash() ^ vh::HashBytes(got.data(), got.size()) ^ vs_steps());
}
