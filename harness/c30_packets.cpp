// C30: packet buffers, packeters and aligners. Monitors: every packet received is compared with the packets sent (whole, once, in
// the order of its writer, with its metadata); the bytes that pass an aligner or a packeter are conserved and come in whole units.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/io/DataAligner.h>
#include <stingraykit/io/DataPacketer.h>
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <algorithm>
#include <atomic>
#include <deque>
#include <memory>

using namespace stingray;

namespace stingray {
	struct C30Meta { int id; std::string note; C30Meta(int i = -1) : id(i), note("packet number " + std::to_string(i) + ", with a note") { } };
}
namespace stingray { template < > NamedLogger PacketBuffer<C30Meta>::s_logger("PacketBuffer"); template < > NamedLogger PacketBuffer<EmptyType>::s_logger("PacketBuffer"); }

namespace {
	typedef std::vector<u8> Bytes;
	struct Quiet { LogLevel l; Quiet() : l(Logger::GetLogLevel()) { Logger::SetLogLevel(LogLevel::Error); } ~Quiet() { Logger::SetLogLevel(l); } };
	struct Refusal : std::runtime_error { Refusal() : std::runtime_error("refused") { } };

	u8 ByteOf(int id, size_t i) { return (u8)(id * 37 + i * 11 + (i >> 3)); }
	Bytes Content(int id, size_t size) { Bytes b(size ? size : 1); for (size_t i = 0; i < size; ++i) b[i] = ByteOf(id, i); return b; }
	// pieces have exactly their size, so that reading past their end is seen
	struct Exact { std::unique_ptr<u8[]> p; size_t n; Exact(const u8* d, size_t s) : p(new u8[s ? s : 1]), n(s) { memcpy(p.get(), d, s); } ConstByteData Data() const { return ConstByteData(p.get(), n); } };

	typedef Packet<C30Meta> P;
	typedef PacketBuffer<C30Meta> PB;

	struct Reader : public virtual IPacketConsumer<C30Meta>
	{
		vh::Rng r; int refuse, fail; std::vector<std::pair<int, size_t> > got; int eods = 0; std::vector<int> offered; bool inside = false;
		Reader(u64 seed, int rf, int fl) : r(seed), refuse(rf), fail(fl) { }
		bool Process(const P& p, const ICancellationToken&) override
		{
			VH_CHECK(!inside, "packet:consumer-reentered", "");
			inside = true; vs::Pause(r); inside = false;
			const C30Meta m = p.GetMetadata();
			VH_CHECK(m.note == C30Meta(m.id).note, "packet:metadata", m.id << " with " << m.note);
			size_t bad = 0; while (bad < p.GetSize() && p.GetData()[bad] == ByteOf(m.id, bad)) ++bad;
			VH_CHECK(bad == p.GetSize(), "packet:content", "packet " << m.id << " of " << p.GetSize() << " bytes differs at " << bad);
			offered.push_back(m.id);
			vs::Pause(r);
			if (refuse && r.Chance(1, refuse)) return false;
			if (fail && r.Chance(1, fail)) throw Refusal();
			got.push_back(std::make_pair(m.id, p.GetSize()));
			return true;
		}
		void EndOfData() override { ++eods; }
	};
}

// one thread: the buffer against a queue
VH_SCENARIO(packet_history)
{
	Quiet q;
	const size_t cap = 1 + rng.Below(rng.Bool() ? 12 : 60);
	const bool discard = rng.Chance(1, 4);
	PB buf(discard, cap);
	Reader rd(rng.Next(), rng.Chance(1, 3) ? 4 : 0, rng.Chance(1, 4) ? 5 : 0);
	std::deque<std::pair<int, size_t> > model; size_t seen = 0; bool eod = false; int id = 0; size_t stored = 0, dropped = 0;
	CancellationToken gone; gone.Cancel();
	vh::Trace tr; tr << "cap " << (int)cap << (discard ? " discards" : "");
	const int n = (int)rng.Range(5, 60);
	const size_t typical = 1 + rng.Below(cap);
	for (int i = 0; i < n && !vh_violated(); ++i)
		switch (rng.Below(10))
		{
		case 0: case 1: case 2: case 3:
			{
				const size_t size = rng.Chance(1, 6) ? rng.Below(cap + 3) : rng.Chance(1, 5) ? cap : rng.Below(typical + 1);
				const Bytes c = Content(id, size);
				const Exact e(c.data(), size);
				const size_t held = buf.GetDataSize();
				bool ok = false, thrown = false;
				try { ok = buf.Process(P(e.Data(), C30Meta(id)), gone); } catch (const std::exception&) { thrown = true; }
				tr << " write(" << id << ":" << (int)size << ")" << (thrown ? "!" : ok ? "" : "-");
				VH_CHECK(thrown == (size > cap), "packet:too-big", tr.Str());
				if (thrown) break;
				VH_CHECK(ok || !discard, "packet:discard", "a discarding buffer asked to wait: " << tr.Str());
				const bool in = ok && (!discard || buf.GetDataSize() != held || (size == 0 && held <= cap));
				if (model.empty() || held + 2 * size <= cap)
					VH_CHECK(in, "packet:has-room", "a packet of " << size << " bytes was " << (ok ? "dropped" : "not taken") << " by a buffer of " << cap << " which holds " << (model.empty() ? "no packet: " : "few bytes: ") << tr.Str());
				if (in) { model.push_back(std::make_pair(id, size)); stored += size; if (eod) vh_count("writes_after_end", 1); }
				else ++dropped;
				++id;
			}
			break;
		case 4: case 5: case 6: case 7:
			{
				const size_t off = rd.offered.size(), got = rd.got.size(); const int eods = rd.eods;
				bool thrown = false;
				try { if (rng.Bool()) buf.Read(rd, gone); else { TimedCancellationToken t{TimeDuration()}; buf.Read(rd, t); } } catch (const Refusal&) { thrown = true; }
				tr << " read" << (thrown ? "!" : rd.got.size() > got ? "" : "-");
				if (model.empty())
				{
					VH_CHECK(rd.offered.size() == off, "packet:from-nothing", tr.Str());
					VH_CHECK(rd.eods == eods + (eod ? 1 : 0), "packet:end", rd.eods - eods << " ends: " << tr.Str());
				}
				else
				{
					VH_CHECK(rd.eods == eods, "packet:end-before-data", tr.Str());
					VH_CHECK(rd.offered.size() == off + 1 && rd.offered.back() == model.front().first, "packet:next", "expected packet " << model.front().first << ": " << tr.Str());
					if (rd.got.size() > got)
					{
						VH_CHECK(rd.got.back() == model.front(), "packet:size", rd.got.back().second << " instead of " << model.front().second << ": " << tr.Str());
						stored -= model.front().second; model.pop_front(); ++seen;
					}
				}
			}
			break;
		case 8: if (rng.Chance(1, 3)) { buf.EndOfData(); eod = true; tr << " end"; } break;
		default: if (rng.Chance(1, 4)) { buf.Clear(); model.clear(); stored = 0; eod = false; tr << " clear"; VH_CHECK(buf.GetDataSize() == 0, "packet:cleared", buf.GetDataSize()); } break;
		}
	VH_CHECK(buf.GetStorageSize() == cap && buf.GetDataSize() + buf.GetFreeSize() == cap && buf.GetDataSize() >= stored, "packet:sizes", buf.GetDataSize() << " + " << buf.GetFreeSize() << " of " << buf.GetStorageSize() << ", stored " << stored << ": " << tr.Str());
	if (vh_violated()) return;
	rd.refuse = rd.fail = 0;
	while (!model.empty()) { const size_t got = rd.got.size(); buf.Read(rd, DummyCancellationToken()); VH_CHECK(rd.got.size() == got + 1 && rd.got.back() == model.front(), "packet:drain", "expected packet " << model.front().first << ": " << tr.Str()); if (vh_violated()) return; model.pop_front(); ++seen; }
	vh_distinct("histories", vh::HashStr(tr.Str())); vh_count("packets_read", seen); vh_count("packets_dropped", dropped);
}

// writers and a reader
namespace {
	void PacketThreads(vh::Rng& rng)
	{
		Quiet q;
		const size_t cap = 1 + rng.Below(rng.Bool() ? 8 : 24);
		const bool discard = rng.Chance(1, 5), cancels = rng.Chance(1, 3), clears = !cancels && rng.Chance(1, 6), stops = rng.Chance(1, 5);
		const int nw = (int)rng.Range(1, 3), per = (int)rng.Range(1, 6);
		PB buf(discard, cap);
		Reader rd(rng.Next(), rng.Chance(1, 3) ? 4 : 0, rng.Chance(1, 5) ? 6 : 0);
		std::vector<std::vector<std::pair<int, size_t> > > sent(nw);
		std::vector<CancellationToken> dummy(0);
		std::unique_ptr<CancellationToken[]> tokens(new CancellationToken[nw + 1]);
		std::vector<vh::Rng> rngs; for (int i = 0; i < nw + 3; ++i) rngs.push_back(vh::Rng(rng.Next()));
		int cleared = 0;
		if (vs_controlled() && rng.Chance(1, 3)) vs_spurious(4);
		{
			vs::Threads wr, th;
			for (int w = 0; w < nw; ++w)
				wr.Add([&, w]()
				{
					vh::Rng& g = rngs[w];
					for (int i = 0; i < per; ++i)
					{
						const int id = w * 100 + i; const size_t size = g.Chance(1, 4) ? cap : g.Below(cap + 1);
						const Bytes c = Content(id, size); const Exact e(c.data(), size);
						vs::Pause(g);
						if (g.Bool() ? ConsumeAll(buf, P(e.Data(), C30Meta(id)), tokens[w]) : PacketConsumeAll<C30Meta>(buf)(P(e.Data(), C30Meta(id)), tokens[w])) sent[w].push_back(std::make_pair(id, size));
						else VH_CHECK(tokens[w].IsCancelled(), "packet:gave-up", "a writer that was not cancelled");
					}
				});
			th.Add([&]()
			{
				vh::Rng& g = rngs[nw];
				int left = clears ? 2 : 0;
				while (rd.eods == 0 && tokens[nw])
				{
					try { buf.Read(rd, tokens[nw]); } catch (const Refusal&) { }
					if (left && g.Chance(1, 6)) { buf.Clear(); --left; ++cleared; }
					vs::Pause(g);
				}
				if (clears) while (rd.eods == 0) buf.Read(rd, DummyCancellationToken());
			});
			if (cancels) th.Add([&]() { vs::Pause(rngs[nw + 1]); vs::Pause(rngs[nw + 1]); tokens[rngs[nw + 1].Below(nw)].Cancel(); });
			vs::Thread* sizes = new vs::Thread([&]() { for (int i = 0; i < 3; ++i) { const size_t d = buf.GetDataSize(), f = buf.GetFreeSize(); VH_CHECK(d <= cap && f <= cap && buf.GetStorageSize() == cap, "packet:sizes", d << " " << f); vs::Pause(rngs[nw + 2]); } });
			wr.Join();
			if (stops && !clears) { tokens[nw].Cancel(); th.Join(); rd.refuse = rd.fail = 0; }
			if (clears) { do { buf.EndOfData(); vs_advance_ns(1000000); vs_yield(); } while (rd.eods == 0); }
			else buf.EndOfData();
			th.Join();
			delete sizes;
			while (rd.eods == 0) { try { buf.Read(rd, DummyCancellationToken()); } catch (const Refusal&) { } }
		}
		vs_spurious(0);
		VH_CHECK(rd.eods == 1, "packet:ends", rd.eods);
		for (int w = 0; w < nw; ++w)
		{
			std::vector<std::pair<int, size_t> > got; for (auto& p : rd.got) if (p.first / 100 == w) got.push_back(p);
			std::ostringstream s; for (auto& p : sent[w]) s << " " << p.first << ":" << p.second; s << " received"; for (auto& p : got) s << " " << p.first << ":" << p.second;
			if (!discard && !cleared) VH_CHECK(got == sent[w], "packet:delivery", "sent" << s.str());
			else
			{
				size_t k = 0; for (size_t i = 0; i < sent[w].size() && k < got.size(); ++i) if (sent[w][i] == got[k]) ++k;
				VH_CHECK(k == got.size(), "packet:delivery", "not a part in order of what was sent:" << s.str());
			}
		}
		if (!rd.got.empty() || (discard || cleared || cancels)) vh_count("packets_passed", rd.got.size());
	}
}
VH_SCHED_SCENARIO(packet_threads) { PacketThreads(rng); }
VH_FREE_SCENARIO(free_packets) { vs_noise(30, 20); PacketThreads(rng); vs_noise(0, 0); }

// ---------------------------------------------------------------- aligners and packeters
namespace {
	u8 StreamByte(size_t i) { return (u8)(i * 7 + (i >> 4) * 3 + 1); }

	// gives the bytes of a stream in pieces, and gives again what was not taken
	struct Source : public virtual IDataSource
	{
		vh::Rng r; size_t total, pos = 0, piece; size_t offered = 0; bool again = true; int unit;
		Source(u64 seed, size_t t, size_t p, int u = 1) : r(seed), total(t), piece(p), unit(u) { }
		void Read(IDataConsumer& c, const ICancellationToken& token) override
		{
			if (pos == total) { c.EndOfData(token); return; }
			size_t n = std::min(total - pos, (1 + r.Below(piece)) * unit);
			Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = StreamByte(pos + i);
			const Exact e(b.data(), n);
			const size_t took = c.Process(e.Data(), token);
			VH_CHECK(took <= n, "stream:overtaken", took << " of " << n);
			pos += std::min(took, n);
		}
	};

	struct ByteSink : public virtual IDataConsumer
	{
		vh::Rng r; size_t unit; int partial, cancelAt, fail; CancellationToken* token = 0; Bytes got; int eods = 0, calls = 0; bool started = false;
		ByteSink(u64 seed, size_t u, int p, int c, int f) : r(seed), unit(u), partial(p), cancelAt(c), fail(f) { }
		size_t Process(ConstByteData data, const ICancellationToken&) override
		{
			++calls;
			VH_CHECK(eods == 0, "stream:data-after-end", "");
			if (partial == 0) VH_CHECK(data.size() > 0 && data.size() % unit == 0, "aligner:alignment", data.size() << " bytes offered with alignment " << unit);
			for (size_t i = 0; i < data.size(); ++i) if (data[i] != StreamByte(got.size() + i)) { vh_violation("stream:content", ("offered byte " + std::to_string(got.size() + i) + " differs").c_str()); break; }
			if (calls == cancelAt && token) token->Cancel();
			if (fail && r.Chance(1, fail)) throw Refusal();
			size_t n = partial == 2 ? r.Below(data.size() + 1) : data.size();
			if (partial == 1 && r.Chance(1, 3)) n = 0;
			got.insert(got.end(), data.begin(), data.begin() + n);
			return n;
		}
		void EndOfData(const ICancellationToken&) override { ++eods; }
	};

	struct PacketSink : public virtual IPacketConsumer<EmptyType>
	{
		vh::Rng r; optional<size_t> size; int refuse; Bytes got; std::vector<size_t> sizes; int eods = 0;
		PacketSink(u64 seed, optional<size_t> s, int rf) : r(seed), size(s), refuse(rf) { }
		bool Process(const Packet<EmptyType>& p, const ICancellationToken&) override
		{
			if (size) VH_CHECK(p.GetSize() == *size, "packeter:size", p.GetSize() << " instead of " << *size);
			if (refuse && r.Chance(1, refuse)) return false;
			const ConstByteData d = p.GetData();
			for (size_t i = 0; i < d.size(); ++i) if (d[i] != StreamByte(got.size() + i)) { vh_violation("packeter:content", ("byte " + std::to_string(got.size() + i) + " differs").c_str()); break; }
			got.insert(got.end(), d.begin(), d.end()); sizes.push_back(p.GetSize());
			return true;
		}
		void EndOfData() override { ++eods; }
	};

	size_t Limit(size_t a) { return a * 2 + 60; }
}

VH_SCENARIO(aligners)
{
	Quiet q;
	const size_t unit = 1 + rng.Below(rng.Bool() ? 4 : 20), total = rng.Below(200);
	shared_ptr<Source> src = make_shared_ptr<Source>(rng.Next(), total, 1 + rng.Below(rng.Bool() ? 3 : 3 * unit + 4));
	DataAligner al(src, unit);
	ByteSink sink(rng.Next(), unit, (int)rng.Below(3), 0, rng.Chance(1, 5) ? 6 : 0);
	if (sink.fail) sink.partial = sink.partial == 2 ? 1 : sink.partial;   // a consumer that fails has taken nothing of what it was offered before
	const bool failing = sink.fail && sink.partial != 0; if (failing) sink.partial = 0;
	std::ostringstream ctx; ctx << "unit " << unit << " total " << total << " partial " << sink.partial << " fails " << sink.fail;
	int steps = 0;
	while (sink.eods == 0 && ++steps < 5000 && !vh_violated())
	{
		CancellationToken token; sink.token = &token; sink.cancelAt = rng.Chance(1, 4) ? sink.calls + 1 + (int)rng.Below(2) : 0;
		if (rng.Chance(1, 12)) token.Cancel();
		const size_t before = sink.got.size(); const int calls = sink.calls;
		try { al.Read(sink, token); }
		catch (const Refusal&) { if (sink.calls > calls + 1 && sink.got.size() > before) return; }   // taken and failed in one go: what was taken is not known to the source
		VH_CHECK(sink.got.size() <= src->pos + unit, "aligner:ahead", ctx.str());
	}
	const size_t whole = total / unit * unit;
	VH_CHECK(sink.eods == 1, "aligner:end", "no end after " << steps << " reads, " << sink.got.size() << " bytes of " << src->pos << ", " << ctx.str());
	VH_CHECK(sink.got.size() + unit > total && sink.got.size() <= total, "aligner:conservation", sink.got.size() << " bytes of " << total << ", " << ctx.str());
	if (sink.partial == 0) VH_CHECK(sink.got.size() == whole, "aligner:tail", sink.got.size() << " bytes of " << total << ", " << ctx.str());
	vh_distinct("aligned", vh::HashStr(ctx.str())); vh_count("aligned_bytes", sink.got.size());
}

VH_SCENARIO(packeters)
{
	Quiet q;
	const size_t unit = 1 + rng.Below(12), total = rng.Below(150);
	const int mode = (int)rng.Below(4);
	std::ostringstream ctx; ctx << "mode " << mode << " unit " << unit << " total " << total;
	if (mode == 0)
	{
		// pieces of any size → aligner → packets of one size
		shared_ptr<Source> src = make_shared_ptr<Source>(rng.Next(), total, 1 + rng.Below(3 * unit + 2));
		shared_ptr<DataAligner> al = make_shared_ptr<DataAligner>(src, unit);
		DataPacketer pk(al, unit);
		PacketSink sink(rng.Next(), unit, rng.Chance(1, 3) ? 3 : 0);
		for (int i = 0; i < 3000 && sink.eods == 0 && !vh_violated(); ++i) pk.Read(sink, DummyCancellationToken());
		VH_CHECK(sink.eods == 1 && sink.got.size() == total / unit * unit, "packeter:conservation", sink.got.size() << " bytes, " << sink.eods << " ends, " << ctx.str());
	}
	else if (mode == 1)
	{
		// each piece a packet, or whole units
		const bool fixed = rng.Bool();
		Source src(rng.Next(), fixed ? total / unit * unit : total, 1 + rng.Below(4), fixed ? (int)unit : 1);
		PacketSink sink(rng.Next(), fixed ? optional<size_t>(unit) : null, rng.Chance(1, 3) ? 3 : 0);
		DataPacketer pk(src, fixed ? optional<size_t>(unit) : null);
		for (int i = 0; i < 3000 && sink.eods == 0 && !vh_violated(); ++i) pk.Read(sink, DummyCancellationToken());
		VH_CHECK(sink.eods == 1 && sink.got.size() == src.total, "packeter:conservation", sink.got.size() << " bytes of " << src.total << ", " << sink.eods << " ends, " << ctx.str());
	}
	else if (mode == 2)
	{
		// pieces shorter than a packet are refused, nothing is lost or invented
		Source src(rng.Next(), total, 1 + rng.Below(2 * unit + 1));
		PacketSink sink(rng.Next(), unit, 0);
		DataPacketer pk(src, unit);
		for (int i = 0; i < 400 && sink.eods == 0 && !vh_violated(); ++i) { try { pk.Read(sink, DummyCancellationToken()); } catch (const std::exception&) { vh_count("short_pieces_refused", 1); } }
		VH_CHECK(sink.got.size() == src.pos, "packeter:conservation", sink.got.size() << " bytes of " << src.pos << ", " << ctx.str());
	}
	else
	{
		// through a packet buffer and back into bytes, with consumers that take parts and are cancelled
		const size_t cap = 1 + rng.Below(40);
		PacketBuffer<EmptyType> buf(false, cap);
		const bool shared = rng.Bool();
		Source src(rng.Next(), total, 1 + rng.Below(std::min<size_t>(cap, 12)));
		DataPacketer pk(src);
		DataDepacketer dp(buf);
		ByteSink sink(rng.Next(), 1, 1 + (int)rng.Below(2), 0, 0);
		ConsumerDepacketer cd(sink);
		PacketSink unused(1, null, 0);
		CancellationToken gone; gone.Cancel();
		bool ended = false;
		for (int i = 0; i < 6000 && sink.eods == 0 && !vh_violated(); ++i)
		{
			if (rng.Bool())
			{
				if (src.pos < src.total) { TimedCancellationToken t{TimeDuration()}; pk.Read(buf, t); }
				else if (!ended) { ended = true; pk.Read(buf, DummyCancellationToken()); }
			}
			else if (ended || buf.GetDataSize())
			{
				CancellationToken token; sink.token = &token; sink.cancelAt = rng.Chance(1, 2) ? sink.calls + 1 + (int)rng.Below(2) : 0;
				if (shared) dp.Read(sink, token); else buf.Read(cd, token);
			}
		}
		VH_CHECK(sink.eods == 1 && sink.got.size() == total, "depacketer:conservation", sink.got.size() << " bytes of " << total << ", " << sink.eods << " ends, cap " << cap << (shared ? " source" : " consumer"));
	}
	vh_distinct("packeted", vh::HashStr(ctx.str()));
}
