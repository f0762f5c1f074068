// C09: concurrent byte pipes and buffers. Monitors: byte-exact comparison of what readers got with what was accepted from writers,
// exactly-one end of data after everything, wake-ups in virtual time, flat-file model of the asynchronous stream, and sequential models.
#include "vsx.h"
#include "sk.h"
#include <stingraykit/io/AsyncByteStream.h>
#include <stingraykit/io/BithreadCircularBuffer.h>
#include <stingraykit/io/BithreadPipe.h>
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/io/ByteDataConsumer.h>
#include <stingraykit/io/ByteStreamDataSource.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/DataSourceReader.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/io/IntermediateDataBuffer.h>
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/io/PipeDataSource.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/io/SynchronizedPipe.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <algorithm>

using namespace stingray;

namespace {
	typedef std::vector<u8> Bytes;

	u8 Val(int writer, size_t i) { return (u8)((writer << 6) | ((i * 7 + i / 64 * 3) & 63)); }

	std::string Hex(const Bytes& b) { std::ostringstream s; for (size_t i = 0; i < b.size() && i < 120; ++i) { char t[4]; snprintf(t, sizeof t, "%02x", b[i]); s << t; } return s.str(); }

	struct ConsumerFailure : public std::runtime_error { ConsumerFailure() : std::runtime_error("consumer failure") { } };
	struct Injected : public std::runtime_error { Injected() : std::runtime_error("injected failure") { } };

	// consumer that takes a random part of what it is offered
	struct Sink : public virtual IDataConsumer
	{
		vh::Rng r; size_t packet; bool mayThrow, mayRefuse; Bytes got; int eods; bool inside;
		Sink(uint64_t seed, size_t packet_, bool t, bool z) : r(seed), packet(packet_), mayThrow(t), mayRefuse(z), eods(0), inside(false) { }
		virtual size_t Process(ConstByteData data, const ICancellationToken&)
		{
			VH_CHECK(!inside, "pipe:consumer-reentered", "");
			VH_CHECK(eods == 0, "pipe:data-after-end", data.size() << " bytes");
			VH_CHECK(data.size() > 0 && data.size() % packet == 0, "pipe:partial-packet", data.size() << " bytes offered, packet " << packet);
			inside = true;
			vs::Pause(r);
			inside = false;
			if (mayThrow && r.Chance(1, 12)) throw ConsumerFailure();
			if (mayRefuse && r.Chance(1, 8)) return 0;
			const size_t n = r.Chance(1, 2) ? data.size() : (1 + r.Below(data.size() / packet)) * packet;
			got.insert(got.end(), data.begin(), data.begin() + n);
			vs::Pause(r);
			return n;
		}
		virtual void EndOfData(const ICancellationToken&) { ++eods; }
	};

	// every writer's bytes in its own order; bytes accepted by one call are contiguous
	void CheckDelivered(const char* kind, const Bytes& got, const std::vector<std::vector<size_t> >& calls, bool complete, const std::string& ctx)
	{
		std::vector<size_t> pos(calls.size(), 0), call(calls.size(), 0), left(calls.size(), 0);
		int open = -1;
		for (size_t i = 0; i < got.size(); ++i)
		{
			const int w = got[i] >> 6;
			VH_CHECK_R(w < (int)calls.size(), std::string("pipe:foreign-byte:") + kind, "offset " << i << " of " << Hex(got) << " " << ctx);
			VH_CHECK_R(got[i] == Val(w, pos[w]), std::string("pipe:wrong-byte:") + kind, "offset " << i << " of " << Hex(got) << ": expected byte " << pos[w] << " of writer " << w << " " << ctx);
			VH_CHECK_R(open == -1 || open == w, std::string("pipe:interleaved:") + kind, "offset " << i << " " << ctx);
			if (left[w] == 0)
			{
				while (call[w] < calls[w].size() && calls[w][call[w]] == 0) ++call[w];
				VH_CHECK_R(call[w] < calls[w].size(), std::string("pipe:extra-byte:") + kind, "offset " << i << " of " << Hex(got) << " " << ctx);
				left[w] = calls[w][call[w]++];
			}
			++pos[w]; --left[w];
			open = left[w] ? w : -1;
		}
		if (complete)
			for (size_t w = 0; w < calls.size(); ++w)
			{
				size_t total = 0; for (size_t k = 0; k < calls[w].size(); ++k) total += calls[w][k];
				VH_CHECK(pos[w] == total, std::string("pipe:lost-bytes:") + kind, "writer " << w << ": " << total << " accepted, " << pos[w] << " delivered " << ctx);
			}
		vh_count("bytes_checked", got.size());
	}
}

// ---------------------------------------------------------------- data buffer

static size_t Gcd(size_t a, size_t b) { return b ? Gcd(b, a % b) : a; }

static void DataBufferRace(vh::Rng& rng)
{
	const size_t in = 1 + rng.Below(3), out = 1 + rng.Below(3), lcm = in * out / Gcd(in, out);
	const size_t size = lcm * (1 + rng.Below(rng.Bool() ? 3 : 12));
	const size_t required = rng.Chance(1, 3) ? rng.Below(size - out + 1) : 0;
	DataBuffer buf(false, size, DataBuffer::Parameters().SetInputPacketSize(in).SetOutputPacketSize(out).SetRequiredFreeSpace(required));
	const int writers = rng.Chance(2, 3) ? 1 : 1 + (int)rng.Below(3);
	const int finish = (int)rng.Below(4);     // 0..2 end of data, 3 exception
	std::vector<uint64_t> seeds; for (int i = 0; i < 8; ++i) seeds.push_back(rng.Next());
	std::vector<std::vector<size_t> > calls(writers);
	CancellationToken wtokens[4], rtoken;
	const bool cancels = rng.Chance(1, 3);
	std::ostringstream ctx; ctx << "size " << size << " in " << in << " out " << out << " required " << required << " writers " << writers << " finish " << finish;
	Sink sink(seeds[6], out, rng.Chance(1, 3), rng.Bool());
	int caught = 0;
	{
		vs::Threads th;
		th.Add([&]()
		{
			vh::Rng r(seeds[5]);
			int zero = 0;
			for (;;)
			{
				const bool c = cancels && r.Chance(1, 3);
				try { c ? buf.Read(sink, rtoken) : buf.Read(sink, DummyCancellationToken()); }
				catch (const ConsumerFailure&) { continue; }
				catch (const std::exception& ex)
				{
					++caught;
					VH_CHECK(finish == 3 && std::string(ex.what()).find("injected failure") != std::string::npos, "pipe:reader-exception", ex.what() << " " << ctx.str());
					if (finish == 3) break;
				}
				if (sink.eods) break;
				if (++zero > 20000) { VH_CHECK(false, "pipe:reader-spins", ctx.str()); break; }
			}
		});
		th.Add([&]()
		{
			vs::Threads ws;
			for (int w = 0; w < writers; ++w)
				ws.Add([&, w]()
				{
					vh::Rng r(seeds[w]);
					size_t pos = 0;
					const int rounds = 1 + (int)r.Below(6);
					for (int k = 0; k < rounds; ++k)
					{
						size_t n = in * (1 + r.Below(r.Bool() ? 3 : 10));
						while (n)
						{
							std::unique_ptr<u8[]> data(new u8[n]);
							for (size_t i = 0; i < n; ++i) data[i] = Val(w, pos + i);
							const bool c = cancels && r.Chance(1, 3);
							const size_t done = c ? buf.Process(ConstByteData(data.get(), n), wtokens[w]) : buf.Process(ConstByteData(data.get(), n), DummyCancellationToken());
							VH_CHECK(done <= n && done % in == 0, "pipe:accepted-size", done << " of " << n << " " << ctx.str());
							calls[w].push_back(done);
							pos += done; n -= done;
						}
						vs::Pause(r);
					}
				});
			ws.Join();
			if (finish < 3) buf.EndOfData(DummyCancellationToken());
			else buf.SetException(Injected(), DummyCancellationToken());
		});
		if (cancels) th.Add([&]() { vh::Rng r(seeds[7]); vs::Pause(r); for (int i = 0; i < 4; ++i) wtokens[i].Cancel(); vs::Pause(r); rtoken.Cancel(); });
		// an observer: sizes always within the storage
		th.Add([&]()
		{
			for (int i = 0; i < 3; ++i)
			{
				const size_t d = buf.GetDataSize(), f = buf.GetFreeSize();
				VH_CHECK(d <= size && f <= size && buf.GetStorageSize() == size, "pipe:size-range", d << " " << f << " " << ctx.str());
				vs_yield();
			}
		});
	}
	size_t total = 0; for (size_t w = 0; w < calls.size(); ++w) for (size_t k = 0; k < calls[w].size(); ++k) total += calls[w][k];
	Bytes got = sink.got;
	const size_t rest = total % out;      // an incomplete last packet is dropped
	VH_CHECK(total - got.size() == rest, "pipe:lost-bytes:data-buffer", total << " accepted, " << got.size() << " delivered " << ctx.str());
	VH_CHECK(finish == 3 ? (sink.eods == 0 && caught == 1) : (sink.eods == 1 && caught == 0), "pipe:ending", sink.eods << " " << caught << " " << ctx.str());
	CheckDelivered("data-buffer", got, calls, rest == 0, ctx.str());
	vh_distinct("buffer_runs", vh::HashStr(ctx.str() + Hex(got)));
}
VH_SCHED_SCENARIO(data_buffer_race) { DataBufferRace(rng); }
VH_FREE_SCENARIO(free_data_buffer) { vs_noise(30, 20); DataBufferRace(rng); vs_noise(0, 0); }

// time passes only when nobody can run, so a wake-up that is missed shows as a jump of the clock
VH_STRICT_SCENARIO(data_buffer_wakeup)
{
	const size_t size = 2 + rng.Below(6);
	DataBuffer buf(false, size);
	const int reason = rng.Below(9);
	CancellationToken token;
	const bool timed = rng.Bool();
	const TimedCancellationToken t(token, TimeDuration::FromSeconds(100));
	const ICancellationToken& tok = timed ? (const ICancellationToken&)t : token;
	Sink sink(rng.Next(), 1, false, false);
	Bytes fill(size, 1);
	const bool writerSide = reason >= 5;
	const size_t threshold = 1 + rng.Below(size - 1);
	const bool waitForData = !writerSide && rng.Chance(1, 3);
	if (writerSide)
		VH_CHECK(ConsumeAll(buf, ConstByteData(fill.data(), size), DummyCancellationToken()) == size, "pipe:fill", size);
	const uint64_t seed = rng.Next();
	uint64_t t0 = vs_now_ns(), t1 = 0; bool returned = false; std::string ex; size_t accepted = 0, left = 0;
	const int late = (int)rng.Below(2);
	{
		vs::Threads th;
		th.Add([&]()
		{
			vh::Rng r(seed);
			try
			{
				if (writerSide) accepted = buf.Process(ConstByteData(fill.data(), 1), tok);
				else if (waitForData) buf.WaitForData(threshold, tok);
				else { buf.Read(sink, tok); if (sink.got.empty() && !sink.eods && reason != 4) buf.Read(sink, tok); }
			}
			catch (const std::exception& e) { ex = e.what(); }
			returned = true;
			t1 = vs_now_ns();
		});
		th.Add([&]()
		{
			vh::Rng r(seed + 1);
			if (late) vs_settle(); else vs::Pause(r);
			switch (reason)
			{
			case 0: case 1: buf.Process(ConstByteData(fill.data(), waitForData ? threshold : 1), DummyCancellationToken()); break;
			case 2: buf.EndOfData(DummyCancellationToken()); break;
			case 3: buf.SetException(Injected(), DummyCancellationToken()); break;
			case 4: token.Cancel(); break;
			case 5: case 6: { Sink s(seed, 1, false, false); buf.Read(s, DummyCancellationToken()); } break;
			case 7:
				for (int i = 0; ; ++i) { try { buf.Clear(); break; } catch (const InvalidOperationException&) { } if (late || i > 20) { left = 1; break; } vs_yield(); }
				if (left) token.Cancel();    // Clear is refused while the writer waits
				break;
			case 8: token.Cancel(); break;
			}
		});
	}
	std::ostringstream ctx; ctx << "reason " << reason << " timed " << timed << " late " << late << " wait-for-data " << waitForData;
	VH_CHECK(returned, "pipe:wakeup", ctx.str());
	VH_CHECK(t1 - t0 < 50000000000ull, "pipe:missed-wakeup", "returned after " << (t1 - t0) / 1000000 << " ms, " << ctx.str());
	if (!writerSide && !waitForData)
	{
		if (reason <= 1) VH_CHECK(sink.got.size() == 1, "pipe:wakeup-data", ctx.str());
		if (reason == 2) VH_CHECK(sink.eods == 1, "pipe:wakeup-eod", ctx.str());
		if (reason == 3) VH_CHECK(ex.find("injected failure") != std::string::npos, "pipe:wakeup-exception", ex << " " << ctx.str());
		if (reason == 4) VH_CHECK(sink.got.empty() && sink.eods == 0 && ex.empty(), "pipe:wakeup-cancel", ex << " " << ctx.str());
	}
	if (waitForData && reason <= 1) VH_CHECK(buf.GetDataSize() >= threshold, "pipe:threshold", ctx.str());
	vh_distinct("wakeups", vh::HashStr(ctx.str()));
}

// WaitForData never returns early without cause
VH_SCHED_SCENARIO(data_buffer_threshold)
{
	const size_t size = 2 + rng.Below(20);
	const size_t threshold = 1 + rng.Below(size - 1);
	DataBuffer buf(false, size);
	const uint64_t seed = rng.Next();
	const int end = rng.Below(3);
	{
		vs::Threads th;
		th.Add([&]()
		{
			buf.WaitForData(threshold, DummyCancellationToken());
			VH_CHECK(buf.GetDataSize() >= threshold || buf.HasEndOfDataOrException(), "pipe:threshold", buf.GetDataSize() << " of " << threshold);
		});
		th.Add([&]()
		{
			vh::Rng r(seed);
			size_t n = 0; const size_t upTo = end == 0 ? threshold + r.Below(size - threshold + 1) : r.Below(threshold);
			while (n < upTo) { const u8 b = Val(0, n); n += buf.Process(ConstByteData(&b, 1), DummyCancellationToken()); vs::Pause(r); }
			if (end == 1) buf.EndOfData(DummyCancellationToken());
			if (end == 2) buf.SetException(Injected(), DummyCancellationToken());
		});
	}
	vh_eval(1);
}

static void Overflow(vh::Rng& rng)
{
	const size_t in = 1 + rng.Below(3);
	const size_t size = in * (1 + rng.Below(6));
	DataBuffer buf(true, size, DataBuffer::Parameters().SetInputPacketSize(in).SetOutputPacketSize(in));
	size_t dropped = 0, signalled = 0;
	Token tok = buf.OnOverflow().connect(sk::F<void (size_t)>([&](size_t n) { signalled += n; dropped = n; }));
	const uint64_t seed = rng.Next();
	std::vector<std::vector<size_t> > calls(1);
	Sink sink(rng.Next(), in, false, false);
	std::ostringstream ctx; ctx << "overflow size " << size << " in " << in;
	{
		vs::Threads th;
		th.Add([&]() { while (!sink.eods) buf.Read(sink, DummyCancellationToken()); });
		th.Add([&]()
		{
			vh::Rng r(seed);
			size_t pos = 0;
			for (int k = 0; k < 8; ++k)
			{
				const size_t n = in * (1 + r.Below(6));
				Bytes data; for (size_t i = 0; i < n; ++i) data.push_back(Val(0, pos + i));
				dropped = 0;
				const size_t done = buf.Process(ConstByteData(data.data(), n), DummyCancellationToken());
				VH_CHECK(dropped == 0 || (dropped == n && done == n), "pipe:overflow", dropped << " dropped of " << n << " returned " << done);
				VH_CHECK(done > 0, "pipe:overflow-blocks", "");
				if (!dropped) { calls[0].push_back(done); pos += done; }
				vs::Pause(r);
			}
			buf.EndOfData(DummyCancellationToken());
		});
	}
	CheckDelivered("overflow", sink.got, calls, true, ctx.str());
	vh_count("overflow_bytes", signalled);
}
VH_SCHED_SCENARIO(data_buffer_overflow) { Overflow(rng); }

// the shared buffer used directly with its locks
VH_SCHED_SCENARIO(shared_circular_race)
{
	const size_t size = 1 + rng.Below(9);
	SharedCircularBuffer buf(size);
	const size_t total = 1 + rng.Below(40);
	const uint64_t seed = rng.Next();
	Bytes got; bool eod = false;
	{
		vs::Threads th;
		th.Add([&]()
		{
			vh::Rng r(seed);
			size_t pos = 0;
			while (pos < total)
			{
				SharedCircularBuffer::BufferLock bl(buf);
				SharedCircularBuffer::WriteLock wl(bl);
				VH_CHECK(bl.GetDataSize() + bl.GetFreeSize() == size, "pipe:sizes", bl.GetDataSize() << "+" << bl.GetFreeSize());
				BithreadCircularBuffer::Writer w = wl.Write();
				if (w.size() == 0) { wl.WaitFull(DummyCancellationToken()); continue; }
				const size_t n = std::min<size_t>(total - pos, 1 + r.Below(w.size()));
				{ SharedCircularBuffer::BufferUnlock u(bl); for (size_t i = 0; i < n; ++i) w.data()[i] = Val(0, pos + i); }
				w.Push(n); pos += n;
				wl.BroadcastEmpty();
			}
			SharedCircularBuffer::BufferLock(buf).SetEndOfData();
		});
		th.Add([&]()
		{
			vh::Rng r(seed + 9);
			for (;;)
			{
				SharedCircularBuffer::BufferLock bl(buf);
				SharedCircularBuffer::ReadLock rl(bl);
				BithreadCircularBuffer::Reader rd = rl.Read();
				if (rd.size() == 0)
				{
					if (bl.IsEndOfData()) { eod = true; break; }
					rl.WaitEmpty(DummyCancellationToken());
					continue;
				}
				const size_t n = 1 + r.Below(rd.size());
				{ SharedCircularBuffer::BufferUnlock u(bl); got.insert(got.end(), rd.data(), rd.data() + n); }
				rd.Pop(n);
				rl.BroadcastFull();
			}
		});
	}
	std::vector<std::vector<size_t> > calls(1, std::vector<size_t>(1, total));
	VH_CHECK(eod, "pipe:eod", "");
	CheckDelivered("shared-circular", got, calls, true, "");
}

// ---------------------------------------------------------------- pipes

static void PipeRace(vh::Rng& rng)
{
	shared_ptr<BithreadPipe> inner = make_shared_ptr<BithreadPipe>();
	const int writers = rng.Bool() ? 1 : 1 + (int)rng.Below(3);
	IPipePtr wr = inner;
	const bool sync = writers > 1 || rng.Bool();
	if (sync) wr = make_shared_ptr<SynchronizedPipe>(inner);
	const bool buffered = rng.Chance(1, 3);
	IPipePtr rd = inner;
	if (buffered) rd = make_shared_ptr<BufferedPipe>(inner, 1 + rng.Below(5));
	std::vector<uint64_t> seeds; for (int i = 0; i < 6; ++i) seeds.push_back(rng.Next());
	const bool cancels = !buffered && rng.Chance(1, 3);
	CancellationToken rtoken;
	std::vector<std::vector<size_t> > calls(writers);
	for (int w = 0; w < writers; ++w) { vh::Rng r(seeds[w]); for (int k = 0, n = 1 + (int)r.Below(4); k < n; ++k) calls[w].push_back(1 + r.Below(9)); }
	size_t total = 0; for (int w = 0; w < writers; ++w) for (size_t k = 0; k < calls[w].size(); ++k) total += calls[w][k];
	Bytes got; size_t delivered = 0; vs::Mutex m;
	{
		vs::Threads th;
		th.Add([&]()
		{
			vh::Rng r(seeds[4]);
			while (got.size() < total)
			{
				const size_t n = 1 + r.Below(12);
				std::unique_ptr<u8[]> b(new u8[n]);
				u64 k = 0;
				const bool c = cancels && r.Bool();
				if (r.Chance(1, 3)) rd->Peek(DummyCancellationToken());
				try { vs::Lock l(m); delivered = 0; } catch (...) { }
				try { k = c ? rd->Read(ByteData(b.get(), n), rtoken) : rd->Read(ByteData(b.get(), n), DummyCancellationToken()); }
				catch (const OperationCancelledException&) { VH_CHECK(c && !rtoken, "pipe:false-cancellation", ""); continue; }
				VH_CHECK(k >= 1 && k <= n, "pipe:read-size", k << " of " << n);
				got.insert(got.end(), b.get(), b.get() + k);
				vs::Pause(r);
			}
		});
		for (int w = 0; w < writers; ++w)
			th.Add([&, w]()
			{
				vh::Rng r(seeds[w] + 1);
				size_t pos = 0;
				for (size_t k = 0; k < calls[w].size(); ++k)
				{
					const size_t n = calls[w][k];
					std::unique_ptr<u8[]> b(new u8[n]);
					for (size_t i = 0; i < n; ++i) b[i] = Val(w, pos + i);
					const u64 done = wr->Write(ConstByteData(b.get(), n), DummyCancellationToken());
					VH_CHECK(done == n, "pipe:written-size", done << " of " << n);
					pos += n;
					memset(b.get(), 0xff, n);      // the data is ours again
					vs::Pause(r);
				}
			});
		if (cancels) th.Add([&]() { vh::Rng r(seeds[5]); vs::Pause(r); rtoken.Cancel(); });
	}
	CheckDelivered("pipe", got, calls, true, sync ? "synchronized" : "plain");
	vh_distinct("pipe_runs", vh::HashBytes(got.data(), got.size()));
}
VH_SCHED_SCENARIO(pipe_race) { PipeRace(rng); }
VH_FREE_SCENARIO(free_pipe) { vs_noise(30, 20); PipeRace(rng); vs_noise(0, 0); }

// a cancelled write leaves nothing behind
VH_SCHED_SCENARIO(pipe_cancel)
{
	BithreadPipe pipe;
	const uint64_t seed = rng.Next();
	CancellationToken wtoken;
	const bool timed = rng.Chance(1, 3);
	Bytes got; bool cancelled = false; size_t first = 2 + rng.Below(6);
	const size_t total = first + 4;
	bool done2 = false;
	{
		vs::Threads th;
		vs::Event proceed;
		th.Add([&]()
		{
			vh::Rng r(seed);
			{
				std::unique_ptr<u8[]> b(new u8[first]);
				for (size_t i = 0; i < first; ++i) b[i] = Val(0, i);
				try
				{
					if (timed) pipe.Write(ConstByteData(b.get(), first), TimedCancellationToken(TimeDuration::FromMilliseconds(1 + r.Below(5))));
					else pipe.Write(ConstByteData(b.get(), first), wtoken);
				}
				catch (const OperationCancelledException&) { VH_CHECK(!timed && !wtoken, "pipe:false-cancellation", ""); cancelled = true; }
				catch (const TimeoutException&) { VH_CHECK(timed, "pipe:false-timeout", ""); cancelled = true; }
				memset(b.get(), 0xee, first);
			}
			Bytes b2; for (int i = 0; i < 4; ++i) b2.push_back(Val(1, i));
			VH_CHECK(pipe.Write(ConstByteData(b2.data(), 4), DummyCancellationToken()) == 4, "pipe:written-size", "");
			done2 = true;
		});
		th.Add([&]()
		{
			vh::Rng r(seed + 3);
			const int before = (int)r.Below(3);
			for (int i = 0; i < before; ++i) vs_yield();
			while (got.empty() || got.back() != Val(1, 3))
			{
				u8 b[3]; const size_t n = 1 + r.Below(3);
				const u64 k = pipe.Read(ByteData(b, n), DummyCancellationToken());
				VH_CHECK(k >= 1 && k <= n, "pipe:read-size", k);
				got.insert(got.end(), b, b + k);
				if (got.size() > total) break;
				vs::Pause(r);
			}
		});
		if (!timed) th.Add([&]() { vh::Rng r(seed + 5); vs::Pause(r); wtoken.Cancel(); });
	}
	VH_CHECK(got.size() >= 4 && got.size() <= total && done2, "pipe:cancel-leftover", Hex(got));
	const size_t n0 = got.size() - 4;
	for (size_t i = 0; i < n0; ++i) VH_CHECK(got[i] == Val(0, i), "pipe:cancel-bytes", Hex(got));
	for (size_t i = 0; i < 4; ++i) VH_CHECK(got[n0 + i] == Val(1, i), "pipe:cancel-bytes", Hex(got));
	if (!cancelled) VH_CHECK(n0 == first, "pipe:written-but-not-read", Hex(got));
	vh_count("cancelled_writes", cancelled);
}

VH_STRICT_SCENARIO(pipe_timeout)
{
	BithreadPipe pipe;
	const u64 ms = 1 + rng.Below(1000);
	const uint64_t t0 = vs_now_ns();
	u8 b[4] = { };
	bool timedOut = false;
	const bool write = rng.Bool();
	const bool satisfied = rng.Bool();
	vs::Threads th;
	if (satisfied) th.Add([&]() { vs_settle(); u8 c[4] = { 1, 2, 3, 4 }; if (write) pipe.Read(ByteData(c, 4), DummyCancellationToken()); else pipe.Write(ConstByteData(c, 4), DummyCancellationToken()); });
	try
	{
		const u64 k = write ? pipe.Write(ConstByteData(b, 4), TimedCancellationToken(TimeDuration::FromMilliseconds((s64)ms))) : pipe.Read(ByteData(b, 4), TimedCancellationToken(TimeDuration::FromMilliseconds((s64)ms)));
		VH_CHECK(k == 4, "pipe:read-size", k);
	}
	catch (const TimeoutException&) { timedOut = true; }
	const uint64_t d = vs_now_ns() - t0;
	th.Join();
	VH_CHECK(timedOut == !satisfied, "pipe:timeout", "satisfied " << satisfied << " write " << write);
	if (!satisfied) VH_CHECK(d + 500000 >= ms * 1000000 && d < ms * 1000000 + 5000000, "pipe:timeout-length", d << " ns of " << ms << " ms");
	else VH_CHECK(d < 900000, "pipe:missed-wakeup", d << " ns");
}

namespace {
	// pipe over a script of chunks, closing at the end
	struct ScriptPipe : public virtual IPipe
	{
		Bytes data; size_t pos; vh::Rng r; Bytes written;
		ScriptPipe(const Bytes& d, uint64_t seed) : data(d), pos(0), r(seed) { }
		virtual u64 Read(ByteData b, const ICancellationToken&)
		{
			if (pos == data.size()) throw PipeClosedException();
			const size_t n = std::min<size_t>(std::min<size_t>(b.size(), data.size() - pos), 1 + r.Below(7));
			std::copy(data.begin() + pos, data.begin() + pos + n, b.begin()); pos += n; return n;
		}
		virtual u64 Write(ConstByteData b, const ICancellationToken&) { const size_t n = b.size() ? 1 + r.Below(b.size()) : 0; written.insert(written.end(), b.begin(), b.begin() + n); return n; }
		virtual bool Peek(const ICancellationToken&) { return pos != data.size(); }
	};
}

VH_SCENARIO(pipe_readers)
{
	// lines
	Bytes text; std::vector<std::string> lines; std::string cur;
	const int n = (int)rng.Below(8);
	for (int i = 0; i < n; ++i)
	{
		cur.clear();
		for (int k = 0, len = (int)rng.Below(6); k < len; ++k) cur += (char)('a' + rng.Below(3));
		lines.push_back(cur);
		text.insert(text.end(), cur.begin(), cur.end());
		if (rng.Bool()) text.push_back('\r');
		text.push_back('\n');
	}
	std::string tail; for (int k = 0, len = (int)rng.Below(4); k < len; ++k) tail += 'z';
	text.insert(text.end(), tail.begin(), tail.end());
	if (!tail.empty()) lines.push_back(tail);
	IPipePtr p = make_shared_ptr<ScriptPipe>(text, rng.Next());
	if (rng.Bool()) p = make_shared_ptr<BufferedPipe>(p, 1 + rng.Below(9));
	PipeReader reader(p);
	for (size_t i = 0; i < lines.size(); ++i)
	{
		std::string l; bool closed = false;
		try { l = reader.ReadLine(DummyCancellationToken()); } catch (const PipeClosedException&) { closed = true; }
		VH_CHECK(!closed && l == lines[i], "pipe:line", "line " << i << " '" << vh::Printable(l) << "' expected '" << lines[i] << "'");
	}
	bool closed = false;
	try { reader.ReadLine(DummyCancellationToken()); } catch (const PipeClosedException&) { closed = true; }
	VH_CHECK(closed, "pipe:line-end", "");
	// data source over a pipe
	Bytes d; for (int i = 0, m = (int)rng.Below(60); i < m; ++i) d.push_back((u8)rng.Next());
	PipeDataSource src(make_shared_ptr<ScriptPipe>(d, rng.Next()), 1 + rng.Below(16));
	Bytes got; int eods = 0;
	for (int i = 0; i < 200 && !eods; ++i)
		src.ReadToFunction(sk::F<size_t (ConstByteData, const ICancellationToken&)>([&](ConstByteData c, const ICancellationToken&) { got.insert(got.end(), c.begin(), c.end()); return c.size(); }),
			sk::F<void (const ICancellationToken&)>([&](const ICancellationToken&) { ++eods; }), DummyCancellationToken());
	VH_CHECK(got == d && eods == 1, "pipe:data-source", got.size() << " of " << d.size());
	// checked write-all
	shared_ptr<ScriptPipe> sp = make_shared_ptr<ScriptPipe>(Bytes(), rng.Next());
	if (rng.Bool()) CheckedWriteAll(*sp, ConstByteData(d.data(), d.size()), DummyCancellationToken());
	else VH_CHECK(WriteAll(*sp, ConstByteData(d.data(), d.size()), DummyCancellationToken()) == d.size(), "pipe:write-all-size", "");
	VH_CHECK(sp->written == d, "pipe:write-all", sp->written.size() << " of " << d.size());
	vh_distinct("lines", vh::HashBytes(text.data(), text.size()));
}

// ---------------------------------------------------------------- asynchronous stream

namespace {
	struct Disk : public virtual ISyncableByteStream
	{
		vs::Mutex m; Bytes data; u64 pos; vh::Rng r; bool partial; int failAfter; int writes, syncs; bool inUse; bool failed; bool slow;
		std::vector<Bytes> atSync;
		Disk(uint64_t seed, bool partial_, int failAfter_) : pos(0), r(seed), partial(partial_), failAfter(failAfter_), writes(0), syncs(0), inUse(false), failed(false), slow(false) { }
		struct Use { Disk& d; Use(Disk& d_) : d(d_) { VH_CHECK(!d.inUse, "async:stream-overlap", ""); d.inUse = true; } ~Use() { d.inUse = false; } };
		virtual u64 Read(ByteData, const ICancellationToken&) { VH_CHECK(false, "async:read", ""); return 0; }
		virtual u64 Write(ConstByteData b, const ICancellationToken&)
		{
			Use u(*this);
			vs_yield();
			vs::Lock l(m);
			if (failAfter >= 0 && writes++ >= failAfter) { failed = true; throw Injected(); }
			const size_t n = partial && r.Chance(1, 3) ? 1 + r.Below(b.size()) : b.size();
			if (data.size() < pos + n) data.resize(pos + n);
			std::copy(b.begin(), b.begin() + n, data.begin() + pos);
			pos += n;
			return n;
		}
		virtual void Seek(s64 off, SeekMode mode)
		{
			Use u(*this);
			vs::Lock l(m);
			if (mode == SeekMode::Begin) pos = off; else if (mode == SeekMode::Current) pos += off; else pos = data.size() + off;
		}
		virtual u64 Tell() const { return pos; }
		virtual void Sync() { Use u(*this); vs_yield(); vs::Lock l(m); ++syncs; atSync.push_back(data); }
	};
	Bytes Content(Disk& d) { vs::Lock l(d.m); return d.data; }

	AsyncByteStream::Config RandomConfig(vh::Rng& r)
	{
		AsyncByteStream::Config c;
		const size_t page = 1 + r.Below(4), merge = 1 + r.Below(3), sub = 1 + r.Below(2);
		c.PageSize(page).MergeablePagesHint(merge).SubStreamsHint(sub).BufferSize(2 * sub * page * merge + r.Below(30));
		return c;
	}
}

static void AsyncRun(vh::Rng& rng, bool fails)
{
	shared_ptr<Disk> disk = make_shared_ptr<Disk>(rng.Next(), rng.Bool(), fails ? (int)rng.Below(6) : -1);
	Bytes model;
	if (rng.Chance(1, 3)) { for (int i = 0, n = (int)rng.Below(20); i < n; ++i) model.push_back((u8)(200 + i)); disk->data = model; disk->pos = rng.Below(model.size() + 1); }
	u64 pos = disk->pos;
	vh::Trace tr;
	int nosync = 0, threw = 0; size_t syncs = 0;
	const bool nonBlocking = rng.Chance(1, 4);
	std::vector<Bytes> syncModels;
	{
		AsyncByteStream::Config conf = RandomConfig(rng);
		if (nonBlocking) conf.EnableNonBlockingSync();
		AsyncByteStream s("x", disk, conf);
		const int ops = 1 + (int)rng.Below(16);
		size_t counter = 0; int full = 0;
		std::vector<u64> ends;
		const bool hasty = rng.Bool();
		for (int k = 0; k < ops; ++k)
		{
			const int op = (int)rng.Below(12);
			try
			{
				if (op < 7)
				{
					const size_t n = rng.Below(rng.Chance(1, 4) ? 40 : 8);
					std::unique_ptr<u8[]> b(new u8[n + 1]);
					for (size_t i = 0; i < n; ++i) b[i] = (u8)(++counter);
					const u64 done = s.Write(ConstByteData(b.get(), n), DummyCancellationToken());
					tr << " write(" << n << "@" << pos << ")=" << done;
					VH_CHECK(done <= n, "async:written-size", done << " of " << n);
					if (done == 0 && n) { if (++full < 40) --k; vs_advance_ns(100000000ull); continue; }
					if (n) VH_CHECK(done > 0, "async:written-size", tr.Str());
					if (done)
					{
						if (model.size() < pos + done) model.resize(pos + done);
						std::copy(b.get(), b.get() + done, model.begin() + pos);
						pos += done;
						ends.push_back(pos);
						if (ends.size() > 3) ends.erase(ends.begin());
					}
				}
				else if (op < 10)
				{
					const SeekMode mode = rng.Bool() ? SeekMode::Begin : rng.Bool() ? SeekMode::Current : SeekMode::End;
					// the ends of earlier writes are where later ones are merged
					const s64 target = !ends.empty() && rng.Chance(2, 3) ? (s64)ends[rng.Below(ends.size())] + (rng.Chance(1, 4) ? 1 : 0) : (s64)rng.Below(model.size() + 6);
					const s64 off = mode == SeekMode::Begin ? target : mode == SeekMode::Current ? target - (s64)pos : target - (s64)model.size();
					s.Seek(off, mode);
					pos = target;
					tr << " seek(" << target << ")";
				}
				else if (op == 10)
				{
					s.Sync();
					tr << " sync";
					++syncs;
					syncModels.push_back(model);
					if (!nonBlocking && !fails)
					{
						const Bytes c = Content(*disk);
						VH_CHECK(c == model, "async:sync-incomplete", Hex(c) << " expected " << Hex(model) << ":" << tr.Str());
					}
				}
				else if (rng.Chance(1, 2))
				{
					AsyncByteStream::Config c2 = RandomConfig(rng);
					if (nonBlocking) c2.EnableNonBlockingSync();
					s.Reconfigure(c2);
					tr << " reconfigure";
				}
				VH_CHECK(s.Tell() == pos, "async:position", s.Tell() << " expected " << pos << ":" << tr.Str());
			}
			catch (const std::exception& ex)
			{
				++threw;
				VH_CHECK(fails && std::string(ex.what()).find("was exception") != std::string::npos, "async:exception", ex.what() << ":" << tr.Str());
				if (!fails) break;
			}
			if (!hasty || rng.Chance(1, 4)) vs::Pause(rng);
		}
		if (fails && syncs == 0 && rng.Bool())
		{
			// after a failure the stream refuses further work instead of losing it silently
			vs_advance_ns(3000000000ull);
			bool f; { vs::Lock l(disk->m); f = disk->failed; }
			vs_settle();
			bool refused = false;
			try { s.Tell(); } catch (const std::exception&) { refused = true; }
			if (f && vs_controlled()) VH_CHECK(refused, "async:failure-hidden", tr.Str());
		}
	}
	if (!fails)
	{
		VH_CHECK(disk->data == model, "async:content", Hex(disk->data) << " expected " << Hex(model) << ":" << tr.Str());
		VH_CHECK(disk->syncs == (int)syncs, "async:sync-count", disk->syncs << " expected " << syncs << ":" << tr.Str());
		// everything accepted before a synchronisation is there when the device is synchronised; later writes may be there, too
		for (size_t i = 0; i < disk->atSync.size() && i < syncModels.size(); ++i)
			VH_CHECK(disk->atSync[i].size() >= syncModels[i].size() && disk->atSync[i].size() <= model.size(), "async:sync-early", i << ":" << tr.Str());
	}
	vh_distinct("async_histories", vh::HashStr(tr.Str()));
}
VH_SCHED_SCENARIO(async_stream) { AsyncRun(rng, false); }
VH_SCHED_SCENARIO(async_stream_failing) { AsyncRun(rng, true); }

// accepted data reaches the device without any further call
VH_STRICT_SCENARIO(async_progress)
{
	shared_ptr<Disk> disk = make_shared_ptr<Disk>(rng.Next(), false, -1);
	AsyncByteStream s("x", disk, RandomConfig(rng));
	Bytes model;
	for (int i = 0, n = 1 + (int)rng.Below(3); i < n; ++i)
	{
		Bytes b(1 + rng.Below(4), (u8)(i + 1));
		const u64 done = s.Write(ConstByteData(b.data(), b.size()), DummyCancellationToken());
		model.insert(model.end(), b.begin(), b.begin() + done);
		if (rng.Bool()) vs_settle();
	}
	vs_advance_ns(2500000000ull);
	vs_settle();
	const Bytes c = Content(*disk);
	VH_CHECK(c == model, "async:stalled", Hex(c) << " expected " << Hex(model));
}

// ---------------------------------------------------------------- a source read ahead by a thread

namespace {
	struct RandomSource : public virtual IDataSource
	{
		Bytes data; size_t pos; vh::Rng r; int failAt; size_t packet;
		RandomSource(const Bytes& d, uint64_t seed, int failAt_, size_t packet_ = 1) : data(d), pos(0), r(seed), failAt(failAt_), packet(packet_) { }
		virtual void Read(IDataConsumer& c, const ICancellationToken& token)
		{
			if (failAt >= 0 && (int)pos >= failAt) throw Injected();
			if (pos == data.size()) { c.EndOfData(token); return; }
			if (r.Chance(1, 5)) return;
			size_t n = std::min<size_t>(data.size() - pos, (1 + r.Below(7)) * packet);
			pos += c.Process(ConstByteData(data.data() + pos, n), token);
		}
	};
}

VH_SCHED_SCENARIO(intermediate_buffer)
{
	Bytes d; for (int i = 0, m = (int)rng.Below(50); i < m; ++i) d.push_back(Val(0, i));
	const int failAt = rng.Chance(1, 3) ? (int)rng.Below(d.size() + 1) : -1;
	const bool abandon = rng.Chance(1, 4);
	shared_ptr<RandomSource> src = make_shared_ptr<RandomSource>(d, rng.Next(), failAt);
	Sink sink(rng.Next(), 1, false, true);
	std::string ex;
	{
		IntermediateDataBuffer buf("reader", src, make_shared_ptr<DataBuffer>(false, 1 + rng.Below(12)));
		const size_t upTo = abandon ? rng.Below(d.size() + 1) : d.size() + 1;
		try { while (!sink.eods && sink.got.size() < upTo) buf.Read(sink, DummyCancellationToken()); }
		catch (const std::exception& e) { ex = e.what(); }
	}
	if (!abandon)
	{
		if (failAt < 0) VH_CHECK(ex.empty() && sink.eods == 1 && sink.got == d, "pipe:intermediate", ex << " " << sink.got.size() << " of " << d.size());
		else VH_CHECK(ex.find("injected failure") != std::string::npos && sink.got == Bytes(d.begin(), d.begin() + src->pos), "pipe:intermediate-exception", ex << " " << sink.got.size() << " of " << d.size());
	}
	else
		VH_CHECK(sink.got.size() <= d.size() && std::equal(sink.got.begin(), sink.got.end(), d.begin()), "pipe:intermediate", sink.got.size());
}

// ---------------------------------------------------------------- sequential models

VH_SCENARIO(data_buffer_model)
{
	const size_t in = 1 + rng.Below(3), out = 1 + rng.Below(3), lcm = in * out / Gcd(in, out);
	const size_t size = lcm * (1 + rng.Below(5));
	const size_t required = rng.Chance(1, 3) ? rng.Below(size - out + 1) : 0;
	const bool discard = rng.Chance(1, 3);
	DataBuffer buf(discard, size, DataBuffer::Parameters(in).SetOutputPacketSize(out).SetRequiredFreeSpace(required));
	Bytes model; size_t wo = 0, ro = 0; bool eod = false, exc = false; size_t counter = 0, overflow = 0, expOverflow = 0;
	Token tok = buf.OnOverflow().connect(sk::F<void (size_t)>([&](size_t n) { overflow += n; }));
	CancellationToken cancelled; cancelled.Cancel();
	vh::Trace tr; tr << "size " << size << " in " << in << " out " << out << " required " << required << " discard " << discard << ":";
	for (int k = 0; k < 30; ++k)
	{
		switch (rng.Below(10))
		{
		case 0: case 1: case 2: case 3:
			{
				size_t n = in * rng.Below(6);
				const bool odd = in > 1 && rng.Chance(1, 6);
				if (odd) n += 1 + rng.Below(in - 1);
				Bytes b; b.reserve(n + 1); for (size_t i = 0; i < n; ++i) b.push_back((u8)(counter + i));
				size_t done = ~(size_t)0; bool threw = false;
				try { done = buf.Process(ConstByteData(b.data(), n), cancelled); } catch (const InvalidOperationException&) { threw = true; }
				tr << " write" << n;
				if (odd) { VH_CHECK(!threw && done == n, "pipe:model-odd", tr.Str()); break; }
				VH_CHECK(threw == (eod || exc), "pipe:model-closed", tr.Str());
				if (threw) break;
				const size_t cont = model.size() && wo <= ro ? ro - wo : size - wo;
				const size_t room = cont / in * in;
				size_t expect;
				if (room == 0 || size - model.size() < required) { expect = discard ? n : 0; if (discard) expOverflow += n; VH_CHECK(done == expect, "pipe:model-full", done << " expected " << expect << tr.Str()); break; }
				expect = std::min(n, room);
				VH_CHECK(done == expect, "pipe:model-accepted", done << " expected " << expect << ":" << tr.Str());
				model.insert(model.end(), b.begin(), b.begin() + std::min(done, n));
				wo = (wo + done) % size; counter += done;
			}
			break;
		case 4: case 5: case 6: case 7:
			{
				const int mode = (int)rng.Below(6);    // consumer: all, part, refuse, throw, odd
				Bytes offered; int eods = 0; size_t take = 0; bool called = false; std::string ex;
				const uint64_t s = rng.Next();
				try
				{
					buf.ReadToFunction(sk::F<size_t (ConstByteData, const ICancellationToken&)>([&](ConstByteData c, const ICancellationToken&) -> size_t
					{
						called = true;
						offered.assign(c.begin(), c.end());
						if (mode == 3) throw ConsumerFailure();
						take = mode == 2 ? 0 : mode == 1 ? (1 + s % (c.size() / out)) * out : mode == 4 && out > 1 ? 1 + s % (out - 1) : c.size();
						return take;
					}), sk::F<void (const ICancellationToken&)>([&](const ICancellationToken&) { ++eods; }), cancelled);
				}
				catch (const std::exception& e) { ex = e.what(); }
				tr << " read" << mode;
				const size_t cont = std::min(model.size(), size - ro), pk = cont / out * out;
				if (pk == 0)
				{
					VH_CHECK(!called, "pipe:model-read-empty", tr.Str());
					if (exc) VH_CHECK(ex.find("injected failure") != std::string::npos && !eods, "pipe:model-read-exception", ex << tr.Str());
					else VH_CHECK(ex.empty() && eods == (eod ? 1 : 0), "pipe:model-read-eod", ex << " " << eods << tr.Str());
					break;
				}
				VH_CHECK(called && !eods && offered == Bytes(model.begin(), model.begin() + pk), "pipe:model-offered", Hex(offered) << " expected " << Hex(Bytes(model.begin(), model.begin() + pk)) << tr.Str());
				VH_CHECK((mode == 3) == (ex.find("consumer failure") != std::string::npos), "pipe:model-consumer-exception", ex << tr.Str());
				if (mode == 3 || take == 0) break;
				if (take % out) take = pk;
				model.erase(model.begin(), model.begin() + take);
				ro = (ro + take) % size;
			}
			break;
		case 8:
			if (rng.Chance(1, 3))
			{
				bool threw = false;
				const bool e = rng.Bool();
				try { if (e) buf.EndOfData(cancelled); else buf.SetException(Injected(), cancelled); } catch (const InvalidOperationException&) { threw = true; }
				VH_CHECK(threw == (e ? exc : eod), "pipe:model-end", tr.Str());
				if (!threw) (e ? eod : exc) = true;
				tr << (e ? " eod" : " exception");
			}
			break;
		case 9:
			if (rng.Chance(1, 4)) { buf.Clear(); model.clear(); wo = ro = 0; eod = exc = false; tr << " clear"; }
			break;
		}
		VH_CHECK(buf.GetDataSize() == model.size() && buf.GetFreeSize() == size - model.size() && buf.GetStorageSize() == size, "pipe:model-size", buf.GetDataSize() << " expected " << model.size() << tr.Str());
		VH_CHECK(buf.HasEndOfDataOrException() == (eod || exc), "pipe:model-closed-state", tr.Str());
		VH_CHECK(overflow == expOverflow, "pipe:model-overflow", overflow << " expected " << expOverflow << tr.Str());
		if (vh_violated()) return;
	}
	vh_distinct("buffer_histories", vh::HashStr(tr.Str()));
}

VH_SCENARIO(bithread_model)
{
	const size_t size = 1 + rng.Below(12);
	const bool external = rng.Bool();
	std::unique_ptr<u8[]> mem(new u8[size]);
	std::unique_ptr<BithreadCircularBuffer> pbuf(external ? new BithreadCircularBuffer(BytesOwner(ByteData(mem.get(), size), Token())) : new BithreadCircularBuffer(size));
	BithreadCircularBuffer& buf = *pbuf;
	Bytes model; size_t wo = 0, ro = 0, counter = 0;
	vh::Trace tr; tr << "size " << size << ":";
	for (int k = 0; k < 40; ++k)
	{
		if (rng.Chance(1, 25)) { buf.Clear(); model.clear(); wo = ro = 0; tr << " clear"; }
		if (rng.Bool())
		{
			BithreadCircularBuffer::Writer w = buf.Write();
			const size_t cont = model.size() && wo <= ro ? ro - wo : size - wo;
			VH_CHECK_R(w.size() == cont, "pipe:ring-writable", w.size() << " expected " << cont << tr.Str());
			VH_CHECK(w.IsBufferEnd() == (wo + cont == size), "pipe:ring-writer-end", tr.Str());
			BithreadCircularBuffer::Writer w2 = w;
			const size_t n = rng.Below(w.size() + 1);
			for (size_t i = 0; i < w.size(); ++i) w2.data()[i] = (u8)(counter + i);
			w.Push(n);
			for (size_t i = 0; i < n; ++i) model.push_back((u8)(counter + i));
			wo = (wo + n) % size; counter += n; tr << " push" << n;
		}
		else
		{
			BithreadCircularBuffer::Reader r = buf.Read();
			const size_t cont = std::min(model.size(), size - ro);
			VH_CHECK_R(r.size() == cont, "pipe:ring-readable", r.size() << " expected " << cont << tr.Str());
			VH_CHECK(std::equal(r.begin(), r.end(), model.begin()), "pipe:ring-bytes", tr.Str());
			VH_CHECK(r.IsBufferEnd() == (ro + cont == size), "pipe:ring-reader-end", tr.Str());
			const size_t n = rng.Below(r.size() + 1);
			r.Pop(n);
			model.erase(model.begin(), model.begin() + n);
			ro = (ro + n) % size; tr << " pop" << n;
		}
		VH_CHECK(buf.GetDataSize() == model.size() && buf.GetFreeSize() == size - model.size() && buf.GetTotalSize() == size, "pipe:ring-size", tr.Str());
	}
	vh_distinct("ring_histories", vh::HashStr(tr.Str()));
}

// sources and consumers that select, skip, intercept and collect
VH_SCENARIO(data_utils)
{
	Bytes d; for (int i = 0, m = (int)rng.Below(60); i < m; ++i) d.push_back((u8)rng.Next());
	const IDataSourcePtr src = make_shared_ptr<RandomSource>(d, rng.Next(), -1);
	const DummyCancellationToken dummy;
	switch (rng.Below(7))
	{
	case 0:
		{
			const ByteArray a = DataSourceReader(src).ReadToEnd(dummy);
			VH_CHECK(Bytes(a.begin(), a.end()) == d, "pipe:read-to-end", a.size() << " of " << d.size());
		}
		break;
	case 1:
		{
			// take n, then the rest from the source itself
			const u64 n = rng.Below(d.size() + 1);
			DataTaker taker(src, n);
			Sink s(rng.Next(), 1, false, true);
			taker.Read(s, dummy);
			VH_CHECK(s.got == Bytes(d.begin(), d.begin() + n), "pipe:taker", s.got.size() << " expected " << n);
			const int eods = s.eods;
			Sink s2(rng.Next(), 1, false, true);
			taker.Read(s2, dummy);
			VH_CHECK(s2.got.empty(), "pipe:taker-again", s2.got.size());
			if (!eods)
			{
				ReactiveDataSource(src).Read(s2, dummy);
				VH_CHECK(s2.got == Bytes(d.begin() + n, d.end()) && s2.eods == 1, "pipe:taker-rest", s2.got.size() << " expected " << d.size() - n);
			}
		}
		break;
	case 2:
		{
			const u64 n = rng.Below(d.size() + 1);
			const bool rest = rng.Bool();
			shared_ptr<DataSkipper> skipper = make_shared_ptr<DataSkipper>(src, n, true);
			Sink s(rng.Next(), 1, false, true);
			ReactiveDataSource(skipper).Read(s, dummy);
			VH_CHECK(s.got == Bytes(d.begin() + n, d.end()) && s.eods == 1, "pipe:skipper", s.got.size() << " expected " << d.size() - n << rest);
		}
		break;
	case 3:
		{
			Bytes seen; int eods = 0;
			InterceptingDataSourcePtr is = make_shared_ptr<InterceptingDataSource>(src,
				sk::F<void (ConstByteData, const ICancellationToken&)>([&](ConstByteData c, const ICancellationToken&) { seen.insert(seen.end(), c.begin(), c.end()); }),
				sk::F<void (const ICancellationToken&)>([&](const ICancellationToken&) { ++eods; }));
			Sink s(rng.Next(), 1, false, true);
			ReactiveDataSource(is).Read(s, dummy);
			VH_CHECK(s.got == d && seen == d && s.eods == 1 && eods == 1, "pipe:intercept", seen.size() << " " << s.got.size() << " of " << d.size());
		}
		break;
	case 4:
		{
			BufferedDataMediator med;
			Bytes acc; Sink s(rng.Next(), 1, false, true);
			for (int round = 0; round < 3; ++round)
			{
				acc.clear(); s.got.clear(); s.eods = 0;
				const bool end = rng.Bool();
				for (int i = 0, m = (int)rng.Below(4); i < m; ++i)
				{ Bytes b(rng.Below(6), (u8)rng.Next()); VH_CHECK(med.Process(ConstByteData(b.data(), b.size()), dummy) == b.size(), "pipe:mediator-size", ""); acc.insert(acc.end(), b.begin(), b.end()); }
				if (end) med.EndOfData(dummy);
				med.Read(s, dummy);
				VH_CHECK(s.got == acc && s.eods == (end ? 1 : 0), "pipe:mediator", s.got.size() << " of " << acc.size());
			}
		}
		break;
	case 5:
		{
			const size_t cap = rng.Below(40);
			Bytes dst(cap + 4, 0xAA);
			ByteDataConsumer c(ByteData(dst.data(), cap));
			ReactiveDataSource(src).Read(c, dummy);
			const size_t n = std::min(cap, d.size());
			VH_CHECK(std::equal(d.begin(), d.begin() + n, dst.begin()), "pipe:byte-data-consumer", n);
			for (size_t i = n; i < dst.size(); ++i) VH_CHECK(dst[i] == 0xAA, "pipe:byte-data-consumer-overrun", i);
		}
		break;
	case 6:
		{
			ByteArray a(d.begin(), d.end());
			Sink s(rng.Next(), 1, false, true);
			if (rng.Bool()) ReactiveDataSource(make_shared_ptr<ByteArrayDataSource>(ConstByteArray(a))).Read(s, dummy);
			else
			{
				IByteStreamPtr ms = CreateMemoryByteStream(ByteArray(a));
				ReactiveDataSource(make_shared_ptr<ByteStreamDataSource>(ms, 1 + rng.Below(9))).Read(s, dummy);
			}
			VH_CHECK(s.got == d && s.eods == 1, "pipe:array-source", s.got.size() << " of " << d.size());
		}
		break;
	}
	vh_distinct("source_runs", vh::HashBytes(d.data(), d.size()));
}
