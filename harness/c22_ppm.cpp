// C22: compression round trips, judged by the original bytes.
#include "vh.h"
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/compression/ppm/PpmDictionaryFactory.h>
#include <stingraykit/thread/DummyCancellationToken.h>

using namespace stingray;

namespace {
	typedef std::vector<u8> Bytes;
	struct Stop { };

	// gives the bytes in pieces of any size, from where the consumer stopped; says when they end
	struct Source : public virtual IDataSource
	{
		const std::vector<u8> Data; size_t Pos; vh::Rng R; bool Ended;
		Source(const Bytes& d, u64 seed) : Data(d), Pos(0), R(seed), Ended(false) { }
		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
		{
			if (Pos == Data.size()) { Ended = true; consumer.EndOfData(token); return; }
			const size_t n = std::min<size_t>(Data.size() - Pos, R.Chance(1, 3) ? 1 : R.Chance(1, 2) ? 1 + R.Below(20) : 1 + R.Below(3000));
			const std::unique_ptr<u8[]> exact(new u8[n]); std::copy(Data.begin() + Pos, Data.begin() + Pos + n, exact.get());
			const size_t taken = consumer.Process(ConstByteData(exact.get(), n), token); VH_CHECK(taken <= n, "consumed-too-much", std::to_string(taken) + " of " + std::to_string(n)); Pos += taken;
		}
	};

	// takes a part of what is offered, sometimes nothing
	struct Consumer : public virtual IDataConsumer
	{
		Bytes Data; vh::Rng R; int Ends; const bool Refuses; const size_t Cap; bool TooMuch;
		Consumer(u64 seed, bool refuses, size_t cap) : R(seed), Ends(0), Refuses(refuses), Cap(cap), TooMuch(false) { }
		size_t Process(ConstByteData d, const ICancellationToken&) override
		{
			VH_CHECK(Ends == 0, "data-after-the-end", "");
			if (d.size() == 0 || (Refuses && R.Chance(1, 4))) return 0;
			const size_t n = R.Bool() ? d.size() : 1 + R.Below(d.size()); Data.insert(Data.end(), d.begin(), d.begin() + n);
			if (Data.size() > Cap) { TooMuch = true; throw Stop(); }
			return n;
		}
		void EndOfData(const ICancellationToken&) override { ++Ends; }
	};

	// reads until the end is announced; false if it is not after all steps that may be needed
	bool Pump(IDataSource& s, Consumer& c, size_t steps) { while (!c.Ends && steps--) s.Read(c, DummyCancellationToken()); return c.Ends == 1; }

	Bytes AnyText(vh::Rng& rng, size_t max, const Bytes& like)
	{
		Bytes r; const size_t n = rng.Below(rng.Chance(1, 4) ? max + 1 : rng.Chance(1, 3) ? 4 : max / 8 + 2); const int kind = rng.Below(6); const u8 base = (u8)rng.Below(256);
		while (r.size() < n)
			switch (kind)
			{
			case 0: r.push_back((u8)rng.Below(256)); break;
			case 1: r.push_back(base); break;
			case 2: r.push_back((u8)("abcd"[rng.Below(4)])); break;
			case 3: r.push_back(rng.Chance(1, 30) ? (u8)rng.Below(256) : base); break;
			case 4: if (!like.empty()) { const size_t at = rng.Below(like.size()), len = 1 + rng.Below(20); r.insert(r.end(), like.begin() + at, like.begin() + std::min(like.size(), at + len)); break; } r.push_back((u8)rng.Below(3)); break;
			default: { static const char* const words[] = { "the ", "quick ", "brown ", "fox ", "\xff\xfe", "\n" }; for (const char* w = words[rng.Below(6)]; *w; ++w) r.push_back((u8)*w); }
			}
		r.resize(std::min(r.size(), n)); return r;
	}
	std::string About(const Bytes& b) { return std::to_string(b.size()) + " bytes " + vh::Printable(std::string(b.begin(), b.begin() + std::min<size_t>(b.size(), 60))); }

	ICompressionDictionaryPtr Train(vh::Rng& rng, ICompressionDictionaryFactory& f, const Bytes& text, u64 seed)
	{
		vh::Rng r(seed); const ICompressionDictionaryBuilderPtr b = f.CreateBuilder(); size_t pos = 0; (void)rng;
		while (pos < text.size()) { const size_t n = 1 + r.Below(text.size() - pos); b->Process(ConstByteData(text.data() + pos, n)); pos += n; }
		return b->Finish();
	}

	std::string What(int how) { return how == 0 ? "truncation" : how == 1 ? "change of a bit" : how == 2 ? "something else" : "insertion"; }

	template < typename Config, typename Models > void Run(vh::Rng& rng, size_t trainMax, size_t textMax)
	{
		Bytes training = AnyText(rng, trainMax, Bytes()); while (rng.Chance(1, 2) && training.size() < trainMax / 2) { const Bytes more = AnyText(rng, trainMax / 2, training); training.insert(training.end(), more.begin(), more.end()); }
		// thresholds that leave room for the shortest contexts and, sometimes, for little more
		const size_t low = rng.Bool() ? 100000 : 8000 + rng.Below(4000), high = low + rng.Below(3000), final = rng.Bool() ? 100000 : 6000 + rng.Below(6000);
		PpmDictionaryFactory<Config, Models> factory(low, high, final);
		const ICompressionDictionaryPtr d1 = Train(rng, factory, training, rng.Next()), d2 = Train(rng, factory, training, rng.Next()); // two trainings with the same text
		vh_count("models", 2); vh_distinct("trainings", vh::HashStr(std::string(training.begin(), training.end())));
		for (int k = 0; k < 4 && !vh_violated(); ++k)
		{
			const Bytes text = AnyText(rng, textMax, training); const bool refuses = rng.Chance(1, 3); const std::string what = About(text) + " after training with " + About(training);
			Consumer packed(rng.Next(), refuses, text.size() * 6 + 64); bool ok = false;
			try { ok = Pump(*d1->Compress(make_shared_ptr<Source>(text, rng.Next())), packed, 200 + text.size() * 50); }
			catch (const Stop&) { VH_CHECK(false, "compression-without-end", what); return; }
			catch (const std::exception& e) { VH_CHECK(false, "compression-fails", what + ": " + e.what()); return; }
			VH_CHECK(ok, "compression-does-not-finish", what); if (!ok) return; vh_count("messages", 1); vh_count("bytes_compressed", text.size()); vh_distinct("packed", vh::HashStr(std::string(packed.Data.begin(), packed.Data.end())));
			Consumer back(rng.Next(), rng.Chance(1, 3), text.size() + 1000); ok = false; std::string error;
			try { ok = Pump(*(rng.Bool() ? d1 : d2)->Decompress(make_shared_ptr<Source>(packed.Data, rng.Next())), back, 200 + text.size() * 50); } catch (const Stop&) { error = "too much data"; } catch (const std::exception& e) { error = e.what(); }
			VH_CHECK(ok && back.Data == text, "round-trip", what + " packed to " + About(packed.Data) + (error.empty() ? " gives " + About(back.Data) : ": " + error));
			if (vh_violated()) return;
			if (training.size() <= 300 && (packed.Data.size() <= 60 || rng.Chance(1, 20)))
			{
				// damaged input
				Bytes bad = packed.Data; const int how = rng.Below(4); if (how == 0 || bad.empty()) bad.resize(rng.Below(bad.size() + 1)); else if (how == 1) bad[rng.Below(bad.size())] ^= (u8)(1 << rng.Below(8)); else if (how == 2) bad = AnyText(rng, 60, packed.Data); else bad.insert(bad.begin() + rng.Below(bad.size() + 1), (u8)rng.Below(256));
				const size_t cap = (training.size() + 300) * (bad.size() * 8 + 300); Consumer out(rng.Next(), false, cap); bool threw = false; ok = false;
				try { ok = Pump(*d2->Decompress(make_shared_ptr<Source>(bad, rng.Next())), out, cap + 1000); } catch (const Stop&) { } catch (const std::exception&) { threw = true; }
				VH_CHECK(ok || threw, "decompression-does-not-finish", What(how) + " of " + About(bad) + " after training with " + About(training) + ": " + std::to_string(out.Data.size()) + " bytes out"); vh_count("damaged_messages", 1); if (threw) vh_count("errors", 1);
			}
		}
	}
	typedef PpmConfig<u8, u32> Config;
	typedef TypeList<PpmModelConfig<0, u8>  > L0;
	typedef TypeList<PpmModelConfig<0, u16>  > L0w;
	typedef TypeList<PpmModelConfig<1, u8>, PpmModelConfig<0, u8>  > L1;
	typedef TypeList<PpmModelConfig<2, u16>, PpmModelConfig<1, u8>, PpmModelConfig<0, u16>  > L2;
	typedef TypeList<PpmModelConfig<4, u8>, PpmModelConfig<2, u16>, PpmModelConfig<1, u16>, PpmModelConfig<0, u8>  > L4;
}

VH_SCENARIO(short_messages) { switch (rng.Below(5)) { case 0: Run<Config, L0>(rng, 200, 40); break; case 1: Run<Config, L0w>(rng, 200, 40); break; case 2: Run<Config, L1>(rng, 200, 40); break; case 3: Run<Config, L2>(rng, 200, 40); break; default: Run<Config, L4>(rng, 200, 40); } }
VH_SCENARIO(long_messages) { switch (rng.Below(5)) { case 0: Run<Config, L0>(rng, 1500, 4000); break; case 1: Run<Config, L0w>(rng, 1500, 4000); break; case 2: Run<Config, L1>(rng, 1500, 4000); break; case 3: Run<Config, L2>(rng, 1500, 4000); break; default: Run<Config, L4>(rng, 1500, 4000); } }

// the end of the message falls on every bit of the buffer between the coder and the consumer
VH_SCENARIO(all_lengths)
{
	PpmDictionaryFactory<Config, L0> factory(100000, 100000, 100000); const Bytes training(1 + rng.Below(5), (u8)rng.Below(256)); const ICompressionDictionaryPtr d = Train(rng, factory, training, 1);
	Bytes text; const size_t n = 1006 + rng.Below(20); for (size_t i = 0; i < n; ++i) text.push_back(rng.Chance(1, 40) ? training[0] : (u8)rng.Below(256));
	Consumer packed(rng.Next(), false, 10000); bool ok = false; try { ok = Pump(*d->Compress(make_shared_ptr<Source>(text, rng.Next())), packed, 100000); } catch (const Stop&) { }
	VH_CHECK(ok, "compression-does-not-finish", std::to_string(n) + " bytes packed to more than " + std::to_string(packed.Data.size())); if (!ok) return;
	Consumer back(rng.Next(), false, 10000); ok = false; try { ok = Pump(*d->Decompress(make_shared_ptr<Source>(packed.Data, rng.Next())), back, 100000); } catch (const Stop&) { } catch (const std::exception&) { }
	VH_CHECK(ok && back.Data == text, "round-trip", std::to_string(n) + " bytes packed to " + std::to_string(packed.Data.size()) + " come back as " + std::to_string(back.Data.size())); vh_count("messages", 1); vh_distinct("packed_sizes", packed.Data.size());
}
