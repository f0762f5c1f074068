// Harness runtime interface. Implemented in vhcore.cpp, which is compiled without sanitizers so that the bookkeeping
// creates no happens-before edges and no scheduling points of its own.
#pragma once
#include <stdint.h>
#include <string.h>
#include <string>
#include <sstream>
#include <vector>
#include <functional>
#include <exception>

extern "C" {
	void vh_eval(uint64_t n);                                        // oracle evaluations
	void vh_count(const char* name, uint64_t n);                     // named event counter
	void vh_max(const char* name, uint64_t v);                       // named high-water mark
	void vh_distinct(const char* cls, uint64_t hash);                // distinct states/interleavings seen
	void vh_sample(const char* text);                                // keeps the first few per process
	void vh_violation(const char* key, const char* detail);          // records a violation (process goes on)
	int  vh_violated(void);                                          // violations recorded so far in this case
	uint64_t vh_seed(void);
	int  vh_thorough(void);
	const char* vh_tmpdir(void);

	// event log (total order; in controlled mode it is the real order of the events)
	struct vh_event { uint32_t type; uint32_t thread; int64_t a, b, c; };
	uint32_t vh_log(uint32_t type, int64_t a, int64_t b, int64_t c);
	uint32_t vh_log_size(void);
	const struct vh_event* vh_log_at(uint32_t i);
	void vh_log_clear(void);
	uint64_t vh_log_hash(void);
	void vh_progress(void);

	// controlled scheduler
	int  vs_self(void);              // small id of the calling controlled thread, -1 when uncontrolled
	int  vs_controlled(void);
	void vs_yield(void);             // explicit scheduling point
	uint64_t vs_now_ns(void);        // virtual monotonic clock (uncontrolled: real)
	void vs_begin(uint64_t seed, int flags);
	void vs_end(void);
	uint64_t vs_steps(void);
	int  vs_blocked_threads(void);   // threads of this run that are not finished
	int  vs_all_others_blocked(void);// 1 when no other controlled thread can run now (they are all blocked or finished)
	int  vs_finished_threads(void);
	void vs_settle(void);            // let the other threads run until none of them can (virtual time does not pass)
	void vs_advance_ns(uint64_t ns); // let virtual time pass (a sleep that ignores stingraykit)
	void vs_spurious(int den);       // one wait of den on a condition variable wakes spuriously (0: none)
	uint64_t vs_rand(void);          // schedule randomness
	void vs_noise(int permille, int max_us); // free-running mode: delay injection at wrapped operations
	const char* vs_wait_kind(int thread); // what the given controlled thread is blocked in ("run","mutex","cond",...)
}

namespace vh {

	struct Rng
	{
		uint64_t s[2];
		explicit Rng(uint64_t seed) { s[0] = Mix(seed); s[1] = Mix(seed + 0x9E3779B97F4A7C15ull) | 1; }
		static uint64_t Mix(uint64_t z)
		{ z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
		uint64_t Next()
		{ uint64_t a = s[0]; const uint64_t b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
		uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
		int64_t Range(int64_t lo, int64_t hi) { return lo + (int64_t)(Next() % (uint64_t)(hi - lo + 1)); }
		bool Chance(unsigned num, unsigned den) { return Below(den) < num; }
		bool Bool() { return Next() & 1; }
		template < typename T > const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
		// mixture of small, boundary and uniform values
		uint64_t Interesting()
		{
			switch (Below(8))
			{
			case 0: return Below(4);
			case 1: return Below(300);
			case 2: return (uint64_t)1 << Below(64);
			case 3: return ((uint64_t)1 << Below(64)) - 1;
			case 4: return ((uint64_t)1 << Below(64)) + 1;
			case 5: return ~(uint64_t)0 - Below(4);
			case 6: return Next() >> Below(64);
			default: return Next();
			}
		}
	};

	inline uint64_t Hash(uint64_t h, uint64_t v) { return Rng::Mix(h ^ (v * 0x9E3779B97F4A7C15ull)); }
	inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
	{ const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }
	inline uint64_t HashStr(const std::string& s) { return HashBytes(s.data(), s.size()); }

	inline void Violation(const std::string& key, const std::string& detail) { vh_violation(key.c_str(), detail.c_str()); }

	inline std::string Printable(const std::string& s)
	{
		std::string r; char b[8];
		for (size_t i = 0; i < s.size() && i < 400; ++i)
		{ unsigned char c = s[i]; if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { snprintf(b, sizeof(b), "\\x%02x", c); r += b; } }
		return r;
	}

	typedef std::function<void (Rng&)> CaseFunc;
	struct Scenario { const char* Name; void (*Func)(Rng&); int Sched; };   // Sched: 0 plain, 1 controlled, 2 free-running with noise, 3 controlled where time passes only when no thread can run
	std::vector<Scenario>& Scenarios();
	struct Registrar { Registrar(const char* n, void (*f)(Rng&), int sched) { Scenario s = { n, f, sched }; Scenarios().push_back(s); } };

	// Trace of the operations of the current case, shown with a violation
	struct Trace
	{
		std::ostringstream s;
		template < typename T > Trace& operator << (const T& t) { s << t; return *this; }
		std::string Str() const { std::string r = s.str(); if (r.size() > 3000) r = r.substr(0, 400) + " ... " + r.substr(r.size() - 2500); return r; }
	};
}

#define VH_SCENARIO(name_) static void vh_sc_##name_(vh::Rng& rng); static vh::Registrar vh_reg_##name_(#name_, &vh_sc_##name_, 0); static void vh_sc_##name_(vh::Rng& rng)
#define VH_SCHED_SCENARIO(name_) static void vh_sc_##name_(vh::Rng& rng); static vh::Registrar vh_reg_##name_(#name_, &vh_sc_##name_, 1); static void vh_sc_##name_(vh::Rng& rng)
#define VH_STRICT_SCENARIO(name_) static void vh_sc_##name_(vh::Rng& rng); static vh::Registrar vh_reg_##name_(#name_, &vh_sc_##name_, 3); static void vh_sc_##name_(vh::Rng& rng)
#define VH_FREE_SCENARIO(name_) static void vh_sc_##name_(vh::Rng& rng); static vh::Registrar vh_reg_##name_(#name_, &vh_sc_##name_, 2); static void vh_sc_##name_(vh::Rng& rng)

// Oracle: counts one evaluation; on failure records a violation with key_ and the streamed detail
#define VH_CHECK(cond_, key_, detail_) \
	do { vh_eval(1); if (!(cond_)) { std::ostringstream vh_os_; vh_os_ << detail_ << " [" << #cond_ << "]"; vh::Violation(key_, vh_os_.str()); } } while (0)
#define VH_CHECK_R(cond_, key_, detail_) \
	do { vh_eval(1); if (!(cond_)) { std::ostringstream vh_os_; vh_os_ << detail_ << " [" << #cond_ << "]"; vh::Violation(key_, vh_os_.str()); return; } } while (0)
