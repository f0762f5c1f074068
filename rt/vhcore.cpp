// Runtime of the harnesses: event bookkeeping, watchdog and controlled scheduler.
// This file is compiled WITHOUT sanitizers and keeps its data in static/mmap'ed memory guarded by raw atomics and futexes,
// so that it adds no happens-before edges that could hide a race from ThreadSanitizer.
//
// Controlled mode: all threads created after vs_begin() run one at a time. Every wrapped operation (mutex, condition,
// semaphore, once, thread, sleep, clock, static-initialisation guard and, in ThreadSanitizer builds, atomic operation)
// is a scheduling point where a seeded random scheduler decides who runs next. Blocking is modelled, so a deadlock is
// seen at once, and time is virtual: it passes when nobody can run (and, in some schedules, at random points).

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;

// ------------------------------------------------------------------------------------------------ bookkeeping

namespace {

	struct Spin
	{
		int v;
		void Lock() { while (__atomic_exchange_n(&v, 1, __ATOMIC_ACQUIRE)) __builtin_ia32_pause(); }
		void Unlock() { __atomic_store_n(&v, 0, __ATOMIC_RELEASE); }
	};
	struct SpinLock { Spin& s; explicit SpinLock(Spin& s_) : s(s_) { s.Lock(); } ~SpinLock() { s.Unlock(); } };

	inline u64 mix(u64 z)
	{ z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

	void* Map(size_t n)
	{
		void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { fprintf(stderr, "vhcore: mmap failed\n"); _exit(70); }
		return p;
	}

	struct Shared   // mmap'ed progress file, readable by the driver after a crash
	{
		char scenario[64];
		u64 case_index;
		u64 case_seed;
		u64 evals;
		u64 violations;
	};

	struct Counter { char name[64]; u64 value; int is_max; };
	const int MaxCounters = 512;
	Counter g_counters[MaxCounters];
	int g_counterCount;

	struct DistinctClass { char name[64]; u64* table; u64 cap; u64 count; };
	const int MaxDistinct = 64;
	DistinctClass g_distinct[MaxDistinct];
	int g_distinctCount;

	struct Viol { char key[192]; char detail[4096]; u64 case_index; u64 count; char scenario[64]; };
	const int MaxViol = 24;
	Viol g_viol[MaxViol];
	int g_violCount;
	int g_violThisCase;

	const int MaxSamples = 4;
	char g_samples[MaxSamples][1200];
	int g_sampleCount;

	Spin g_lock;
	u64 g_evals;
	u64 g_progress;
	Shared g_localShared;
	Shared* g_shared = &g_localShared;
	u64 g_seed = 1;
	int g_thorough;
	char g_outPath[512];
	char g_tmpDir[512];
	u64 g_hangSeconds = 60;

	struct vh_event_ { uint32_t type; uint32_t thread; int64_t a, b, c; };
	const uint32_t MaxLog = 1 << 20;
	vh_event_* g_log;
	uint32_t g_logSize;

	void JsonStr(FILE* f, const char* s)
	{
		fputc('"', f);
		for (; *s; ++s)
		{
			unsigned char c = *s;
			if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
			else if (c == '\n') fputs("\\n", f);
			else if (c == '\t') fputs("\\t", f);
			else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
			else fputc(c, f);
		}
		fputc('"', f);
	}
}

extern "C" {

	void vh_write_results(const char* status)
	{
		if (!g_outPath[0])
			return;
		char tmp[560];
		snprintf(tmp, sizeof(tmp), "%s.tmp", g_outPath);
		FILE* f = fopen(tmp, "w");
		if (!f)
			return;
		fprintf(f, "{\"status\":"); JsonStr(f, status);
		fprintf(f, ",\"evaluations\":%llu,\"counters\":{", (unsigned long long)__atomic_load_n(&g_evals, __ATOMIC_RELAXED));
		for (int i = 0; i < g_counterCount; ++i)
		{ if (i) fputc(',', f); JsonStr(f, g_counters[i].name); fprintf(f, ":[%llu,%d]", (unsigned long long)g_counters[i].value, g_counters[i].is_max); }
		fprintf(f, "},\"distinct\":{");
		for (int i = 0; i < g_distinctCount; ++i)
		{ if (i) fputc(',', f); JsonStr(f, g_distinct[i].name); fprintf(f, ":%llu", (unsigned long long)g_distinct[i].count); }
		fprintf(f, "},\"samples\":[");
		for (int i = 0; i < g_sampleCount; ++i)
		{ if (i) fputc(',', f); JsonStr(f, g_samples[i]); }
		fprintf(f, "],\"violations\":[");
		for (int i = 0; i < g_violCount; ++i)
		{
			if (i) fputc(',', f);
			fprintf(f, "{\"key\":"); JsonStr(f, g_viol[i].key);
			fprintf(f, ",\"detail\":"); JsonStr(f, g_viol[i].detail);
			fprintf(f, ",\"scenario\":"); JsonStr(f, g_viol[i].scenario);
			fprintf(f, ",\"case\":%llu,\"count\":%llu}", (unsigned long long)g_viol[i].case_index, (unsigned long long)g_viol[i].count);
		}
		fprintf(f, "]}\n");
		fclose(f);
		rename(tmp, g_outPath);
	}

	void vh_dump_hashes(void)
	{
		if (!g_outPath[0])
			return;
		for (int i = 0; i < g_distinctCount; ++i)
		{
			char path[700];
			snprintf(path, sizeof(path), "%s.h.%s", g_outPath, g_distinct[i].name);
			FILE* f = fopen(path, "wb");
			if (!f) return;
			u64 written = 0;
			for (u64 k = 0; k < g_distinct[i].cap && written < 400000; ++k)
				if (g_distinct[i].table[k]) { fwrite(&g_distinct[i].table[k], 8, 1, f); ++written; }
			fclose(f);
		}
	}

	void vh_eval(u64 n) { __atomic_fetch_add(&g_evals, n, __ATOMIC_RELAXED); }
	void vh_progress(void) { __atomic_fetch_add(&g_progress, 1, __ATOMIC_RELAXED); }

	// No library calls on these tables: TSan intercepts them and would see the uninstrumented lock as a race.
	static int SameName(const char* a, const char* b)
	{ while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
	static void CopyName(char* to, const char* from, u64 size)
	{ u64 i = 0; for (; i + 1 < size && from[i]; ++i) ((volatile char*)to)[i] = from[i]; ((volatile char*)to)[i] = 0; }

	static Counter* GetCounter(const char* name, int is_max)
	{
		for (int i = 0; i < g_counterCount; ++i)
			if (SameName(g_counters[i].name, name))
				return &g_counters[i];
		if (g_counterCount == MaxCounters)
			return &g_counters[MaxCounters - 1];
		Counter* c = &g_counters[g_counterCount++];
		CopyName(c->name, name, sizeof(c->name));
		c->is_max = is_max;
		return c;
	}
	void vh_count(const char* name, u64 n) { SpinLock l(g_lock); GetCounter(name, 0)->value += n; }
	void vh_max(const char* name, u64 v) { SpinLock l(g_lock); Counter* c = GetCounter(name, 1); if (c->value < v) c->value = v; }

	void vh_distinct(const char* cls, u64 h)
	{
		SpinLock l(g_lock);
		DistinctClass* d = 0;
		for (int i = 0; i < g_distinctCount; ++i)
			if (SameName(g_distinct[i].name, cls))
				d = &g_distinct[i];
		if (!d)
		{
			if (g_distinctCount == MaxDistinct)
				return;
			d = &g_distinct[g_distinctCount++];
			CopyName(d->name, cls, sizeof(d->name));
			d->cap = 1 << 21;
			d->table = (u64*)Map(d->cap * sizeof(u64));
		}
		if (!h) h = 1;
		if (d->count * 10 > d->cap * 8)
			return;
		for (u64 i = mix(h) & (d->cap - 1); ; i = (i + 1) & (d->cap - 1))
		{
			if (d->table[i] == h) return;
			if (!d->table[i]) { d->table[i] = h; ++d->count; return; }
		}
	}

	void vh_sample(const char* text)
	{ SpinLock l(g_lock); if (g_sampleCount < MaxSamples) CopyName(g_samples[g_sampleCount++], text, sizeof(g_samples[0])); }
	int vh_sample_wanted(void) { return g_sampleCount < MaxSamples; }

	void vh_violation(const char* key, const char* detail)
	{
		SpinLock l(g_lock);
		char keyName[sizeof(g_viol[0].key)];
		CopyName(keyName, key, sizeof(keyName));
		++g_violThisCase;
		++g_shared->violations;
		for (int i = 0; i < g_violCount; ++i)
			if (SameName(g_viol[i].key, keyName)) { ++g_viol[i].count; return; }
		if (g_violCount == MaxViol)
			return;
		Viol* v = &g_viol[g_violCount++];
		CopyName(v->key, key, sizeof(v->key));
		CopyName(v->detail, detail, sizeof(v->detail));
		CopyName(v->scenario, g_shared->scenario, sizeof(v->scenario));
		v->case_index = g_shared->case_index;
		v->count = 1;
		fprintf(stderr, "VH-VIOLATION\t%s\t[%s #%llu]\t%s\n", key, g_shared->scenario, (unsigned long long)g_shared->case_index, v->detail);
	}
	int vh_violated(void) { return g_violThisCase; }
	int vh_violation_total(void) { return g_violCount; }

	u64 vh_seed(void) { return g_seed; }
	int vh_thorough(void) { return g_thorough; }
	const char* vh_tmpdir(void) { return g_tmpDir; }

	void vh_set(u64 seed, int thorough, const char* out, const char* progress, const char* tmpdir, u64 hang)
	{
		g_seed = seed; g_thorough = thorough; g_hangSeconds = hang;
		snprintf(g_outPath, sizeof(g_outPath), "%s", out);
		snprintf(g_tmpDir, sizeof(g_tmpDir), "%s", tmpdir);
		if (!g_log)
			g_log = (vh_event_*)Map(sizeof(vh_event_) * MaxLog);
		if (progress[0])
		{
			int fd = open(progress, O_RDWR | O_CREAT | O_TRUNC, 0644);
			if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0)
			{
				void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
				if (p != MAP_FAILED)
					g_shared = (Shared*)p;
			}
			if (fd >= 0) close(fd);
		}
	}
	void vh_case(const char* scenario, u64 index, u64 seed)
	{
		snprintf(g_shared->scenario, sizeof(g_shared->scenario), "%s", scenario);
		g_shared->case_index = index;
		g_shared->case_seed = seed;
		g_shared->evals = g_evals;
		g_violThisCase = 0;
		vh_progress();
	}
	u64 vh_case_index(void) { return g_shared->case_index; }
}

// ------------------------------------------------------------------------------------------------ controlled scheduler

#define REAL(ret_, name_, ...) extern "C" ret_ __real_##name_(__VA_ARGS__)
REAL(int, pthread_mutex_lock, pthread_mutex_t*);
REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const timespec*);
REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec*);
REAL(int, pthread_cond_signal, pthread_cond_t*);
REAL(int, pthread_cond_broadcast, pthread_cond_t*);
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
REAL(int, pthread_join, pthread_t, void**);
REAL(int, pthread_once, pthread_once_t*, void (*)());
REAL(int, sem_wait, sem_t*);
REAL(int, sem_trywait, sem_t*);
REAL(int, sem_timedwait, sem_t*, const timespec*);
REAL(int, sem_post, sem_t*);
REAL(int, nanosleep, const timespec*, timespec*);
REAL(int, usleep, useconds_t);
REAL(int, sched_yield, void);
REAL(int, clock_gettime, clockid_t, timespec*);
REAL(int, gettimeofday, timeval*, void*);
REAL(int, __cxa_guard_acquire, u64*);
REAL(void, __cxa_guard_release, u64*);
REAL(void, __cxa_guard_abort, u64*);

namespace {

	enum State { Free, Runnable, BMutex, BCond, BSem, BJoin, BOnce, BGuard, BSleep, BSettle, Finished };
	const char* StateNames[] = { "free", "run", "mutex", "cond", "sem", "join", "once", "guard", "sleep", "settle", "finished" };

	struct T
	{
		int id;
		int state;
		const void* obj;
		u64 deadline;        // 0: none
		int timedOut;
		int futex;
		pthread_t pt;
		int ptValid;
		u64 prio;
		u64 lastSteps;       // steps since the last context switch
		void* (*fn)(void*);
		void* arg;
		int keyIter;
		int detached;
		u64 born;
	};

	const int MaxT = 256;
	T g_t[MaxT];
	__thread T* me;
	int g_controlled;
	int g_running;                 // id of the running controlled thread
	u64 g_rng;
	u64 g_vnow = 1000000ull * 1000000000ull;
	const u64 RealtimeOffset = 1600000000ull * 1000000000ull;
	u64 g_steps, g_switches, g_traceHash, g_stepLimit = 3000000, g_born;
	int g_strategy;                // 0 random walk, 1 priorities
	u64 g_switchDen, g_timeDen, g_prioDen, g_spuriousDen;
	int g_flags;
	pthread_key_t g_key;
	int g_keyCreated;
	int g_noisePermille, g_noiseUs;

	u64 Rnd() { u64 x = g_rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; g_rng = x; return x * 0x2545F4914F6CDD1Dull; }
	u64 RndBelow(u64 n) { return (Rnd() >> 11) % n; }

	int g_maxT = 0;   // slots in use so far

	void FutexWait(int* f)
	{
		while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
			syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
		__atomic_store_n(f, 0, __ATOMIC_RELEASE);
	}
	void FutexWake(int* f)
	{
		__atomic_store_n(f, 1, __ATOMIC_RELEASE);
		syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
	}

	void Describe(char* buf, size_t n)
	{
		size_t p = 0;
		for (int i = 0; i < g_maxT && p + 80 < n; ++i)
			if (g_t[i].state != Free && g_t[i].state != Finished)
				p += snprintf(buf + p, n - p, " T%d:%s(%p)%s", i, StateNames[g_t[i].state], g_t[i].obj, g_t[i].deadline ? " timed" : "");
	}

	void Stuck(const char* key)
	{
		char buf[2048] = "";
		Describe(buf, sizeof(buf));
		char detail[4096];
		size_t p = snprintf(detail, sizeof(detail), "no controlled thread can ever run again, or the step limit was exceeded:%s; steps=%llu; last events:", buf, (unsigned long long)g_steps);
		uint32_t from = g_logSize > 60 ? g_logSize - 60 : 0;
		for (uint32_t i = from; i < g_logSize && p + 80 < sizeof(detail); ++i)
			p += snprintf(detail + p, sizeof(detail) - p, " (%u t%u %lld %lld)", g_log[i].type, g_log[i].thread, (long long)g_log[i].a, (long long)g_log[i].b);
		vh_violation(key, detail);
		vh_write_results("stuck");
		_exit(3);
	}

	// picks the next thread to run; the caller has set its own state
	T* Pick(T* self, int force)
	{
		for (;;)
		{
			// let time pass at random
			int settling = 0;
			for (int i = 0; i < g_maxT; ++i)
				settling |= g_t[i].state == BSettle;
			if (g_timeDen && !settling && RndBelow(g_timeDen) == 0)
			{
				T* best = 0;
				for (int i = 0; i < g_maxT; ++i)
					if (g_t[i].deadline && g_t[i].state >= BMutex && g_t[i].state <= BSleep && (!best || g_t[i].deadline < best->deadline))
						best = &g_t[i];
				if (best)
				{
					if (best->deadline > g_vnow) g_vnow = best->deadline;
					best->deadline = 0; best->timedOut = 1; best->state = Runnable;
				}
			}

			T* runnable[MaxT];
			int n = 0;
			for (int i = 0; i < g_maxT; ++i)
				if (g_t[i].state == Runnable)
					runnable[n++] = &g_t[i];

			if (n == 0)
			{
				for (int i = 0; i < g_maxT; ++i)
					if (g_t[i].state == BSettle)
					{ g_t[i].state = Runnable; return &g_t[i]; }

				T* best = 0;
				for (int i = 0; i < g_maxT; ++i)
					if (g_t[i].deadline && g_t[i].state >= BMutex && g_t[i].state <= BSleep && (!best || g_t[i].deadline < best->deadline))
						best = &g_t[i];
				if (!best)
					Stuck("deadlock");
				if (best->deadline > g_vnow) g_vnow = best->deadline;
				best->deadline = 0; best->timedOut = 1; best->state = Runnable;
				continue;
			}

			if (n == 1)
				return runnable[0];

			if (g_strategy == 0)
			{
				if (self->state == Runnable && !force && RndBelow(g_switchDen) != 0 && self->lastSteps < 20000)
					return self;
				for (;;)
				{
					T* t = runnable[RndBelow(n)];
					if (t != self || !force)
						return t;
				}
			}

			if (self->state == Runnable && (force || self->lastSteps > 2000 || RndBelow(g_prioDen) == 0))
			{
				// demote below everybody
				u64 low = ~0ull;
				for (int i = 0; i < n; ++i)
					if (runnable[i]->prio < low) low = runnable[i]->prio;
				self->prio = low ? low - 1 : 0;
				if (low == 0)
					for (int i = 0; i < g_maxT; ++i)
						if (&g_t[i] != self) g_t[i].prio += 1000;
				self->lastSteps = 0;
			}
			T* best = runnable[0];
			for (int i = 1; i < n; ++i)
				if (runnable[i]->prio > best->prio)
					best = runnable[i];
			return best;
		}
	}

	void SwitchTo(T* self, T* next, int wait)
	{
		if (next == self)
			return;
		++g_switches;
		self->lastSteps = 0;
		g_traceHash = mix(g_traceHash ^ (((u64)next->id << 32) | (g_steps & 0xffffffff)));
		g_running = next->id;
		FutexWake(&next->futex);
		if (wait)
			FutexWait(&self->futex);
	}

	void Point(int force)
	{
		T* self = me;
		++self->lastSteps;
		if (++g_steps > g_stepLimit)
			Stuck("livelock");
		if ((g_steps & 1023) == 0)
			vh_progress();
		// fast path for the random walk
		if (!force && g_strategy == 0 && self->lastSteps < 20000 && (!g_timeDen || g_timeDen > 1))
		{
			u64 r = Rnd() >> 11;
			if (r % g_switchDen != 0)
				return;
			SwitchTo(self, Pick(self, 1), 1);
			return;
		}
		SwitchTo(self, Pick(self, force), 1);
	}

	// returns 1 when the deadline fired
	int Block(int state, const void* obj, u64 deadline)
	{
		T* self = me;
		self->state = state;
		self->obj = obj;
		self->deadline = deadline;
		self->timedOut = 0;
		++g_steps;
		if (g_steps > g_stepLimit)
			Stuck("livelock");
		T* next = Pick(self, 0);
		SwitchTo(self, next, 1);
		self->deadline = 0;
		self->obj = 0;
		return self->timedOut;
	}

	void WakeAll(int state, const void* obj)
	{
		for (int i = 0; i < g_maxT; ++i)
			if (g_t[i].state == state && g_t[i].obj == obj)
			{ g_t[i].state = Runnable; g_t[i].deadline = 0; g_t[i].timedOut = 0; }
	}

	// modelled ownership of mutexes, once flags and static guards
	struct Node { const void* addr; int owner; int count; Node* next; };
	const int Buckets = 4096;
	Node* g_buckets[Buckets];
	Node g_pool[16384];
	int g_poolUsed;
	Node* g_freeNodes;

	Node* Find(const void* a, int create)
	{
		Node** b = &g_buckets[mix((u64)a) & (Buckets - 1)];
		for (Node* n = *b; n; n = n->next)
			if (n->addr == a) return n;
		if (!create) return 0;
		Node* n = g_freeNodes;
		if (n) g_freeNodes = n->next;
		else
		{
			if (g_poolUsed == 16384) { fprintf(stderr, "vhcore: lock table full\n"); _exit(70); }
			n = &g_pool[g_poolUsed++];
		}
		n->addr = a; n->owner = -1; n->count = 0; n->next = *b; *b = n;
		return n;
	}
	void Drop(const void* a)
	{
		Node** b = &g_buckets[mix((u64)a) & (Buckets - 1)];
		for (; *b; b = &(*b)->next)
			if ((*b)->addr == a)
			{ Node* n = *b; *b = n->next; n->next = g_freeNodes; g_freeNodes = n; return; }
	}

	inline bool Ctl() { return g_controlled && me; }

	u64 DeadlineOf(const timespec* t)
	{
		u64 ns = (u64)t->tv_sec * 1000000000ull + t->tv_nsec;
		if ((int64_t)t->tv_sec < 0) return 1;
		if (t->tv_sec > 9000000000ll) return ~0ull >> 1;
		if (ns >= RealtimeOffset) ns -= RealtimeOffset;
		return ns ? ns : 1;
	}

	void ModelLock(pthread_mutex_t* m)
	{
		for (;;)
		{
			Node* n = Find(m, 1);
			if (n->owner == -1 || n->owner == me->id)
			{ n->owner = me->id; ++n->count; return; }
			Block(BMutex, m, 0);
		}
	}
	void ModelUnlock(pthread_mutex_t* m)
	{
		Node* n = Find(m, 0);
		if (!n || n->owner != me->id)
			return;
		if (--n->count == 0)
		{ Drop(m); WakeAll(BMutex, m); }
	}

	void Noise()
	{
		if (!g_noisePermille)
			return;
		static __thread u64 rng;
		if (!rng) rng = mix(g_seed ^ (u64)pthread_self() ^ g_shared->case_seed) | 1;
		rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
		u64 r = rng * 0x2545F4914F6CDD1Dull >> 11;
		if ((int)(r % 1000) >= g_noisePermille)
			return;
		r /= 1000;
		if (r % 3 == 0) { __real_sched_yield(); return; }
		timespec ts = { 0, (long)((r / 3) % ((u64)g_noiseUs + 1)) * 1000 };
		__real_nanosleep(&ts, 0);
	}

	void KeyDtor(void* p)
	{
		T* t = (T*)p;
		if (++t->keyIter < 2)
		{ pthread_setspecific(g_key, t); return; }
		// the thread is gone as far as the scheduler is concerned
		t->state = t->detached ? Free : Finished;
		WakeAll(BJoin, t);
		me = 0;
		T* next = Pick(t, 0);
		++g_switches;
		g_traceHash = mix(g_traceHash ^ (((u64)next->id << 32) | (g_steps & 0xffffffff)));
		g_running = next->id;
		FutexWake(&next->futex);
	}

	void* Trampoline(void* p)
	{
		T* t = (T*)p;
		me = t;
		FutexWait(&t->futex);
		pthread_setspecific(g_key, t);
		return t->fn(t->arg);
	}

	T* NewT()
	{
		for (int i = 0; i < MaxT; ++i)
			if (g_t[i].state == Free)
			{
				T* t = &g_t[i];
				memset(t, 0, sizeof(*t));
				t->id = i;
				if (i >= g_maxT) g_maxT = i + 1;
				t->prio = 1000 + RndBelow(1000000);
				t->born = ++g_born;
				return t;
			}
		fprintf(stderr, "vhcore: too many threads\n");
		_exit(70);
	}

	void* Watchdog(void*)
	{
		u64 last = ~0ull, idle = 0;
		for (;;)
		{
			timespec ts = { 1, 0 };
			__real_nanosleep(&ts, 0);
			u64 p = __atomic_load_n(&g_progress, __ATOMIC_RELAXED) + __atomic_load_n(&g_evals, __ATOMIC_RELAXED);
			if (p != last) { last = p; idle = 0; }
			else if (++idle >= g_hangSeconds)
			{
				char buf[2048] = "";
				if (g_controlled) Describe(buf, sizeof(buf));
				fprintf(stderr, "VH-HANG scenario %s case %llu:%s\n", g_shared->scenario, (unsigned long long)g_shared->case_index, buf);
				vh_write_results("hang");
				_exit(77);
			}
		}
		return 0;
	}
}

extern "C" {

	void vh_start_watchdog(void)
	{
		pthread_attr_t a;
		pthread_attr_init(&a);
		pthread_attr_setstacksize(&a, 256 * 1024);
		pthread_t t;
		__real_pthread_create(&t, &a, &Watchdog, 0);
		pthread_detach(t);
	}

	uint32_t vh_log(uint32_t type, int64_t a, int64_t b, int64_t c)
	{
		uint32_t i = __atomic_fetch_add(&g_logSize, 1, __ATOMIC_RELAXED);
		if (i >= MaxLog) return i;
		vh_event_ e = { type, (uint32_t)(me ? me->id : (int)(syscall(SYS_gettid) & 0xffff) + 1000), a, b, c };
		g_log[i] = e;
		return i;
	}
	uint32_t vh_log_size(void) { uint32_t n = __atomic_load_n(&g_logSize, __ATOMIC_RELAXED); return n < MaxLog ? n : MaxLog; }
	const struct vh_event_* vh_log_at(uint32_t i) { return &g_log[i]; }
	void vh_log_clear(void) { g_logSize = 0; }
	u64 vh_log_hash(void)
	{
		u64 h = 7;
		for (uint32_t i = 0; i < g_logSize && i < MaxLog; ++i)
			h = mix(h ^ mix(g_log[i].type * 1000003ull + g_log[i].thread) ^ mix((u64)g_log[i].a * 31 + (u64)g_log[i].b));
		return h;
	}

	int vs_self(void) { return Ctl() ? me->id : -1; }
	int vs_controlled(void) { return Ctl(); }
	u64 vs_steps(void) { return g_steps; }
	u64 vs_rand(void) { return Rnd(); }
	const char* vs_wait_kind(int i) { return StateNames[g_t[i].state]; }
	void vs_noise(int permille, int max_us) { g_noisePermille = permille; g_noiseUs = max_us; }

	u64 vs_now_ns(void)
	{
		if (Ctl()) return g_vnow;
		timespec ts; __real_clock_gettime(CLOCK_MONOTONIC, &ts);
		return (u64)ts.tv_sec * 1000000000ull + ts.tv_nsec;
	}

	void vs_yield(void)
	{
		if (!Ctl()) { Noise(); return; }
		Point(0);
	}

	int vs_blocked_threads(void)
	{
		int n = 0;
		for (int i = 0; i < g_maxT; ++i)
			if (&g_t[i] != me && g_t[i].state != Free && g_t[i].state != Finished) ++n;
		return n;
	}
	int vs_finished_threads(void)
	{ int n = 0; for (int i = 0; i < g_maxT; ++i) if (g_t[i].state == Finished) ++n; return n; }
	int vs_all_others_blocked(void)
	{
		for (int i = 0; i < g_maxT; ++i)
			if (&g_t[i] != me && g_t[i].state == Runnable) return 0;
		return 1;
	}

	void vs_settle(void)
	{
		if (!Ctl()) return;
		Block(BSettle, 0, 0);
	}
	void vs_advance_ns(u64 ns)
	{
		if (!Ctl()) { timespec ts = { (time_t)(ns / 1000000000ull), (long)(ns % 1000000000ull) }; __real_nanosleep(&ts, 0); return; }
		Block(BSleep, 0, g_vnow + (ns ? ns : 1));
	}

	// flags: 1 = time passes only when nobody can run; 2 = random walk only; 4 = priorities only
	void vs_begin(u64 seed, int flags)
	{
		if (!g_keyCreated) { pthread_key_create(&g_key, &KeyDtor); g_keyCreated = 1; }
		g_rng = mix(seed) | 1;
		g_flags = flags;
		g_steps = g_switches = 0;
		g_traceHash = 0;
		static const u64 dens[] = { 2, 3, 6, 12, 30, 80 };
		static const u64 tdens[] = { 0, 0, 400, 60, 12 };
		static const u64 pdens[] = { 8, 25, 60, 200 };
		g_strategy = (flags & 2) ? 0 : (flags & 4) ? 1 : (int)RndBelow(2);
		g_switchDen = dens[RndBelow(6)];
		g_timeDen = (flags & 1) ? (RndBelow(5), 0) : tdens[RndBelow(5)];
		g_prioDen = pdens[RndBelow(4)];
		static const char* spurious = getenv("VERIF_SPURIOUS");
		g_spuriousDen = spurious ? atoi(spurious) : 0;
		if (!me)
		{
			me = NewT();
			me->pt = pthread_self();
			me->ptValid = 1;
		}
		me->state = Runnable;
		for (int i = 0; i < g_maxT; ++i)
			g_t[i].prio = 1000 + RndBelow(1000000);
		g_running = me->id;
		g_controlled = 1;
	}

	void vs_spurious(int den)
	{ g_spuriousDen = den; }

	void vs_end(void)
	{
		vh_distinct("interleavings", g_traceHash);
		vh_count("schedule_points", g_steps);
		vh_count("context_switches", g_switches);
		vh_count("controlled_runs", 1);
		g_controlled = 0;
	}

	// ---- wrapped operations

	int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
	{
		if (!Ctl()) { Noise(); return __real_pthread_mutex_lock(m); }
		Point(0);
		ModelLock(m);
		return __real_pthread_mutex_lock(m);
	}
	int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
	{
		if (!Ctl()) { Noise(); return __real_pthread_mutex_timedlock(m, t); }
		Point(0);
		ModelLock(m);
		return __real_pthread_mutex_lock(m);
	}
	int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
	{
		if (!Ctl()) { Noise(); return __real_pthread_mutex_trylock(m); }
		Point(0);
		Node* n = Find(m, 0);
		if (n && n->owner != -1 && n->owner != me->id)
			return EBUSY;
		int r = __real_pthread_mutex_trylock(m);
		if (r == 0)
		{ n = Find(m, 1); n->owner = me->id; ++n->count; }
		return r;
	}
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
	{
		if (!Ctl()) { int r = __real_pthread_mutex_unlock(m); Noise(); return r; }
		int r = __real_pthread_mutex_unlock(m);
		ModelUnlock(m);
		Point(0);
		return r;
	}

	static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline)
	{
		Point(0);
		if (deadline && deadline <= g_vnow)
		{
			// expired already: let the others take the mutex, as the native call does
			__real_pthread_mutex_unlock(m);
			ModelUnlock(m);
			Point(0);
			ModelLock(m);
			__real_pthread_mutex_lock(m);
			return ETIMEDOUT;
		}
		__real_pthread_mutex_unlock(m);
		ModelUnlock(m);
		int to = 0;
		if (g_spuriousDen && RndBelow(g_spuriousDen) == 0)
			Point(1);             // a spurious wake-up, which the native call is allowed
		else
			to = Block(BCond, c, deadline);
		ModelLock(m);
		__real_pthread_mutex_lock(m);
		return to ? ETIMEDOUT : 0;
	}
	int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
	{
		if (!Ctl()) { Noise(); return __real_pthread_cond_wait(c, m); }
		return CondWait(c, m, 0);
	}
	int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
	{
		if (!Ctl()) { Noise(); return __real_pthread_cond_timedwait(c, m, t); }
		if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
		return CondWait(c, m, DeadlineOf(t));
	}
	int __wrap_pthread_cond_signal(pthread_cond_t* c)
	{
		if (!Ctl()) { Noise(); return __real_pthread_cond_signal(c); }
		Point(0);
		T* w[MaxT]; int n = 0;
		for (int i = 0; i < g_maxT; ++i)
			if (g_t[i].state == BCond && g_t[i].obj == c) w[n++] = &g_t[i];
		if (n) { T* t = w[RndBelow(n)]; t->state = Runnable; t->deadline = 0; t->timedOut = 0; }
		return __real_pthread_cond_signal(c);
	}
	int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
	{
		if (!Ctl()) { Noise(); return __real_pthread_cond_broadcast(c); }
		Point(0);
		WakeAll(BCond, c);
		return __real_pthread_cond_broadcast(c);
	}

	int __wrap_pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
	{
		if (!Ctl()) { Noise(); return __real_pthread_create(id, a, fn, arg); }
		T* t = NewT();
		t->fn = fn; t->arg = arg;
		t->state = Runnable;
		int r = __real_pthread_create(&t->pt, a, &Trampoline, t);
		if (r != 0) { t->state = Free; return r; }
		t->ptValid = 1;
		*id = t->pt;
		Point(0);
		return 0;
	}
	int __wrap_pthread_join(pthread_t id, void** ret)
	{
		if (!Ctl()) return __real_pthread_join(id, ret);
		Point(0);
		T* t = 0;
		for (int i = 0; i < g_maxT; ++i)
			if (g_t[i].state != Free && g_t[i].ptValid && pthread_equal(g_t[i].pt, id) && &g_t[i] != me) t = &g_t[i];
		if (t)
			while (t->state != Finished)
				Block(BJoin, t, 0);
		int r = __real_pthread_join(id, ret);
		if (t) t->state = Free;
		return r;
	}
	int __wrap_pthread_once(pthread_once_t* o, void (*f)())
	{
		if (!Ctl()) { Noise(); return __real_pthread_once(o, f); }
		Point(0);
		for (;;)
		{
			Node* n = Find(o, 0);
			if (!n || n->owner == -1 || n->owner == me->id) break;
			Block(BOnce, o, 0);
		}
		Node* n = Find(o, 1);
		bool outer = n->count == 0;
		n->owner = me->id; n->count = 1;
		int r = __real_pthread_once(o, f);
		if (outer) { Drop(o); WakeAll(BOnce, o); }
		return r;
	}
	int __wrap___cxa_guard_acquire(u64* g)
	{
		if (!Ctl()) return __real___cxa_guard_acquire(g);
		for (;;)
		{
			Node* n = Find(g, 0);
			if (!n || n->owner == me->id) break;
			Block(BGuard, g, 0);
		}
		int r = __real___cxa_guard_acquire(g);
		if (r) { Node* n = Find(g, 1); n->owner = me->id; n->count = 1; }
		return r;
	}
	void __wrap___cxa_guard_release(u64* g)
	{
		__real___cxa_guard_release(g);
		if (Ctl() && Find(g, 0)) { Drop(g); WakeAll(BGuard, g); }
	}
	void __wrap___cxa_guard_abort(u64* g)
	{
		__real___cxa_guard_abort(g);
		if (Ctl() && Find(g, 0)) { Drop(g); WakeAll(BGuard, g); }
	}

	int __wrap_sem_wait(sem_t* s)
	{
		if (!Ctl()) { Noise(); return __real_sem_wait(s); }
		Point(0);
		while (__real_sem_trywait(s) != 0)
			Block(BSem, s, 0);
		return 0;
	}
	int __wrap_sem_trywait(sem_t* s)
	{
		if (!Ctl()) { Noise(); return __real_sem_trywait(s); }
		Point(0);
		return __real_sem_trywait(s);
	}
	int __wrap_sem_timedwait(sem_t* s, const timespec* t)
	{
		if (!Ctl()) { Noise(); return __real_sem_timedwait(s, t); }
		Point(0);
		u64 d = DeadlineOf(t);
		for (;;)
		{
			if (__real_sem_trywait(s) == 0) return 0;
			if (d <= g_vnow) { errno = ETIMEDOUT; return -1; }
			Block(BSem, s, d);
		}
	}
	int __wrap_sem_post(sem_t* s)
	{
		if (!Ctl()) { Noise(); return __real_sem_post(s); }
		Point(0);
		int r = __real_sem_post(s);
		WakeAll(BSem, s);
		return r;
	}

	int __wrap_nanosleep(const timespec* req, timespec* rem)
	{
		if (!Ctl()) return __real_nanosleep(req, rem);
		u64 ns = (u64)req->tv_sec * 1000000000ull + req->tv_nsec;
		if (ns == 0) { Point(1); return 0; }
		Block(BSleep, 0, g_vnow + ns);
		return 0;
	}
	int __wrap_usleep(useconds_t us)
	{
		if (!Ctl()) return __real_usleep(us);
		if (us == 0) { Point(1); return 0; }
		Block(BSleep, 0, g_vnow + (u64)us * 1000);
		return 0;
	}
	int __wrap_sched_yield(void)
	{
		if (!Ctl()) return __real_sched_yield();
		Point(1);
		return 0;
	}
	int __wrap_clock_gettime(clockid_t c, timespec* ts)
	{
		if (!Ctl() || (c != CLOCK_MONOTONIC && c != CLOCK_REALTIME)) return __real_clock_gettime(c, ts);
		g_vnow += 100;
		u64 t = g_vnow + (c == CLOCK_REALTIME ? RealtimeOffset : 0);
		ts->tv_sec = t / 1000000000ull;
		ts->tv_nsec = t % 1000000000ull;
		return 0;
	}
	int __wrap_gettimeofday(timeval* tv, void* tz)
	{
		if (!Ctl()) return __real_gettimeofday(tv, tz);
		g_vnow += 100;
		u64 t = g_vnow + RealtimeOffset;
		tv->tv_sec = t / 1000000000ull;
		tv->tv_usec = t % 1000000000ull / 1000;
		return 0;
	}

#ifdef VH_TSAN
#define ATOMICS(bits_, type_) \
	type_ __real___tsan_atomic##bits_##_load(const volatile type_*, int); \
	type_ __wrap___tsan_atomic##bits_##_load(const volatile type_* a, int mo) { if (Ctl()) Point(0); else Noise(); return __real___tsan_atomic##bits_##_load(a, mo); } \
	void __real___tsan_atomic##bits_##_store(volatile type_*, type_, int); \
	void __wrap___tsan_atomic##bits_##_store(volatile type_* a, type_ v, int mo) { if (Ctl()) Point(0); else Noise(); __real___tsan_atomic##bits_##_store(a, v, mo); } \
	RMW(bits_, type_, exchange) RMW(bits_, type_, fetch_add) RMW(bits_, type_, fetch_sub) RMW(bits_, type_, fetch_and) RMW(bits_, type_, fetch_or) RMW(bits_, type_, fetch_xor) \
	int __real___tsan_atomic##bits_##_compare_exchange_strong(volatile type_*, type_*, type_, int, int); \
	int __wrap___tsan_atomic##bits_##_compare_exchange_strong(volatile type_* a, type_* c, type_ v, int mo, int fmo) { if (Ctl()) Point(0); else Noise(); return __real___tsan_atomic##bits_##_compare_exchange_strong(a, c, v, mo, fmo); } \
	int __real___tsan_atomic##bits_##_compare_exchange_weak(volatile type_*, type_*, type_, int, int); \
	int __wrap___tsan_atomic##bits_##_compare_exchange_weak(volatile type_* a, type_* c, type_ v, int mo, int fmo) { if (Ctl()) Point(0); else Noise(); return __real___tsan_atomic##bits_##_compare_exchange_weak(a, c, v, mo, fmo); } \
	type_ __real___tsan_atomic##bits_##_compare_exchange_val(volatile type_*, type_, type_, int, int); \
	type_ __wrap___tsan_atomic##bits_##_compare_exchange_val(volatile type_* a, type_ c, type_ v, int mo, int fmo) { if (Ctl()) Point(0); else Noise(); return __real___tsan_atomic##bits_##_compare_exchange_val(a, c, v, mo, fmo); }
#define RMW(bits_, type_, op_) \
	type_ __real___tsan_atomic##bits_##_##op_(volatile type_*, type_, int); \
	type_ __wrap___tsan_atomic##bits_##_##op_(volatile type_* a, type_ v, int mo) { if (Ctl()) Point(0); else Noise(); return __real___tsan_atomic##bits_##_##op_(a, v, mo); }
	ATOMICS(8, uint8_t)
	ATOMICS(16, uint16_t)
	ATOMICS(32, uint32_t)
	ATOMICS(64, uint64_t)
#endif
}
