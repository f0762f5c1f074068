// Helpers for concurrent harnesses.
#pragma once
#include "vh.h"
#include <pthread.h>
#include <deque>
#include <memory>

namespace vs {

	// A plain pthread (its creation and join are scheduling points in controlled mode).
	class Thread
	{
		struct Data { std::function<void ()> f; };
		pthread_t _t; bool _joined; std::unique_ptr<Data> _d;
		static void* Run(void* p) { ((Data*)p)->f(); return 0; }
	public:
		template < typename F > explicit Thread(const F& f) : _joined(false), _d(new Data{ f }) { pthread_create(&_t, 0, &Thread::Run, _d.get()); }
		void Join() { if (!_joined) { _joined = true; pthread_join(_t, 0); } }
		~Thread() { Join(); }
		Thread(const Thread&) = delete;
	};

	class Threads
	{
		std::deque<std::unique_ptr<Thread> > _t;
	public:
		template < typename F > void Add(const F& f) { _t.push_back(std::unique_ptr<Thread>(new Thread(f))); }
		void Join() { for (size_t i = 0; i < _t.size(); ++i) _t[i]->Join(); _t.clear(); }
		~Threads() { Join(); }
	};

	class Event
	{
		pthread_mutex_t _m; pthread_cond_t _c; bool _set;
	public:
		Event() : _set(false) { pthread_mutex_init(&_m, 0); pthread_cond_init(&_c, 0); }
		~Event() { pthread_mutex_destroy(&_m); pthread_cond_destroy(&_c); }
		void Set() { pthread_mutex_lock(&_m); _set = true; pthread_cond_broadcast(&_c); pthread_mutex_unlock(&_m); }
		void Wait() { pthread_mutex_lock(&_m); while (!_set) pthread_cond_wait(&_c, &_m); pthread_mutex_unlock(&_m); }
		bool IsSet() { pthread_mutex_lock(&_m); const bool r = _set; pthread_mutex_unlock(&_m); return r; }
		Event(const Event&) = delete;
	};

	class Lock
	{
		pthread_mutex_t& _m;
	public:
		explicit Lock(pthread_mutex_t& m) : _m(m) { pthread_mutex_lock(&_m); }
		~Lock() { pthread_mutex_unlock(&_m); }
		Lock(const Lock&) = delete;
	};

	class Mutex
	{
		pthread_mutex_t _m;
	public:
		Mutex() { pthread_mutex_init(&_m, 0); }
		~Mutex() { pthread_mutex_destroy(&_m); }
		operator pthread_mutex_t& () { return _m; }
		Mutex(const Mutex&) = delete;
	};

	// waits until everything queued so far on the executor has run
	template < typename ExecutorPtr_, typename MakeTask_ >
	void Drain(const ExecutorPtr_& ex, const MakeTask_& makeTask)
	{ Event e; Event* pe = &e; ex->AddTask(makeTask(std::function<void ()>([pe]() { pe->Set(); }))); e.Wait(); }

	inline void Pause(vh::Rng& r) { for (unsigned n = r.Below(4); n; --n) vs_yield(); }

	inline std::string DumpLog(const char* const* names, uint32_t max = 120)
	{
		std::ostringstream s;
		const uint32_t n = vh_log_size();
		for (uint32_t i = 0; i < n && i < max; ++i)
		{
			const vh_event& e = *vh_log_at(i);
			s << " " << i << ":t" << e.thread << ":" << names[e.type] << "(" << e.a << "," << e.b << "," << e.c << ")";
		}
		return s.str();
	}
}
