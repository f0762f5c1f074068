// C25: logging. Monitors: an offline checker over send/receive/level/sink events of concurrent programs (exactly once, whole,
// in order, level), a registry consistency checker, conservation of hidden duplicates, and a model of the logger in one thread.
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include "vsx.h"
#include "sk.h"
#include <stingraykit/log/Logger.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/FunctionToken.h>
#include <map>
#include <set>
#include <list>

using namespace stingray;

#define CK(cond_, key_, detail_, act_) { vh_eval(1); if (!(cond_)) { std::ostringstream vh_os_; vh_os_ << detail_ << " [" << #cond_ << "]"; vh::Violation(key_, vh_os_.str()); act_; } }

namespace {
	struct Trail : vh::Trace { void Add(const std::string& t) { s << " " << t; } uint64_t Hash() const { return vh::HashStr(s.str()); } };
	enum { SendCall = 1, SendRet, Recv, AddCall, AddRet, RemCall, RemRet, LevelCall, LevelRet };
	const char* const Names[] = { "?", "send", "sent", "recv", "add", "added", "remove", "removed", "level", "level-set" };

	const int Loggers = 4;      // 0 is the global logger; 1 and 2 share a name
	const char* const LoggerName[Loggers] = { "", "alpha", "alpha", "beta" };
	const char* const LevelName[] = { "Trace", "Debug", "Info", "Warning", "Error", "Silent" };

	// everything about a message follows from its number
	int MsgLogger(int64_t id) { return vh::Rng::Mix(id * 3 + 1) % Loggers; }
	int MsgLevel(int64_t id) { return vh::Rng::Mix(id * 3 + 2) % 5; }
	std::vector<std::string> MsgParts(int64_t id)
	{
		vh::Rng r(id * 7 + 5);
		std::vector<std::string> p;
		p.push_back("m" + std::to_string((long long)id) + "|");
		for (int n = r.Below(4); n; --n)
		{
			static const char* const C[] = { "x", "%1%", "\n", "\xd0\xb6", "{}", "  ", "\\", "\"" };
			std::string s;
			for (int k = r.Chance(1, 6) ? 60 : r.Below(6); k; --k) s += C[r.Below(8)];
			if (r.Chance(1, 8)) s += '\0';
			p.push_back(s);
		}
		p.push_back("|e");
		return p;
	}
	std::string MsgText(int64_t id) { std::string s; const std::vector<std::string> p = MsgParts(id); for (size_t i = 0; i < p.size(); ++i) s += p[i]; return s; }
	bool Announcement(const std::string& t) { return t.compare(0, 13, "Log level is ") == 0 || t.compare(0, 10, "Backtrace ") == 0; }

	const int Nested = 10000000;

	struct Sink : ILoggerSink
	{
		int id; std::function<void (int64_t)> extra;
		explicit Sink(int id_) : id(id_) { }
		virtual void Log(const LoggerMessage& m)
		{
			const std::string t = m.GetMessage();
			if (Announcement(t)) return;
			CK(t.size() > 2 && t[0] == 'm', "log:garbled", "sink " << id << " received " << vh::Printable(t), return);
			const int64_t mid = atoll(t.c_str() + 1);
			const std::string e = MsgText(mid);
			VH_CHECK(t == e, "log:garbled", "sink " << id << " received " << vh::Printable(t) << " instead of " << vh::Printable(e));
			VH_CHECK((int)m.GetLogLevel().val() == MsgLevel(mid), "log:level-changed", "message " << mid << " received at level " << (int)m.GetLogLevel().val());
			const int l = MsgLogger(mid);
			VH_CHECK(l ? (m.GetLoggerName().is_initialized() && *m.GetLoggerName() == LoggerName[l]) : !m.GetLoggerName().is_initialized(), "log:logger-name", "message " << mid << " of logger " << l);
			vh_log(Recv, id, mid, 0);
			if (extra) extra(mid);
		}
	};

	struct Setup
	{
		std::unique_ptr<NamedLogger> l[Loggers];
		Setup() { Logger::SetLogLevel(LogLevel::Info); for (int i = 1; i < Loggers; ++i) l[i].reset(new NamedLogger(LoggerName[i])); }
		~Setup()
		{
			for (int i = 0; i < Loggers; ++i) l[i].reset();
			Logger::SetLogLevel("alpha", null); Logger::SetLogLevel("beta", null);
			Logger::SetLogLevel(LogLevel::Info);
		}
		LoggerStream Stream(int lg, int lv)
		{
			if (!lg)
				switch (lv)
				{
				case 0: return Logger::Trace(); case 1: return Logger::Debug(); case 2: return Logger::Info(); case 3: return Logger::Warning(); default: return Logger::Error();
				}
			switch (lv)
			{
			case 0: return l[lg]->Trace(); case 1: return l[lg]->Debug(); case 2: return l[lg]->Info(); case 3: return l[lg]->Warning(); default: return l[lg]->Error();
			}
		}
		void Send(int64_t id)
		{
			const std::vector<std::string> p = MsgParts(id);
			vh::Rng r(id);
			vh_log(SendCall, id, 0, 0);
			try
			{
				LoggerStream s(Stream(MsgLogger(id), MsgLevel(id)));
				for (size_t i = 0; i < p.size(); ++i) { s << p[i]; if (r.Chance(1, 4)) vs_yield(); }
				if (r.Chance(1, 4)) { LoggerStream s2(std::move(s)); vs_yield(); }
			}
			catch (const std::exception& ex) { VH_CHECK(false, "log:exception-reached-caller", "message " << id << ": " << ex.what()); }
			vh_log(SendRet, id, 0, 0);
		}
		// level -1 stands for none
		void SetLevel(int how, int lg, int lv)
		{
			const optional<LogLevel> o = lv < 0 ? optional<LogLevel>() : optional<LogLevel>(LogLevel((LogLevel::Enum)lv));
			vh_log(LevelCall, how == 2 ? 10 + lg : lg, lv, 0);
			if (!lg) Logger::SetLogLevel((LogLevel::Enum)lv);
			else if (how == 2) Logger::SetLogLevel(LoggerName[lg], o);
			else l[lg]->SetLogLevel(o);
			vh_log(LevelRet, how == 2 ? 10 + lg : lg, lv, 0);
		}
	};

	struct Write { uint32_t call, ret; int lv; };

	// levels that could have been in force somewhere within [from, to]
	std::set<int> Possible(const std::vector<Write>& ws, uint32_t from, uint32_t to)
	{
		std::set<int> r;
		for (size_t i = 0; i < ws.size(); ++i)
		{
			if (ws[i].call > to) continue;
			bool over = false;
			for (size_t k = 0; k < ws.size() && !over; ++k)
				over = ws[k].call > ws[i].ret && ws[k].ret < from;
			if (!over) r.insert(ws[i].lv);
		}
		return r;
	}

	void CheckTrace(size_t sinks)
	{
		struct M { uint32_t call, ret; };
		std::map<int64_t, M> ms;
		std::vector<Write> levels[Loggers];
		levels[0].push_back(Write{ 0, 0, LogLevel::Info });
		for (int i = 1; i < Loggers; ++i) levels[i].push_back(Write{ 0, 0, -1 });
		struct S { uint32_t ac, ar, rc, rr; std::vector<std::pair<uint32_t, int64_t> > got; };
		std::vector<S> ss(sinks, S{ ~0u, ~0u, ~0u, ~0u });
		std::map<std::pair<int, int>, size_t> open;   // (thread, target) -> index of the write
		const uint32_t n = vh_log_size();
		for (uint32_t i = 0; i < n; ++i)
		{
			const vh_event& e = *vh_log_at(i);
			switch (e.type)
			{
			case SendCall: ms[e.a] = M{ i + 1, ~0u }; break;
			case SendRet: ms[e.a].ret = i + 1; break;
			case Recv: ss[e.a].got.push_back(std::make_pair(i + 1, e.b)); break;
			case AddCall: ss[e.a].ac = i + 1; break;
			case AddRet: ss[e.a].ar = i + 1; break;
			case RemCall: ss[e.a].rc = i + 1; break;
			case RemRet: ss[e.a].rr = i + 1; break;
			case LevelCall: case LevelRet:
				for (int l = 0; l < Loggers; ++l)
					if (e.a == l || (e.a >= 10 && std::string(LoggerName[e.a - 10]) == LoggerName[l] && l))
					{
						const std::pair<int, int> k(e.thread, l);
						if (e.type == LevelCall) { open[k] = levels[l].size(); levels[l].push_back(Write{ i + 1, ~0u, (int)e.b }); }
						else levels[l][open[k]].ret = i + 1;
					}
				break;
			}
		}
		std::vector<std::map<int64_t, int> > count(sinks);
		for (size_t s = 0; s < sinks; ++s)
		{
			std::map<int64_t, int64_t> last;
			for (size_t k = 0; k < ss[s].got.size(); ++k)
			{
				const int64_t id = ss[s].got[k].second;
				VH_CHECK(++count[s][id] == 1, "log:repeated", "sink " << s << " received message " << id << " again:" << vs::DumpLog(Names));
				CK(ms.count(id), "log:made-up", "sink " << s << " received message " << id, continue);
				if (id >= Nested) continue;
				const int64_t th = id / 1000;
				if (last.count(th)) VH_CHECK(last[th] < id, "log:order", "sink " << s << " received message " << id << " after message " << last[th] << " of the same thread:" << vs::DumpLog(Names));
				last[th] = id;
				VH_CHECK(ss[s].got[k].first > ms[id].call, "log:made-up", "sink " << s << " received message " << id << " before it was logged");
			}
		}
		uint64_t must = 0, mustNot = 0;
		for (auto it = ms.begin(); it != ms.end(); ++it)
		{
			const int64_t id = it->first; const M& m = it->second;
			const int lg = MsgLogger(id), lv = MsgLevel(id);
			std::set<int> p = Possible(levels[lg], m.call, m.ret);
			if (lg && p.count(-1))
			{
				p.erase(-1);
				const std::set<int> g = Possible(levels[0], m.call, m.ret);
				p.insert(g.begin(), g.end());
			}
			const bool on = *p.rbegin() <= lv, off = *p.begin() > lv;
			for (size_t s = 0; s < sinks; ++s)
			{
				const bool got = count[s].count(id);
				const bool there = ss[s].ar < m.call && ss[s].rc > m.ret;
				const bool away = ss[s].ac > m.ret || ss[s].rr < m.call;
				if (on && there) { VH_CHECK(got, "log:lost", "sink " << s << " did not receive message " << id << " of logger " << lg << " at level " << lv << ":" << vs::DumpLog(Names)); ++must; }
				if (off) { VH_CHECK(!got, "log:below-level", "sink " << s << " received message " << id << " of logger " << lg << " at level " << lv << ":" << vs::DumpLog(Names)); ++mustNot; }
				if (away) VH_CHECK(!got, "log:removed-sink", "sink " << s << " received message " << id << " when it was not registered:" << vs::DumpLog(Names));
			}
		}
		vh_count("deliveries_required", must); vh_count("deliveries_forbidden", mustNot); vh_count("messages", ms.size());
		vh_distinct("traces", vh_log_hash());
	}

	struct SinkError : std::exception { virtual const char* what() const throw() { return "sink failure"; } };

	struct ExitLogger { Setup* s; int64_t id; ExitLogger() : s(0), id(0) { } ~ExitLogger() { if (s) s->Send(id); } };
	thread_local ExitLogger t_exitLogger;
}

static void Programs(vh::Rng& rng, bool levels, bool sinksMove)
{
	static const unsigned Levels[] = { 0, 1, 2, 2, 3, 4, 5 };
	const uint64_t s1 = rng.Next(), s2 = rng.Next(), s3 = rng.Next();
	Setup st;
	vh_log_clear();
	const size_t fixed = 1 + rng.Below(3), moving = sinksMove ? 1 + rng.Below(3) : 0, sinks = fixed + moving;
	std::vector<shared_ptr<Sink> > ss;
	std::vector<Token> tokens(sinks);
	for (size_t i = 0; i < sinks; ++i)
	{
		ss.push_back(make_shared_ptr<Sink>((int)i));
		const uint64_t h = rng.Next();
		Setup* pst = &st;
		switch (rng.Below(5))
		{
		case 0: ss[i]->extra = [h](int64_t id) { if ((vh::Rng::Mix(h + id) & 1)) { throw SinkError(); } }; break;
		case 1: ss[i]->extra = [h, pst, i](int64_t id) { if (id < Nested && (vh::Rng::Mix(h + id) % 3 == 0)) pst->Send((i + 1) * Nested + id); }; break;
		case 2: ss[i]->extra = [](int64_t) { vs_yield(); }; break;
		}
	}
	auto add = [&](size_t i) { vh_log(AddCall, i, 0, 0); tokens[i] = Logger::AddSink(ss[i]); vh_log(AddRet, i, 0, 0); };
	auto rem = [&](size_t i) { vh_log(RemCall, i, 0, 0); tokens[i].Reset(); vh_log(RemRet, i, 0, 0); };
	for (size_t i = 0; i < fixed; ++i) add(i);
	if (rng.Bool()) st.SetLevel(0, 0, Levels[rng.Below(7)]);
	{
		vs::Threads th;
		for (int t = 0; t < 1 + (int)(s1 % 3); ++t)
			th.Add([&, t]()
				{
					vh::Rng r(s1 + t * 77);
					const int n = 1 + r.Below(6);
					for (int k = 0; k < n; ++k) { st.Send((t + 1) * 1000 + k); if (r.Chance(1, 3)) vs::Pause(r); }
					if (r.Chance(1, 3)) { t_exitLogger.s = &st; t_exitLogger.id = (t + 1) * 1000 + n; }   // logs while the thread exits
				});
		if (levels)
			for (int t = 0; t < 1 + (int)(s2 % 2); ++t)
				th.Add([&, t]()
					{
						vh::Rng r(s2 + t * 77);
						for (int k = 0, n = 1 + r.Below(4); k < n; ++k)
						{
							const int lg = r.Below(Loggers), how = 1 + r.Below(2);
							st.SetLevel(how * (lg != 0), lg, lg && r.Chance(1, 3) ? -1 : (int)Levels[r.Below(7)]);
							vs::Pause(r);
						}
					});
		for (size_t i = fixed; i < sinks; ++i)      // each comes once and may leave
			th.Add([&, i]() { vh::Rng r(s3 + i); vs::Pause(r); add(i); vs::Pause(r); vs::Pause(r); if (r.Chance(2, 3)) rem(i); });
	}
	tokens.clear();
	CheckTrace(sinks);
}
VH_SCHED_SCENARIO(log_threads) { Programs(rng, false, rng.Bool()); }
VH_SCHED_SCENARIO(log_levels) { Programs(rng, true, rng.Chance(1, 4)); }
VH_FREE_SCENARIO(free_log) { vs_noise(30, 20); Programs(rng, rng.Bool(), rng.Bool()); vs_noise(0, 0); }

// Levels set by name reach every logger of the name, whichever threads create, destroy and configure them.
VH_SCHED_SCENARIO(log_registry)
{
	const uint64_t s1 = rng.Next();
	Logger::SetLogLevel(LogLevel::Silent);
	NamedLogger stay("stay");
	const size_t base = Logger::GetLoggerNames().size();
	std::deque<std::unique_ptr<NamedLogger> > alive; vs::Mutex am;
	{
		vs::Threads th;
		for (int t = 0; t < 2 + (int)(s1 % 2); ++t)
			th.Add([&, t]()
				{
					vh::Rng r(s1 + t);
					for (int k = 0, n = 1 + r.Below(5); k < n; ++k)
					{
						const char* const nm = r.Chance(1, 3) ? "beta" : "alpha";
						switch (r.Below(5))
						{
						case 0: Logger::SetLogLevel(nm, optional<LogLevel>(LogLevel((LogLevel::Enum)r.Below(5)))); break;
						case 1: { std::unique_ptr<NamedLogger> l(new NamedLogger(nm)); vs::Lock lk(am); alive.push_back(std::move(l)); } break;
						case 2: { NamedLogger l(nm); vs::Pause(r); const std::set<std::string> s = Logger::GetLoggerNames(); VH_CHECK(s.count(nm), "log:names", nm << " is missing among the names of loggers"); } break;
						case 3: { const std::set<std::string> s = Logger::GetLoggerNames(); VH_CHECK(s.count("stay") && s.size() <= base + 2, "log:names", s.size() << " names of loggers"); } break;
						default: Logger::EnableHighlight(nm, r.Bool()); break;
						}
						vs::Pause(r);
					}
				});
	}
	for (auto it = alive.begin(); it != alive.end(); ++it)
	{
		const optional<LogLevel> o = Logger::GetLogLevel((*it)->GetName());
		VH_CHECK((*it)->GetLogLevel() == (o ? *o : Logger::GetLogLevel()), "log:registry-level", "a logger " << (*it)->GetName() << " is at level " << LevelName[(*it)->GetLogLevel().val()]);
		NamedLogger fresh((*it)->GetName());
		VH_CHECK(fresh.GetLogLevel() == (*it)->GetLogLevel() && fresh.HighlightEnabled() == (*it)->HighlightEnabled(), "log:registry-level", "a new logger " << (*it)->GetName() << " is at level " << LevelName[fresh.GetLogLevel().val()] << " and not at " << LevelName[(*it)->GetLogLevel().val()]);
		vh_eval(2);
	}
	alive.clear();
	Logger::SetLogLevel("alpha", null); Logger::SetLogLevel("beta", null); Logger::EnableHighlight("alpha", false); Logger::EnableHighlight("beta", false);
	const std::set<std::string> s = Logger::GetLoggerNames();
	VH_CHECK(s.size() == base && s.count("stay"), "log:names", s.size() << " names of loggers are left");
	vh_eval(3); vh_distinct("schedules", vs_steps() * 31 + s1);
	Logger::SetLogLevel(LogLevel::Info);
}

namespace {
	struct TextSink : ILoggerSink
	{
		struct Rec { int lv; optional<std::string> name; std::string text; bool hl; std::string thread; Time time; };
		vs::Mutex m; std::vector<Rec> recs; bool fails;
		TextSink() : fails(false) { }
		virtual void Log(const LoggerMessage& x)
		{
			if (Announcement(x.GetMessage())) return;
			{ vs::Lock l(m); recs.push_back(Rec{ (int)x.GetLogLevel().val(), x.GetLoggerName(), x.GetMessage(), x.Highlight(), x.GetThreadName(), x.GetTime() }); }
			if (fails) throw SinkError();
		}
	};

	struct Site { unsigned count; int line; optional<TimeDuration> interval; };

	void LogDup(const NamedLogger& l, DuplicatingLogsFilter* f, const Site& s, const std::string& text)
	{
		using Detail::HideDuplicatingLogs;
		LoggerStream st(l.Info());
		if (f) { if (s.interval) st << HideDuplicatingLogs(*s.interval, "site.cpp", s.line, *f); else st << HideDuplicatingLogs(s.count, "site.cpp", s.line, *f); }
		else { if (s.interval) st << HideDuplicatingLogs(*s.interval, "site.cpp", s.line); else st << HideDuplicatingLogs(s.count, "site.cpp", s.line); }
		st << text;
	}

	// "text (N times)"
	bool Summary(const std::string& t, std::string& text, unsigned& n)
	{
		const size_t p = t.rfind(" (");
		if (p == std::string::npos || t.size() < 8 || t.compare(t.size() - 7, 7, " times)")) return false;
		text = t.substr(0, p); n = atoi(t.c_str() + p + 2);
		return true;
	}
}

// Hidden duplicates are accounted for: whatever the interleaving, messages shown plus the counts shown plus those still pending add up.
static void SharedFilter(vh::Rng& rng)
{
	Logger::SetLogLevel(LogLevel::Info);
	NamedLogger l("dups");
	DuplicatingLogsFilter own;
	DuplicatingLogsFilter* const f = rng.Bool() ? &own : (DuplicatingLogsFilter*)0;
	const shared_ptr<TextSink> sink = make_shared_ptr<TextSink>();
	const Token tok = Logger::AddSink(sink);
	const Site sites[2] = { Site{ 1 + (unsigned)rng.Below(4), 10, null }, Site{ 1 + (unsigned)rng.Below(3), 20, null } };
	const uint64_t s1 = rng.Next();
	const unsigned texts = 1 + rng.Below(2);
	std::map<std::string, unsigned> total[4];
	{
		vs::Threads th;
		for (int t = 0; t < 2 + (int)(s1 % 2); ++t)
			th.Add([&, t]()
				{
					vh::Rng r(s1 + t);
					for (int k = 0, n = 1 + r.Below(7); k < n; ++k)
					{
						const int s = r.Chance(1, 4);
						const std::string text = std::string(s ? "second" : "first") + "-" + (char)('a' + r.Below(texts));
						++total[t][text];
						LogDup(l, f, sites[s], text);
						vs::Pause(r);
					}
				});
	}
	std::map<std::string, unsigned> want, got; std::map<char, unsigned> pend; std::map<char, unsigned> pendTexts;
	for (int t = 0; t < 4; ++t) for (auto it = total[t].begin(); it != total[t].end(); ++it) want[it->first] += it->second;
	std::string all;
	for (size_t i = 0; i < sink->recs.size(); ++i)
	{
		const std::string& t = sink->recs[i].text; std::string text = t; unsigned n = 1;
		all += " [" + t + "]";
		if (Summary(t, text, n)) VH_CHECK(n > 0 && n <= sites[t[0] == 's'].count, "log:dup-count", t << " with the limit of " << sites[t[0] == 's'].count);
		VH_CHECK(want.count(text), "log:garbled", "received " << vh::Printable(t));
		got[text] += n;
	}
	for (auto it = want.begin(); it != want.end(); ++it)
	{
		VH_CHECK(got[it->first] <= it->second, "log:dup-conservation", it->first << ": " << it->second << " were logged but " << got[it->first] << " were shown or counted:" << all);
		const unsigned p = it->second - got[it->first];
		if (p) { pend[it->first[0]] += p; ++pendTexts[it->first[0]]; }
	}
	for (auto it = pend.begin(); it != pend.end(); ++it)
		VH_CHECK(it->second <= sites[it->first == 's'].count && pendTexts[it->first] == 1, "log:dup-conservation", it->second << " messages of " << pendTexts[it->first] << " texts were neither shown nor counted, with the limit of " << sites[it->first == 's'].count << ":" << all);
	vh_eval(want.size() + sink->recs.size()); vh_count("duplicates_sent", want.size());
	vh_distinct("dup_outputs", vh::HashStr(all));
}
VH_SCHED_SCENARIO(log_dup_threads) { SharedFilter(rng); }
VH_FREE_SCENARIO(free_dup) { vs_noise(30, 20); SharedFilter(rng); vs_noise(0, 0); }

VH_SCENARIO(log_dup)
{
	Logger::SetLogLevel(LogLevel::Info);
	NamedLogger l("dups");
	const shared_ptr<TextSink> sink = make_shared_ptr<TextSink>();
	const Token tok = Logger::AddSink(sink);
	Trail tr;
	Site sites[2];
	for (int i = 0; i < 2; ++i)
	{
		sites[i] = Site{ 1 + (unsigned)rng.Below(5), 10 + i * 10, null };
		if (rng.Chance(1, 6)) { sites[i].interval = TimeDuration::FromMicroseconds(1 + rng.Below(40)); sites[i].count = ~0u; }
		if (rng.Chance(1, 12)) { sites[i].interval = TimeDuration::FromSeconds(1000); sites[i].count = ~0u; }
	}
	struct Run { std::string text; unsigned pending; bool any; } run[2] = { Run{ "", 0, false }, Run{ "", 0, false } };
	size_t seen = 0;
	for (int k = 0, n = 5 + rng.Below(60); k < n; ++k)
	{
		const int s = rng.Chance(1, 3);
		Run& r = run[s];
		const std::string text = std::string(s ? "t" : "f") + (r.any && rng.Chance(3, 4) ? r.text.substr(1) : std::string(1 + rng.Below(2), 'a' + rng.Below(2)));
		const bool quiet = rng.Chance(1, 12);
		if (quiet) { l.SetLogLevel(optional<LogLevel>(LogLevel(LogLevel::Error))); LogDup(l, 0, sites[s], text); l.SetLogLevel(null); }
		else LogDup(l, 0, sites[s], text);
		tr.Add(std::string(quiet ? "quiet " : "") + text);
		std::vector<std::string> out;
		for (; seen < sink->recs.size(); ++seen) out.push_back(sink->recs[seen].text);
		std::string o; for (size_t i = 0; i < out.size(); ++i) o += " [" + out[i] + "]";
		if (quiet) { CK(out.empty(), "log:below-level", "shown:" << o << tr.Str(), return); continue; }
		size_t i = 0; std::string st; unsigned c = 0;
		const bool fresh = !r.any || r.text != text;
		if (i < out.size() && Summary(out[i], st, c))
		{
			CK(st == r.text && c > 0 && c <= r.pending + (fresh ? 0 : 1) && c + (fresh ? 0 : 1) >= r.pending, "log:dup-count", "shown:" << o << " when " << r.pending << " of " << r.text << " were hidden;" << tr.Str(), return);
			r.pending = r.pending + (fresh ? 0 : 1) - c; ++i;
			if (fresh) CK(r.pending == 0, "log:dup-count", "shown:" << o << " leaves " << r.pending << " of " << r.text << " unaccounted for;" << tr.Str(), return);
		}
		else if (!fresh) ++r.pending;
		if (fresh)
		{
			CK(i < out.size() && out[i] == text && r.pending == 0, "log:dup-first", "shown:" << o << " after " << text << " was logged, " << r.pending << " of " << r.text << " pending;" << tr.Str(), return);
			++i; r = Run{ text, 0, true };
		}
		CK(i == out.size(), "log:dup-hidden", "shown:" << o << " after " << text << " was logged;" << tr.Str(), return);
		CK(r.pending <= sites[s].count, "log:dup-count", r.pending << " of " << r.text << " are hidden with the limit of " << sites[s].count << tr.Str(), return);
		vh_eval(1);
	}
	vh_count("duplicates_histories", 1); vh_distinct("histories", tr.Hash());
}

namespace {
	struct ModelLogger { std::unique_ptr<NamedLogger> l; std::string name; int lv; bool bt, hl; };
	struct ModelSettings { int lv; bool bt, hl; };
	struct Expect { int lv; bool named; std::string name, text; bool bt, hl; };
}

VH_SCENARIO(log_model)
{
	Trail tr;
	Logger::SetLogLevel(LogLevel::Info);
	int global = LogLevel::Info;
	std::map<std::string, ModelSettings> set;
	std::list<ModelLogger> ls;
	struct MS { shared_ptr<TextSink> s; Token t; std::vector<Expect> want; size_t seen; bool explicitSink; };
	std::list<MS> sinks;
	static const char* const N[] = { "a", "b", "", "a.b", "A" };
	auto opt = [&](int lv) { return lv < 0 ? optional<LogLevel>() : optional<LogLevel>(LogLevel((LogLevel::Enum)lv)); };
	sinks.push_back(MS{ make_shared_ptr<TextSink>(), null, std::vector<Expect>(), 0 }); sinks.back().t = Logger::AddSink(sinks.back().s);
	for (int k = 0, n = 10 + rng.Below(80); k < n; ++k)
	{
		const std::string nm = N[rng.Below(5)];
		ModelLogger* pick = 0;
		if (!ls.empty()) { auto it = ls.begin(); for (unsigned i = rng.Below(ls.size()); i; --i) ++it; pick = &*it; }
		const int lv = rng.Chance(1, 4) ? -1 : (int)rng.Below(6);
		auto touch = [&](const std::string& x) -> ModelSettings& { if (!set.count(x)) set[x] = ModelSettings{ -1, false, false }; return set[x]; };
		switch (rng.Below(18))
		{
		case 0: case 1: if (sinks.size() < 40) { for (int c = rng.Chance(1, 10) ? 20 : 1; c; --c) { sinks.push_back(MS{ make_shared_ptr<TextSink>(), null, std::vector<Expect>(), 0 }); sinks.back().s->fails = rng.Chance(1, 40); sinks.back().t = Logger::AddSink(sinks.back().s); } tr.Add("sink"); } break;
		case 2: if (sinks.size() > 1) { auto it = sinks.begin(); for (unsigned i = 1 + rng.Below(sinks.size() - 1); i; --i) ++it; sinks.erase(it); tr.Add("unsink"); } break;
		case 3: { ls.push_back(ModelLogger{ std::unique_ptr<NamedLogger>(new NamedLogger(nm, opt(lv))), nm, lv, false, false });
			if (set.count(nm)) { ModelLogger& m = ls.back(); if (set[nm].lv >= 0) m.lv = set[nm].lv; m.bt = set[nm].bt; m.hl = set[nm].hl; }
			tr.Add("new " + nm); } break;
		case 4: if (pick && ls.size() > 3) { for (auto it = ls.begin(); it != ls.end(); ++it) if (&*it == pick) { ls.erase(it); break; } tr.Add("delete"); } break;
		case 5: if (lv >= 0) { Logger::SetLogLevel((LogLevel::Enum)lv); global = lv; tr.Add("global " + std::to_string(lv)); } break;
		case 6: Logger::SetLogLevel(nm, opt(lv)); touch(nm).lv = lv; for (auto it = ls.begin(); it != ls.end(); ++it) if (it->name == nm) it->lv = lv; tr.Add("level " + nm + " " + std::to_string(lv)); break;
		case 7: if (pick) { pick->l->SetLogLevel(opt(lv)); pick->lv = lv; tr.Add("own level " + std::to_string(lv)); } break;
		case 8: { const bool b = rng.Chance(1, 4); Logger::EnableBacktrace(nm, b); touch(nm).bt = b; for (auto it = ls.begin(); it != ls.end(); ++it) if (it->name == nm) it->bt = b; tr.Add("backtrace " + nm); } break;
		case 9: { const bool b = rng.Bool(); Logger::EnableHighlight(nm, b); touch(nm).hl = b; for (auto it = ls.begin(); it != ls.end(); ++it) if (it->name == nm) it->hl = b; tr.Add("highlight " + nm); } break;
		case 10: if (pick) { const bool b = rng.Chance(1, 4); pick->l->EnableBacktrace(b); pick->bt = b; const bool h = rng.Bool(); pick->l->EnableHighlight(h); pick->hl = h; tr.Add("own flags"); } break;
		default:
			{
				Expect e; e.lv = (int)rng.Below(5); e.bt = e.hl = false;
				e.text = "m" + std::to_string(k) + (rng.Chance(1, 5) ? rng.Chance(1, 3) ? std::string("\n%1%\0", 5) : std::string(rng.Below(500), 'z') : std::string());
				e.named = pick && rng.Chance(3, 4);
				int eff = global;
				if (e.named) { e.name = pick->name; if (pick->lv >= 0) eff = pick->lv; e.bt = pick->bt; e.hl = pick->hl; }
				{
					LoggerStream s(e.named ? pick->l->Stream((LogLevel::Enum)e.lv) : Logger::Stream((LogLevel::Enum)e.lv));
					if (rng.Bool()) s << e.text; else { const size_t c = rng.Below(e.text.size() + 1); s << e.text.substr(0, c) << string_view(e.text).substr(c); }
				}
				tr.Add("log " + std::to_string(e.lv) + (e.named ? " by " + e.name : ""));
				if (e.lv >= eff) for (auto it = sinks.begin(); it != sinks.end(); ++it) it->want.push_back(e);
			}
		}
		int si = 0;
		for (auto it = sinks.begin(); it != sinks.end(); ++it, ++si)
		{
			const std::vector<TextSink::Rec>& r = it->s->recs;
			CK(r.size() == it->want.size(), "log:model-count", "sink " << si << " of " << sinks.size() << " has received " << r.size() << " messages of " << it->want.size() << tr.Str(), return);
			for (; it->seen < r.size(); ++it->seen)
			{
				const TextSink::Rec& x = r[it->seen]; const Expect& e = it->want[it->seen];
				const bool text = e.bt ? x.text.compare(0, e.text.size() + 1, e.text + "\n") == 0 : x.text == e.text;
				CK(text && x.lv == e.lv && x.hl == e.hl && (e.named ? x.name.is_initialized() && *x.name == e.name : !x.name.is_initialized()), "log:model-message", "received level " << x.lv << " highlight " << x.hl << " " << vh::Printable(x.text) << tr.Str(), return);
				if (it->seen) VH_CHECK(x.time >= r[it->seen - 1].time || r[it->seen - 1].time - x.time > TimeDuration::FromSeconds(1), "log:time", "times of messages decrease");
				vh_eval(1);
			}
		}
		std::set<std::string> names;
		for (auto it = ls.begin(); it != ls.end(); ++it)
		{
			names.insert(it->name);
			CK((int)it->l->GetLogLevel().val() == (it->lv >= 0 ? it->lv : global) && it->l->BacktraceEnabled() == it->bt && it->l->HighlightEnabled() == it->hl && it->l->GetName() == it->name, "log:model-settings", "logger " << it->name << " is at level " << (int)it->l->GetLogLevel().val() << " instead of " << it->lv << "/" << global << tr.Str(), return);
		}
		const std::set<std::string> gn = Logger::GetLoggerNames();
		std::string miss; for (auto it = names.begin(); it != names.end(); ++it) if (!gn.count(*it)) miss += *it + ",";
		CK(miss.empty() && gn.size() >= names.size(), "log:names", "missing: " << miss << tr.Str(), return);
		static const size_t foreign = gn.size() - names.size();
		CK(gn.size() <= names.size() + foreign, "log:names", gn.size() << " names" << tr.Str(), return);
		const optional<LogLevel> o = Logger::GetLogLevel(nm);
		CK((o ? (int)o->val() : -1) == (set.count(nm) ? set[nm].lv : -1) && (int)Logger::GetLogLevel().val() == global, "log:model-settings", "level by name " << nm << tr.Str(), return);
		vh_eval(2 + ls.size());
	}
	for (int i = 0; i < 5; ++i) { Logger::SetLogLevel(N[i], null); Logger::EnableBacktrace(N[i], false); Logger::EnableHighlight(N[i], false); }
	vh_count("histories", 1); vh_distinct("histories", tr.Hash());
}

namespace {
	struct HasLogger
	{
		static NamedLogger s_logger;
		static void Traced(bool thrown) { TRACER; Logger::Info() << "inside"; if (thrown) throw SinkError(); }
		static void Tried(int how)
		{
			STINGRAYKIT_TRY("tried", if (how & 1) throw SinkError(); Logger::Info() << "fine");
			STINGRAYKIT_TRY_EX(Error, "tried at error", if (how & 2) throw SinkError());
			STINGRAYKIT_LOG_EXCEPTIONS("passed on", if (how & 4) throw SinkError());
		}
	};
	STINGRAYKIT_DEFINE_NAMED_LOGGER(HasLogger, "has");
	bool IsAction(const std::string& t, const std::string& pre, const std::string& post)
	{
		if (t.size() <= pre.size() + post.size() || t.compare(0, pre.size(), pre) || t.compare(t.size() - post.size(), post.size(), post)) return false;
		const std::string num = t.substr(pre.size(), t.size() - pre.size() - post.size());
		const size_t dot = num.find('.');
		return dot != std::string::npos && dot > 0 && num.size() == dot + 4 && num.find_first_not_of("0123456789.") == std::string::npos;
	}
}

VH_SCENARIO(log_helpers)
{
	Logger::SetLogLevel(LogLevel::Info);
	HasLogger::s_logger.SetLogLevel(null);
	const shared_ptr<TextSink> sink = make_shared_ptr<TextSink>();
	const Token tok = Logger::AddSink(sink);
	auto dump = [&]() { std::string s; for (size_t i = 0; i < sink->recs.size(); ++i) s += " [" + std::to_string(sink->recs[i].lv) + (sink->recs[i].name ? *sink->recs[i].name : "-") + ":" + sink->recs[i].text + "]"; return s; };
	const std::vector<TextSink::Rec>& r = sink->recs;
	NamedLogger l("act");
	const int lv = rng.Below(6), mv = rng.Below(5); const bool named = rng.Bool(), thrown = rng.Chance(1, 4);
	{
		if (named) l.SetLogLevel(optional<LogLevel>(LogLevel((LogLevel::Enum)lv))); else Logger::SetLogLevel((LogLevel::Enum)lv);
		const std::string action = "work " + std::to_string(rng.Below(100));
		const bool deflt = rng.Bool();
		const int elv = deflt ? (int)LogLevel::Info : mv;
		auto body = [&]() { if (thrown) throw SinkError(); };
		try
		{
			if (named) { if (deflt) { ActionLogger a(l, action); body(); } else { ActionLogger a(l, (LogLevel::Enum)mv, action); body(); } }
			else { if (deflt) { ActionLogger a(action); body(); } else { ActionLogger a((LogLevel::Enum)mv, action); body(); } }
		}
		catch (const SinkError&) { }
		if (elv < lv) VH_CHECK(r.empty(), "log:action", "shown below the level:" << dump());
		else
			VH_CHECK(r.size() == 2 && r[0].text == action + "..." && IsAction(r[1].text, action + " completed" + (thrown ? " with exception" : "") + " in ", " ms") && r[0].lv == elv && r[1].lv == elv && r[0].name.is_initialized() == named && r[1].name.is_initialized() == named, "log:action", "shown:" << dump());
		Logger::SetLogLevel(LogLevel::Info);
		vh_eval(1);
	}
	sink->recs.clear();
	{
		const int tl = rng.Below(3);
		HasLogger::s_logger.SetLogLevel(optional<LogLevel>(LogLevel((LogLevel::Enum)tl)));
		try { HasLogger::Traced(thrown); } catch (const SinkError&) { }
		if (tl > 0) VH_CHECK(r.size() == 1 && r[0].text == "inside", "log:tracer", "shown:" << dump());
		else VH_CHECK(r.size() == 3 && r[0].text.find("entering function") != std::string::npos && r[0].text.find("Traced") != std::string::npos && r[1].text == "inside" && r[2].text.find("leaving function") != std::string::npos
			&& (r[2].text.find("due to an exception") != std::string::npos) == thrown && r[0].lv == 0 && r[2].lv == 0 && r[0].name && *r[0].name == "has", "log:tracer", "shown:" << dump());
		HasLogger::s_logger.SetLogLevel(null);
		vh_eval(1);
	}
	sink->recs.clear();
	{
		const int how = rng.Below(8);
		bool out = false;
		try { HasLogger::Tried(how); } catch (const SinkError&) { out = true; }
		VH_CHECK(out == ((how & 4) != 0), "log:try", "exceptions " << how << (out ? " got out" : " did not get out"));
		std::vector<std::string> w; std::vector<int> wl;
		if (how & 1) { w.push_back("tried:\n"); wl.push_back(LogLevel::Warning); } else { w.push_back("fine"); wl.push_back(LogLevel::Info); }
		if (how & 2) { w.push_back("tried at error:\n"); wl.push_back(LogLevel::Error); }
		if (how & 4) { w.push_back("passed on:\n"); wl.push_back(LogLevel::Warning); }
		bool ok = r.size() == w.size();
		for (size_t i = 0; ok && i < w.size(); ++i)
			ok = r[i].lv == wl[i] && r[i].text.compare(0, w[i].size(), w[i]) == 0 && (w[i] == "fine" || (r[i].text.find("sink failure") != std::string::npos && r[i].name && *r[i].name == "has"));
		VH_CHECK(ok, "log:try", "exceptions " << how << ", shown:" << dump());
		vh_eval(2);
	}
	sink->recs.clear();
	{
		const s64 a = rng.Interesting(); const u32 b = rng.Next(); const int c = (int)rng.Next(); const bool d = rng.Bool(); const s16 e = rng.Next(); const std::string s = "text";
		Logger::Info() << a << " " << b << " " << c << " " << d << " " << s << " " << e << std::string() << 'c' << LogLevel(LogLevel::Info) << std::vector<int>(3, 1);
		const std::string w = std::to_string((long long)a) + " " + std::to_string(b) + " " + std::to_string(c) + " " + (d ? "true" : "false") + " text " + std::to_string(e) + "cInfo" + ToString(std::vector<int>(3, 1));
		VH_CHECK(r.size() == 1 && r[0].text == w, "log:text", "shown:" << dump() << " instead of " << w);
		sink->recs.clear();
		{ LoggerStream s1(Logger::Info()); s1 << "moved"; LoggerStream s2(std::move(s1)); s2 << " on"; VH_CHECK(r.empty(), "log:text", "shown early:" << dump()); }
		VH_CHECK(r.size() == 1 && r[0].text == "moved on", "log:text", "shown:" << dump());
		vh_eval(2);
	}
	sink->recs.clear();
	if (rng.Chance(1, 4))
	{
		const std::string tn = "thr" + std::to_string(rng.Below(1000));
		{ Thread t(tn, sk::F<void (const ICancellationToken&)>([](const ICancellationToken&) { Logger::Info() << "from thread"; })); }
		VH_CHECK(r.size() == 1 && r[0].text == "from thread" && r[0].thread == tn, "log:thread-name", "shown:" << dump() << " by " << (r.empty() ? "" : r[0].thread));
		vh_eval(1);
	}
	vh_distinct("helper_cases", lv * 1000 + mv * 100 + named * 10 + thrown); vh_count("helper_cases", 1);
}
