#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <stingraykit/diagnostics/Backtrace.h>
#include <stingraykit/exception.h>
#include <stingraykit/log/Logger.h>

extern "C" {
	void vh_write_results(const char*);
	void vh_set(uint64_t seed, int thorough, const char* out, const char* progress, const char* tmpdir, uint64_t hang);
	void vh_case(const char* scenario, uint64_t index, uint64_t seed);
	int vh_violation_total(void);
	void vh_start_watchdog(void);
	void vh_dump_hashes(void);
	void __lsan_do_leak_check(void) __attribute__((weak));
	int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
}

namespace vh {
	std::vector<Scenario>& Scenarios() { static std::vector<Scenario>* s = new std::vector<Scenario>(); return *s; }
}

namespace { struct NullSink : public stingray::ILoggerSink { void Log(const stingray::LoggerMessage&) override { } }; }
static stingray::Token* g_sinkToken;

static void RunCase(const vh::Scenario& s, uint64_t seed)
{
	vh::Rng rng(seed);
	try
	{ s.Func(rng); }
	catch (const std::exception& ex)
	{ vh::Violation(std::string("unexpected-exception:") + s.Name, std::string(typeid(ex).name()) + ": " + stingray::diagnostic_information(ex)); }
}

int main(int argc, char** argv)
{
	std::string scenario, out, progress, tmpdir = "/tmp";
	uint64_t cases = 100, start = 0, seed = 1, hang = 60;
	int thorough = 0;
	long only = -1;
	for (int i = 1; i < argc; ++i)
	{
		const std::string a = argv[i];
		if (a == "--list")
		{ for (size_t k = 0; k < vh::Scenarios().size(); ++k) printf("%s\n", vh::Scenarios()[k].Name); return 0; }
		if (i + 1 >= argc) break;
		const std::string v = argv[++i];
		if (a == "--scenario") scenario = v;
		else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10);
		else if (a == "--start") start = strtoull(v.c_str(), 0, 10);
		else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
		else if (a == "--only") only = atol(v.c_str());
		else if (a == "--out") out = v;
		else if (a == "--progress") progress = v;
		else if (a == "--tmpdir") tmpdir = v;
		else if (a == "--hang") hang = strtoull(v.c_str(), 0, 10);
		else if (a == "--thorough") thorough = atoi(v.c_str());
	}
	vh_set(seed, thorough, out.c_str(), progress.c_str(), tmpdir.c_str(), hang);
	vh_start_watchdog();
	if (!getenv("VH_LOG"))
	{
		// library chatter is not an oracle
		stingray::Logger::SetLogLevel(stingray::LogLevel::Error);
		g_sinkToken = new stingray::Token(stingray::Logger::AddSink(stingray::make_shared_ptr<NullSink>()));
	}

	const vh::Scenario* s = 0;
	for (size_t k = 0; k < vh::Scenarios().size(); ++k)
		if (scenario == vh::Scenarios()[k].Name) s = &vh::Scenarios()[k];
	if (!s) { fprintf(stderr, "no scenario '%s'\n", scenario.c_str()); return 70; }

	for (uint64_t i = start; i < start + cases; ++i)
	{
		if (only >= 0 && (uint64_t)only != i) continue;
		const uint64_t cs = vh::Rng::Mix(seed * 1000003 + vh::HashStr(scenario)) ^ vh::Rng::Mix(i + 17);
		vh_case(s->Name, i, cs);
		if (s->Sched == 1 || s->Sched == 3)
		{
			vs_begin(cs ^ 0xabcdef, s->Sched == 3 ? 1 : 0);
			RunCase(*s, cs);
			vs_end();
		}
		else
			RunCase(*s, cs);
		vh_count("cases", 1);
		if (i == 0 && vh_log_size())
		{
			std::ostringstream o; o << "event log of case 0, as thread:type(args):";
			for (uint32_t k = 0; k < vh_log_size() && k < 25; ++k)
			{ const vh_event& e = *vh_log_at(k); o << " t" << e.thread << ":" << e.type << "(" << e.a << "," << e.b << "," << e.c << ")"; }
			vh_sample(o.str().c_str());
		}
		if (vh_violation_total() >= 12) break;
	}
	vh_log_clear();
	if (__lsan_do_recoverable_leak_check && s->Sched == 0 && !getenv("VH_NOLEAK"))
	{
		vh_case(s->Name, 999999999, 0);
		if (__lsan_do_recoverable_leak_check())
			vh::Violation("leak", "LeakSanitizer reported leaked memory, see the log");
	}
	vh_write_results("done");
	vh_dump_hashes();
	fflush(0);
	_exit(vh_violation_total() ? 3 : 0);
}
