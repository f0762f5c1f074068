// C32: command lines. Monitors: which handler runs and with what is compared with a reference reader of lines; completions with a
// reference and by following them; recorded runs of handlers against registrations and releases in concurrent programs.
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/string/ToString.h>
#include "vsx.h"
#include "sk.h"
#include <stingraykit/CmdLine.h>
#include <stingraykit/optional.h>
#include <stingraykit/log/Logger.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <vector>

using namespace stingray;

namespace {
	typedef std::vector<std::string> Strs; typedef std::set<std::string> StrSet;

	struct Color
	{
		STINGRAYKIT_ENUM_VALUES(Red, Green, Greenish, Blue, Lowest = -0x7fffffff - 1, Highest = 0x7fffffff);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Color);
	};

	// ------------------------------------------------ reference
	enum Type { TInt, TU8, TStr, TBool, TOptInt, TOptBool, TVecInt, TVecStr, TColor };

	struct Got { bool ok; bool lenient; size_t len; std::string show; };
	Got Fail(bool lenient = false) { return Got{ false, lenient, 0, "" }; }

	struct Tok { std::string text; size_t len; bool pending; };
	Tok Token_(const std::string& s, size_t pos)
	{
		Tok t = { "", 0, false };
		for (; pos < s.size(); ++pos, ++t.len)
		{
			const char c = s[pos];
			if (t.pending) { t.text += c; t.pending = false; }
			else if (c == '\\') t.pending = true;
			else if (c == ' ' || c == ',' || c == ']') break;
			else t.text += c;
		}
		return t;
	}
	std::string Quote(const std::string& s) { return "'" + s + "'"; }

	// an unfinished escape at the very end and empty elements of lists are not judged ("lenient")
	Got ReadRef(Type type, const std::string& s, size_t pos)
	{
		if (type == TVecInt || type == TVecStr)
		{
			if (pos >= s.size() || s[pos] != '[') return Fail();
			size_t i = pos + 1; std::string show = "["; bool first = true;
			auto spaces = [&] { while (i < s.size() && s[i] == ' ') ++i; };
			if (i < s.size() && s[i] == ']') return Got{ true, false, 2, "[]" };
			for (;;)
			{
				spaces();
				if (i >= s.size()) return Fail();
				if (s[i] == ']') return Fail(true);
				const Got e = ReadRef(type == TVecInt ? TInt : TStr, s, i);
				if (!e.ok) return e;
				show += (first ? "" : ", ") + e.show; first = false; i += e.len;
				spaces();
				if (i >= s.size()) return Fail();
				if (s[i] == ']') return Got{ true, e.lenient, i + 1 - pos, show + "]" };
				if (s[i] != ',') return Fail();
				++i;
			}
		}
		const Tok t = Token_(s, pos);
		if (t.len == 0) return Fail();
		if (t.pending) return Fail(true);
		try
		{
			switch (type)
			{
			case TInt: return Got{ true, false, t.len, std::to_string(FromString<int>(t.text)) };
			case TU8: return Got{ true, false, t.len, std::to_string((int)FromString<u8>(t.text)) };
			case TStr: return Got{ true, false, t.len, Quote(t.text) };
			case TOptInt: return t.text == "none" ? Got{ true, false, t.len, "none" } : Got{ true, false, t.len, std::to_string(FromString<int>(t.text)) };
			case TOptBool:
				if (t.text == "none") return Got{ true, false, t.len, "none" };
			case TBool:
				if (t.text == "on" || t.text == "true") return Got{ true, false, t.len, "yes" };
				if (t.text == "off" || t.text == "false") return Got{ true, false, t.len, "no" };
				return Fail();
			case TColor:
				return Got{ true, false, t.len, Color::FromString(t.text).ToString() };
			default: return Fail();
			}
		}
		catch (const std::exception&) { return Fail(); }
	}

	std::string S(int v) { return std::to_string(v); }
	std::string S(u8 v) { return std::to_string((int)v); }
	std::string S(bool v) { return v ? "yes" : "no"; }
	std::string S(const std::string& v) { return Quote(v); }
	std::string S(const Color& v) { return v.ToString(); }
	template < typename T > std::string S(const optional<T>& v) { return v ? S(*v) : "none"; }
	template < typename T > std::string S(const std::vector<T>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + S(v[i]); return r + "]"; }

	struct Def { int id; Strs words; std::vector<Type> types; std::map<size_t, StrSet> hints; };
	typedef std::shared_ptr<Def> DefPtr;

	// returns 1 for a match, 0 for none, -1 when it cannot be judged
	int MatchRef(const Def& d, const std::string& line, std::string& run)
	{
		size_t pos = 0; run = "h" + std::to_string(d.id);
		for (const std::string& w : d.words)
		{
			if (line.compare(pos, w.size(), w) != 0) return 0;
			pos += w.size();
			if (pos < line.size()) { if (line[pos] != ' ') return 0; ++pos; }
		}
		for (Type t : d.types)
		{
			const Got g = ReadRef(t, line, pos);
			if (g.lenient) return -1;
			if (!g.ok) return 0;
			run += " " + g.show; pos += g.len;
			if (pos < line.size()) { if (line[pos] != ' ') return 0; ++pos; }
		}
		return pos == line.size();
	}

	std::string Escape(const std::string& s, bool pending, vh::Rng* more = 0)
	{
		std::string r;
		for (char c : s) { if (!pending && (strchr(" ,]\\", c) || (more && more->Chance(1, 6)))) r += '\\'; r += c; pending = false; }
		return r;
	}

	StrSet HintsOf(const Def& d, size_t n, bool& has)
	{
		has = true;
		auto it = d.hints.find(n); if (it != d.hints.end()) return it->second;
		if (d.types[n] == TBool) return StrSet{ "on", "off", "true", "false" };
		if (d.types[n] == TColor) return StrSet{ "Red", "Green", "Greenish", "Blue", "Lowest", "Highest" };
		has = false; return StrSet();
	}

	// what can be typed next; false when it cannot be judged
	bool CompleteRef(const Def& d, const std::string& line, StrSet& out)
	{
		size_t pos = 0;
		for (const std::string& w : d.words)
		{
			const std::string rest = line.substr(pos);
			if (w.compare(0, rest.size(), rest) == 0) { out.insert(w.substr(rest.size()) + " "); return true; }
			if (rest.compare(0, w.size() + 1, w + " ") != 0) return true;
			pos += w.size() + 1;
		}
		for (size_t n = 0; n < d.types.size(); ++n)
		{
			bool has; const StrSet hints = HintsOf(d, n, has);
			if (!has)
			{
				const Got g = ReadRef(d.types[n], line, pos);
				if (g.lenient) return false;
				if (!g.ok) return true;
				pos += g.len;
			}
			else
			{
				const Tok t = Token_(line, pos);
				if (pos + t.len == line.size())
				{
					for (const std::string& h : hints) if (h.compare(0, t.text.size(), t.text) == 0) out.insert(Escape(h.substr(t.text.size()), t.pending) + " ");
					return !t.pending || out.empty() || true;
				}
				if (!hints.count(t.text)) return true;
				if (t.len == 0) return false;
				pos += t.len;
			}
			if (pos >= line.size() || line[pos] != ' ') return true;
			++pos;
		}
		return true;
	}

	// ------------------------------------------------ handlers
	Strs Ran;
	struct Quiet { LogLevel l; Quiet() : l(Logger::GetLogLevel()) { Logger::SetLogLevel(LogLevel::Error); } ~Quiet() { Logger::SetLogLevel(l); } };

	struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") { } };

	template < typename Sig_, typename L > Token Put(CmdLine& c, const Def& d, const L& f)
	{
		auto go = [&](CmdLine::CustomCompleteFuncSetter s) -> Token
		{
			for (auto& h : d.hints) { const StrSet set = h.second; s % CustomComplete(h.first, sk::F<std::set<std::string> ()>([set] { return set; })); }
			return s;
		};
		switch (d.words.size())
		{
		case 1: return go(c.Handler(d.words[0]) = sk::F<Sig_>(f));
		case 2: return go(c.Handler(d.words[0], d.words[1]) = sk::F<Sig_>(f));
		default: return go(c.Handler(d.words[0], d.words[1], d.words[2]) = sk::F<Sig_>(f));
		}
	}
	const int Shapes = 11;
	// `shape` gives the types of the parameters
	Token Install(CmdLine& c, Def& d, int shape, const std::function<void ()>& inside = std::function<void ()>())
	{
		const std::string h = "h" + std::to_string(d.id);
		auto ran = [h, inside](const std::string& args) { Ran.push_back(h + args); if (inside) inside(); };
		switch (shape)
		{
		case 0: return Put<void ()>(c, d, [ran] { ran(""); });
		case 1: return Put<void (int)>(c, d, [ran](int a) { ran(" " + S(a)); });
		case 2: return Put<void (const std::string&)>(c, d, [ran](const std::string& a) { ran(" " + S(a)); });
		case 3: return Put<void (bool)>(c, d, [ran](bool a) { ran(" " + S(a)); });
		case 4: return Put<void (const optional<int>&, const std::string&)>(c, d, [ran](const optional<int>& a, const std::string& b) { ran(" " + S(a) + " " + S(b)); });
		case 5: return Put<void (const std::vector<int>&, bool)>(c, d, [ran](const std::vector<int>& a, bool b) { ran(" " + S(a) + " " + S(b)); });
		case 6: return Put<void (Color, int)>(c, d, [ran](Color a, int b) { ran(" " + S(a) + " " + S(b)); });
		case 7: return Put<void (std::vector<std::string>)>(c, d, [ran](std::vector<std::string> a) { ran(" " + S(a)); });
		case 8: return Put<void (std::string, const std::string&)>(c, d, [ran](std::string a, const std::string& b) { ran(" " + S(a) + " " + S(b)); });
		case 9: return Put<void (u8, const optional<bool>&, Color)>(c, d, [ran](u8 a, const optional<bool>& b, Color e) { ran(" " + S(a) + " " + S(b) + " " + S(e)); });
		default: return Put<void (bool, bool)>(c, d, [ran](bool a, bool b) { ran(" " + S(a) + " " + S(b)); });
		}
	}
	std::vector<Type> TypesOf(int shape)
	{
		static const std::vector<Type> t[Shapes] = { {}, { TInt }, { TStr }, { TBool }, { TOptInt, TStr }, { TVecInt, TBool }, { TColor, TInt }, { TVecStr }, { TStr, TStr }, { TU8, TOptBool, TColor }, { TBool, TBool } };
		return t[shape];
	}
	const char* const Words[] = { "set", "se", "settle", "get", "x", "list", "on", "set on" };
	std::string AnyText(vh::Rng& rng) { static const char a[] = "aeonN1 ,]\\[#-"; std::string s; for (size_t n = 1 + rng.Below(4); n; --n) s += a[rng.Below(sizeof(a) - 1)]; return s; }
	StrSet AnyHints(vh::Rng& rng, Type t)
	{
		StrSet r;
		if (t == TInt || t == TOptInt) for (const char* x : { "1", "12", "120", "7" }) { if (rng.Bool()) r.insert(x); }
		else if (t == TStr) { for (size_t n = rng.Below(5); n; --n) r.insert(rng.Bool() ? AnyText(rng) : std::string(rng.Pick(Strs{ "on", "one", "one more", "o", "a,b", "back\\slash" }))); }
		else for (const char* x : { "on", "off" }) r.insert(x);
		return r;
	}
	DefPtr NewDef(vh::Rng& rng, int id, int& shape)
	{
		DefPtr d(new Def()); d->id = id; shape = (int)rng.Below(Shapes); d->types = TypesOf(shape);
		for (size_t n = 1 + rng.Below(rng.Bool() ? 2 : 3); n; --n) d->words.push_back(Words[rng.Below(rng.Bool() ? 3 : 8)]);
		for (size_t n = 0; n < d->types.size(); ++n) { const Type t = d->types[n]; if ((t == TInt || t == TOptInt || t == TStr || t == TBool) && rng.Chance(1, 3)) d->hints[n] = AnyHints(rng, t); }
		return d;
	}
	std::string ValueText(vh::Rng& rng, Type t)
	{
		switch (t)
		{
		case TInt: return std::to_string((int)(rng.Chance(1, 4) ? rng.Interesting() : rng.Below(200)));
		case TU8: return std::to_string(rng.Below(rng.Chance(1, 5) ? 1000 : 256));
		case TStr: return Escape(rng.Bool() ? AnyText(rng) : rng.Pick(Strs{ "on", "one", "one more", "o", "a,b" }), false, rng.Chance(1, 3) ? &rng : 0);
		case TBool: return rng.Pick(Strs{ "on", "off", "true", "false" });
		case TOptInt: return rng.Chance(1, 3) ? "none" : ValueText(rng, TInt);
		case TOptBool: return rng.Chance(1, 3) ? "none" : ValueText(rng, TBool);
		case TColor: return rng.Pick(Strs{ "Red", "Green", "Greenish", "Blue" });
		default:
			{
				std::string r = "["; const size_t n = rng.Below(4);
				for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += std::string(rng.Below(2), ' ') + ValueText(rng, t == TVecInt ? TInt : TStr) + std::string(rng.Chance(1, 4), ' '); }
				return r + "]";
			}
		}
	}
	std::string ValidLine(vh::Rng& rng, const Def& d)
	{
		std::string l;
		for (const std::string& w : d.words) l += (l.empty() ? "" : " ") + w;
		for (size_t n = 0; n < d.types.size(); ++n)
		{
			auto it = d.hints.find(n);
			if (it != d.hints.end() && it->second.size() && rng.Chance(2, 3)) { auto h = it->second.begin(); std::advance(h, rng.Below(it->second.size())); l += " " + Escape(*h, false); }
			else l += " " + ValueText(rng, d.types[n]);
		}
		if (rng.Chance(1, 6)) l += " ";
		return l;
	}
	void Mutate(vh::Rng& rng, std::string& l)
	{
		static const char a[] = " ,]\\[#aeon1-";
		switch (rng.Below(5))
		{
		case 0: l = l.substr(0, rng.Below(l.size() + 1)); break;
		case 1: if (l.size()) l.erase(rng.Below(l.size()), 1); break;
		case 2: l.insert(rng.Below(l.size() + 1), 1, a[rng.Below(sizeof(a) - 1)]); break;
		case 3: if (l.size()) l[rng.Below(l.size())] = a[rng.Below(sizeof(a) - 1)]; break;
		default: l += rng.Bool() ? " 1" : "on";
		}
	}
	std::string Text(const StrSet& s) { std::string r = "{"; for (auto& x : s) r += " " + Quote(x); return r + " }"; }

	// what the line means for the registered commands
	void CheckLine(CmdLine& c, const std::vector<DefPtr>& defs, const std::string& line)
	{
		int expected = 0; std::string run;
		if (line.empty() || line[0] != '#') for (auto& d : defs) { expected = MatchRef(*d, line, run); if (expected) break; }
		if (expected >= 0)
		{
			Ran.clear();
			const bool ok = c.Execute(line);
			if (!line.empty() && line[0] == '#') VH_CHECK(ok && Ran.empty(), "cmd:comment", Quote(line));
			else
			{
				VH_CHECK(ok == (expected == 1), "cmd:accepted", Quote(line) << (ok ? " accepted by " + (Ran.empty() ? std::string("none") : Ran[0]) : " refused instead of " + run));
				VH_CHECK(Ran.size() == (size_t)expected && (!expected || Ran[0] == run), "cmd:run", Quote(line) << ": " << (Ran.empty() ? std::string("none") : Ran[0]) << " (" << Ran.size() << ") instead of " << (expected ? run : "none"));
			}
			vh_count(expected ? "lines_run" : "lines_refused", 1);
		}
		StrSet want, got; bool judged = true;
		for (auto& d : defs) judged = CompleteRef(*d, line, want) && judged;
		if (judged)
		{
			got.insert("mine"); want.insert("mine");
			c.Complete(line, got);
			VH_CHECK(got == want, "cmd:complete", Quote(line) << ": " << Text(got) << " instead of " << Text(want));
			vh_count("completions", got.size() - 1);
		}
		vh_distinct("lines", vh::HashStr(line));
	}
}

VH_SCENARIO(lines)
{
	Quiet q; CmdLine c; std::vector<DefPtr> defs; std::vector<Token> tokens; int id = 0;
	const int steps = 10 + (int)rng.Below(20);
	for (int i = 0; i < steps && !vh_violated(); ++i)
	{
		if (defs.empty() || (defs.size() < 6 && rng.Chance(1, 5))) { int shape; DefPtr d = NewDef(rng, id++, shape); tokens.push_back(Install(c, *d, shape)); defs.push_back(d); }
		else if (rng.Chance(1, 10)) { const size_t n = rng.Below(defs.size()); tokens[n].Reset(); tokens.erase(tokens.begin() + n); defs.erase(defs.begin() + n); }
		std::string line = defs.empty() ? "x" : ValidLine(rng, *defs[rng.Below(defs.size())]);
		for (u64 n = rng.Below(3); n; --n) Mutate(rng, line);
		CheckLine(c, defs, line);
	}
}

// Types lines by choosing among the completions; values without hints are typed by hand. The line has to be accepted in the end.
VH_SCENARIO(typing)
{
	Quiet q; CmdLine c; std::vector<DefPtr> defs; std::vector<Token> tokens;
	for (int i = 0, n = 1 + (int)rng.Below(4); i < n; ++i) { int shape; DefPtr d = NewDef(rng, i, shape); tokens.push_back(Install(c, *d, shape)); defs.push_back(d); }
	std::string line, trace;
	for (int step = 0; step < 12 && !vh_violated(); ++step)
	{
		StrSet got; c.Complete(line, got);
		CheckLine(c, defs, line);
		if (got.size())
		{
			auto it = got.begin(); std::advance(it, rng.Below(got.size()));
			std::string add = *it;
			if (rng.Chance(1, 3)) add = add.substr(0, rng.Below(add.size()));
			line += add; trace += "|" + add;
			if (rng.Chance(1, 8)) { if (line.size()) line.resize(line.size() - 1); }
			continue;
		}
		Ran.clear(); std::string run; bool judged = true; for (auto& d : defs) judged = judged && MatchRef(*d, line, run) >= 0;
		if (judged && c.Execute(line)) { vh_count("typed_lines", 1); break; }
		// a value that the commands do not suggest
		const Def& d = *defs[rng.Below(defs.size())];
		if (d.types.empty()) continue;
		line += ValueText(rng, d.types[rng.Below(d.types.size())]) + " ";
	}
	vh_distinct("typed", vh::HashStr(line)); vh_sample(trace.c_str());
}

// Handlers that change the commands, fail, or execute other lines while they run.
VH_SCENARIO(reentry)
{
	Quiet q; CmdLine c; std::map<int, Token> tokens; std::vector<DefPtr> defs; int id = 0; int depth = 0;
	std::string trace; std::vector<DefPtr> running;
	std::function<void ()> add;
	std::map<int, std::shared_ptr<std::string>> alive;
	add = [&]
	{
		DefPtr d(new Def()); d->id = id++; int shape = rng.Bool() ? 0 : 1; d->types = TypesOf(shape); d->words.push_back(Words[rng.Below(4)]);
		const int self = d->id; const u64 what = rng.Below(6);
		std::shared_ptr<std::string> canary(new std::string("a captured string that is long enough to be on the heap " + std::to_string(self)));
		trace += " add" + std::to_string(self) + ":" + std::to_string(what);
		defs.push_back(d);
		const std::string expected = *canary;
		auto own = std::make_shared<std::string>(*canary);
		tokens[self] = Install(c, *d, shape, [&, self, what, own, expected]
			{
				if (depth > 3) return;
				++depth;
				switch (what)
				{
				case 1: case 2: tokens[self].Reset(); defs.erase(std::remove_if(defs.begin(), defs.end(), [&](const DefPtr& x) { return x->id == self; }), defs.end()); trace += " -" + std::to_string(self); break;
				case 3: if (defs.size() < 6) add(); break;
				case 4: if (defs.size()) { const int other = defs[rng.Below(defs.size())]->id; tokens[other].Reset(); defs.erase(std::remove_if(defs.begin(), defs.end(), [&](const DefPtr& x) { return x->id == other; }), defs.end()); trace += " -" + std::to_string(other); } break;
				case 5: { const Strs saved = Ran; c.Execute(Words[rng.Below(4)]); Ran = saved; break; }
				default: break;
				}
				--depth;
				VH_CHECK(*own == expected, "cmd:captures", trace);
			});
	};
	for (int i = 0; i < 12 && !vh_violated(); ++i)
	{
		if (defs.empty() || rng.Chance(1, 3)) add();
		const std::string line = std::string(Words[rng.Below(4)]) + (rng.Bool() ? " 5" : "");
		trace += " " + Quote(line);
		int expected = 0; std::string run; for (auto& d : defs) { expected = MatchRef(*d, line, run); if (expected) break; }
		Ran.clear();
		const bool ok = c.Execute(line);
		VH_CHECK(ok == (expected == 1) && Ran.size() == (size_t)expected && (!expected || Ran[0] == run), "cmd:run", trace << ": " << (Ran.empty() ? std::string("none") : Ran[0]) << " instead of " << (expected ? run : "none"));
		vh_count("reentrant_lines", 1);
	}
	vh_distinct("reentries", vh::HashStr(trace));
	tokens.clear();
	StrSet left; c.Complete("", left); VH_CHECK(left.empty() && !c.Execute("set"), "cmd:released", trace);
}

// ---------------------------------------------------------------- threads
enum { RunEnter = 1, RunExit, ExecCall, ExecRet, RegCall, RegRet, RelCall, RelRet };
static const char* const Names[] = { "?", "enter", "exit", "execute", "executed", "register", "registered", "release", "released" };

namespace {
	const int NWords = 3;

	struct LoggedToken : public virtual IToken
	{
		int id; Token t;
		LoggedToken(int i, Token&& tt) : id(i), t(std::move(tt)) { }
		~LoggedToken() { vh_log(RelCall, id, 0, 0); t.Reset(); vh_log(RelRet, id, 0, 0); }
	};

	void Concurrent(vh::Rng& rng)
	{
		Quiet q; vh_log_clear();
		std::unique_ptr<CmdLine> c(new CmdLine()); CmdLine* pc = c.get();
		std::atomic<int> ids(1), calls(1);
		struct Body
		{
			int id; u64 r; std::shared_ptr<std::string> own;
			void operator () (int call) const
			{
				const std::string mine = *own;
				vh_log(RunEnter, id, call, 0);
				for (u64 n = r & 3; n; --n) vs_yield();
				VH_CHECK(*own == mine, "cmd:captures", "");
				vh_log(RunExit, id, call, 0);
			}
		};
		auto reg = [&, pc](vh::Rng& r) -> Token
		{
			const int id = ids++, word = (int)r.Below(NWords);
			Body b = { id, r.Next(), std::make_shared<std::string>(40, (char)('a' + id % 26)) };
			vh_log(RegCall, id, word, 0);
			Token t = pc->Handler(Words[word]) = sk::F<void (int)>([b](int call) { b(call); });
			vh_log(RegRet, id, word, 0);
			return MakeToken<LoggedToken>(id, std::move(t));
		};
		std::vector<Token> initial; for (u64 n = rng.Below(3); n; --n) initial.push_back(reg(rng));
		vs::Threads ts; const u64 seed = rng.Next(); const int n = 2 + (int)rng.Below(3);
		for (int i = 0; i < n; ++i)
			ts.Add([&, pc, i, seed]
			{
				vh::Rng r(seed + i); std::vector<Token> mine;
				if (i == 0) mine.swap(initial);
				for (int s = 0; s < 4; ++s)
				{
					const u64 op = r.Below(10);
					if (op < 5)
					{
						const int call = calls++, word = (int)r.Below(NWords);
						vh_log(ExecCall, call, word, 0);
						const bool ok = pc->Execute(std::string(Words[word]) + " " + std::to_string(call));
						vh_log(ExecRet, call, ok, 0);
					}
					else if (op < 8) mine.push_back(reg(r));
					else if (op < 9) { if (mine.size()) mine.erase(mine.begin() + r.Below(mine.size())); }
					else { StrSet out; pc->Complete("", out); for (auto& x : out) VH_CHECK(x == "set " || x == "se " || x == "settle ", "cmd:complete", Quote(x)); }
					vs::Pause(r);
				}
				if (r.Bool()) mine.clear();
				else while (mine.size()) mine.pop_back();
			});
		ts.Join();
		StrSet left; pc->Complete("", left); VH_CHECK(left.empty(), "cmd:released", Text(left));
		c.reset();

		// judgement over the recorded events
		struct Cmd { int64_t word; uint32_t regCall, regRet, relCall, relRet; };
		struct Exec { int64_t word; uint32_t call, ret; bool ok; std::vector<std::pair<int, uint32_t>> runs; };
		std::map<int, Cmd> cmds; std::map<int, Exec> execs; const uint32_t never = ~0u;
		std::map<int, std::vector<uint32_t>> enters, exits;
		for (uint32_t i = 0; i < vh_log_size(); ++i)
		{
			const vh_event& e = *vh_log_at(i);
			switch (e.type)
			{
			case RegCall: cmds[e.a] = Cmd{ e.b, i, never, never, never }; break;
			case RegRet: cmds[e.a].regRet = i; break;
			case RelCall: cmds[e.a].relCall = i; break;
			case RelRet: cmds[e.a].relRet = i; break;
			case ExecCall: execs[e.a] = Exec{ e.b, i, never, false, {} }; break;
			case ExecRet: execs[e.a].ret = i; execs[e.a].ok = e.b; break;
			case RunEnter: execs[e.b].runs.push_back(std::make_pair((int)e.a, i)); enters[e.a].push_back(i); break;
			case RunExit: exits[e.a].push_back(i); break;
			}
		}
		const std::string log = vh_violated() ? "" : vs::DumpLog(Names);
		for (auto& x : execs)
		{
			const Exec& e = x.second;
			VH_CHECK(e.runs.size() == (e.ok ? 1u : 0u), "cmd:run-count", "line " << x.first << " ran " << e.runs.size() << " commands, result " << e.ok << log);
			if (e.runs.size()) VH_CHECK(cmds[e.runs[0].first].word == e.word, "cmd:run", "line " << x.first << log);
			for (auto& k : cmds)
			{
				const Cmd& cm = k.second;
				if (cm.word != e.word || !(cm.regRet < e.call && cm.relCall > e.ret)) continue;   // there during the whole execution
				VH_CHECK(e.ok, "cmd:accepted", "line " << x.first << " refused although command " << k.first << " was there" << log);
				// an earlier registered command goes first
				if (e.ok && e.runs.size() && e.runs[0].first != k.first) VH_CHECK(cmds[e.runs[0].first].regCall < cm.regRet, "cmd:order", "line " << x.first << " ran " << e.runs[0].first << " before " << k.first << log);
			}
			vh_count("concurrent_lines", 1);
		}
		for (auto& k : cmds)
		{
			for (uint32_t i : enters[k.first]) VH_CHECK(i < k.second.relRet && i > k.second.regCall, "cmd:run-after-release", "command " << k.first << log);
			for (uint32_t i : exits[k.first]) VH_CHECK(i < k.second.relRet, "cmd:released-while-running", "command " << k.first << log);
		}
		vh_distinct("interleavings", vh_log_hash());
	}
}
VH_SCHED_SCENARIO(cmd_threads) { Concurrent(rng); }
VH_FREE_SCENARIO(free_cmds) { vs_noise(30, 20); Concurrent(rng); vs_noise(0, 0); }
