// C18: conversion to text and parsing, judged by reference printers and parsers written for the harness.
#include "vh.h"
#include "sk.h"
#include <stingraykit/Tuple.h>
#include <stingraykit/UUID.h>
#include <stingraykit/Version.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/string/Hex.h>
#include <stingraykit/string/HumanReadableSize.h>
#include <stingraykit/string/StringFormat.h>
#include <stingraykit/string/StringParse.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/string/lexical_cast.h>
#include <cmath>
#include <limits>
#include <list>
#include <map>
#include <set>

using namespace stingray;

namespace {
	typedef __int128 Wide;

	std::string Digits(unsigned __int128 v, unsigned base = 10, bool capital = false)
	{ std::string r; do { const unsigned d = (unsigned)(v % base); r.insert(r.begin(), d < 10 ? char('0' + d) : char((capital ? 'A' : 'a') + d - 10)); v /= base; } while (v); return r; }
	std::string Print(Wide v) { return v < 0 ? "-" + Digits((unsigned __int128)-v) : Digits((unsigned __int128)v); }

	// a sign, at least one digit, and a value that fits; unsigned types take no minus
	template < typename T > bool RefInt(const std::string& s, T& out)
	{
		size_t i = 0; const bool neg = !s.empty() && s[0] == '-'; if (neg || (!s.empty() && s[0] == '+')) ++i;
		if (i == s.size() || (neg && !std::numeric_limits<T>::is_signed)) return false;
		Wide v = 0; const Wide cap = (Wide)1 << 70;
		for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > cap) v = cap; }
		if (neg) v = -v;
		if (v < (Wide)std::numeric_limits<T>::min() || v > (Wide)std::numeric_limits<T>::max()) return false;
		out = (T)v; return true;
	}
	bool RefDouble(const std::string& s, double& out)
	{
		if (s.empty() || s.size() != strlen(s.c_str()) || s.find_first_of("xXnNiIpP") != std::string::npos) return false;
		char* end = nullptr; errno = 0; out = strtod(s.c_str(), &end); return end == s.c_str() + s.size() && !(errno == ERANGE && std::fabs(out) == HUGE_VAL);
	}

	template < typename T > T AnyInt(vh::Rng& rng)
	{
		typedef std::numeric_limits<T> L;
		switch (rng.Below(5))
		{
		case 0: return (T)(L::min() + (T)rng.Below(3)); case 1: return (T)(L::max() - (T)rng.Below(3)); case 2: return (T)rng.Below(12);
		case 3: { Wide v = 1; for (size_t n = rng.Below(20); n; --n) v *= 10; v += (Wide)rng.Below(3) - 1; if (rng.Bool()) v = -v; return v < (Wide)L::min() || v > (Wide)L::max() ? (T)0 : (T)v; }
		default: return (T)(rng.Below(~0ull) >> rng.Below(64));
		}
	}
	template < > bool AnyInt<bool>(vh::Rng& rng) { return rng.Bool(); }

	// a spelling near a number: the number itself, one past a limit, or one with odd characters, signs, zeros or nothing at all
	template < typename T > std::string Spelling(vh::Rng& rng)
	{
		typedef std::numeric_limits<T> L; std::string s;
		switch (rng.Below(7))
		{
		case 0: s = Print((Wide)L::max() + (Wide)rng.Below(3)); break; case 1: s = Print((Wide)L::min() - (Wide)rng.Below(3)); break;
		case 2: s = Print((Wide)(rng.Bool() ? L::max() : L::min()) * 10 + (Wide)rng.Below(10)); break;
		case 3: { const char* odd[] = { "", "-", "+", "--1", "+-1", "-+1", "-0", "+0", " 1", "1 ", "0x1", "1e3", "1.0", "1,000", "\t5", "5\n", "٣", "0-", "1-1", "00", "-00" }; s = odd[rng.Below(sizeof odd / sizeof *odd)]; break; }
		case 4: for (size_t n = rng.Below(26); n; --n) s.push_back(char('0' + rng.Below(10))); break;
		default: s = Print((Wide)AnyInt<T>(rng));
		}
		if (rng.Chance(1, 4)) { const size_t at = !s.empty() && (s[0] == '-' || s[0] == '+') ? 1 : 0; s.insert(at, rng.Below(rng.Chance(1, 6) ? 60 : 4), '0'); }
		if (rng.Chance(1, 10)) s.insert(0, 1, "+- "[rng.Below(3)]);
		if (rng.Chance(1, 6)) { const char odd[] = "09/:;+-.aAfFgG xX_\0\xff"; const char c = odd[rng.Below(sizeof odd - 1)]; s.insert(rng.Below(s.size() + 1), 1, c); }
		if (rng.Chance(1, 12) && !s.empty()) s.erase(rng.Below(s.size()), 1);
		return s;
	}
	std::string Q(const std::string& s) { return "'" + vh::Printable(s) + "'"; }

	template < typename T > optional<T> Parse(vh::Rng& rng, const std::string& s)
	{
		const std::string embedded = "7" + s + "7"; const string_view view(embedded.data() + 1, s.size());   // not terminated, and wrong if read past its end
		try
		{
			switch (rng.Below(7))
			{
			case 0: return FromString<T>(s); case 1: return FromString<T>(view); case 2: return s.find('\0') == std::string::npos ? FromString<T>(s.c_str()) : FromString<T>(s);
			case 3: return TryFromString<T>(s); case 4: return TryFromString<T>(view); case 5: return lexical_cast<T>(s); default: return FromStringInterpreter<T>()(view);
			}
		}
		catch (const std::exception&) { return null; }
	}

	template < typename T > void Integer(vh::Rng& rng, const char* type)
	{
		for (int n = 0; n < 12; ++n)
		{
			const T v = AnyInt<T>(rng); const std::string text = ToString(v), expected = IsSame<T, bool>::Value ? (v ? "true" : "false") : Print((Wide)v);
			VH_CHECK(text == expected, "text:integer", type << " " << Print((Wide)v) << " printed as " << Q(text));
			const optional<T> back = Parse<T>(rng, Print((Wide)v));
			VH_CHECK(back && *back == v, "text:integer-back", type << " " << Print((Wide)v) << " parsed as " << (back ? Print((Wide)*back) : "nothing"));
			string_ostream os; os << "<" << v << ">"; VH_CHECK(os.str() == "<" + expected + ">", "text:stream", type << " " << os.str());
		}
		const std::string s = Spelling<T>(rng); T ref = T(); const bool valid = RefInt<T>(s, ref); const optional<T> got = Parse<T>(rng, s);
		VH_CHECK(got.is_initialized() == valid && (!valid || *got == ref), "text:integer-parse", type << " from " << Q(s) << " gave " << (got ? Print((Wide)*got) : "a refusal") << " instead of " << (valid ? Print((Wide)ref) : "a refusal"));
		vh_distinct(type, vh::HashStr(s)); vh_count(valid ? "valid spellings" : "invalid spellings", 1);
	}
}

VH_SCENARIO(integers)
{
	switch (rng.Below(12))
	{
	case 0: Integer<bool>(rng, "bool"); break; case 1: Integer<s8>(rng, "s8"); break; case 2: Integer<u8>(rng, "u8"); break; case 3: Integer<s16>(rng, "s16"); break; case 4: Integer<u16>(rng, "u16"); break;
	case 5: Integer<s32>(rng, "s32"); break; case 6: Integer<u32>(rng, "u32"); break; case 7: Integer<s64>(rng, "s64"); break; case 8: Integer<u64>(rng, "u64"); break;
	case 9: Integer<long>(rng, "long"); break; case 10: Integer<unsigned long>(rng, "unsigned long"); break; default: Integer<int>(rng, "int");
	}
}

namespace {
	template < typename T > void HexInt(vh::Rng& rng, const char* type)
	{
		typedef typename std::make_unsigned<T>::type U;
		for (int n = 0; n < 8; ++n)
		{
			const T v = AnyInt<T>(rng); const size_t width = rng.Below(2 * sizeof(T) + 4); const bool capital = rng.Bool(), prefix = rng.Bool();
			std::string expected = Digits((U)v, 16, capital); if (expected.size() < width) expected.insert(0, width - expected.size(), '0');
			const std::string text = ToHex(v, width, capital, prefix);
			VH_CHECK(text == (prefix ? "0x" : "") + expected, "text:hex", type << " " << Print((Wide)v) << " width " << width << " printed as " << Q(text));
			if (v >= 0) { const T back = FromHex<T>(rng.Bool() ? string_view(expected) : string_view(expected.c_str())); VH_CHECK(back == v, "text:hex-back", type << " " << Q(expected) << " parsed as " << Print((Wide)back)); }
			const size_t w = rng.Below(20); std::string padded = Digits((U)v, 16); if (padded.size() < w) padded.insert(0, w - padded.size(), '0');
			VH_CHECK(Hex(v, w).ToString() == padded && ToString(Hex(v, w)) == padded, "text:hex-format", type << " " << Print((Wide)v) << " width " << w << " printed as " << Q(Hex(v, w).ToString()));
		}
		std::string s = rng.Chance(1, 12) ? std::string() : Digits((unsigned __int128)(rng.Bool() ? (Wide)std::numeric_limits<T>::max() + (Wide)rng.Below(3) : (Wide)(rng.Below(~0ull) >> rng.Below(64))), 16, rng.Bool());
		if (rng.Chance(1, 3)) s.insert(0, rng.Below(5), '0'); if (rng.Chance(1, 4)) { const char odd[] = "09afAFgG/:@`Xx -+\0\x80"; s.insert(rng.Below(s.size() + 1), 1, odd[rng.Below(sizeof odd - 1)]); }
		bool valid = !s.empty(); unsigned __int128 ref = 0; for (const char c : s) { if (!isxdigit((unsigned char)c)) { valid = false; break; } ref = std::min(ref * 16 + (isdigit((unsigned char)c) ? c - '0' : (c | 32) - 'a' + 10), (unsigned __int128)1 << 70); }
		if (ref > (unsigned __int128)std::numeric_limits<T>::max()) valid = false;
		optional<T> got; try { got = FromHex<T>(rng.Bool() ? string_view(s) : string_view(s.data(), s.size())); } catch (const std::exception&) { }
		VH_CHECK(got.is_initialized() == valid && (!valid || (unsigned __int128)*got == ref), "text:hex-parse", type << " from " << Q(s) << " gave " << (got ? Print((Wide)*got) : "a refusal"));
		vh_distinct(type, vh::HashStr(s));
	}
	void HexBytes(vh::Rng& rng)
	{
		std::vector<u8> v(rng.Below(40)); for (u8& b : v) b = (u8)rng.Below(256); std::string plain; for (const u8 b : v) { char c[3]; snprintf(c, sizeof c, "%02x", b); plain += c; }
		const ByteArray data(v.data() ? ConstByteData(v.data(), v.size()) : ConstByteData()); const bool prefix = rng.Bool(), capital = rng.Bool(); const size_t width = rng.Below(90);
		std::string expected = plain; if (capital) for (char& c : expected) c = (char)toupper(c); if (expected.size() < width) expected.insert(0, width - expected.size(), '0');
		VH_CHECK(ToHex(data, width, capital, prefix) == (prefix ? "0x" : "") + expected, "text:hex-bytes", Q(plain) << " printed as " << Q(ToHex(data, width, capital, prefix)));
		std::string s = ToHex(data, 0, capital, prefix); const bool odd = rng.Chance(1, 4); if (odd && s.size() > (prefix ? 2u : 0u)) s.erase(prefix ? 2 : 0, 1);
		bool bad = rng.Chance(1, 4); const size_t skip = s.compare(0, 2, "0x") == 0 ? 2 : 0; if (bad) { const char o[] = "gG/:@`xX -+\0\x80"; s.insert(skip + rng.Below(s.size() - skip + 1), 1, o[rng.Below(sizeof o - 1)]); if (s.compare(0, 2, "0x") == 0 && skip == 0) bad = false; }
		std::vector<u8> ref; { const std::string body = s.substr(s.compare(0, 2, "0x") == 0 ? 2 : 0); for (const char c : body) if (!isxdigit((unsigned char)c)) bad = true; if (!bad) for (size_t i = 0; i < body.size(); ) { const size_t n = i == 0 && body.size() % 2 ? 1 : 2; ref.push_back((u8)strtoul(body.substr(i, n).c_str(), nullptr, 16)); i += n; } }
		bool refused = false; ByteArray got; try { got = FromHex<ByteArray>(s); } catch (const std::exception&) { refused = true; }
		VH_CHECK(refused == bad && (bad || std::vector<u8>(got.begin(), got.end()) == ref), "text:hex-bytes-parse", Q(s) << (refused ? " refused" : " read as " + ToHex(got)));
		const size_t columns = 1 + rng.Below(20); std::string dump; for (size_t o = 0; o < v.size(); o += columns)
		{
			char c[16]; snprintf(c, sizeof c, "%08zx: ", o); dump += c; std::string chars; for (size_t i = 0; i < columns; ++i) { if (o + i < v.size()) { snprintf(c, sizeof c, "%02x ", v[o + i]); dump += c; chars += v[o + i] >= 0x20 && v[o + i] < 0x7f ? (char)v[o + i] : '.'; } else dump += "   "; } dump += chars; if (o + columns < v.size()) dump += "\n";
		}
		VH_CHECK(ToString(HexDump(v.data(), v.size(), columns)) == dump && ToString(HexDump(data, std::numeric_limits<size_t>::max(), columns)) == dump, "text:hex-dump", Q(plain) << " in " << columns << " columns printed as " << Q(ToString(HexDump(v.data(), v.size(), columns))));
		const size_t limit = rng.Below(20); std::string brief = "{ "; for (size_t i = 0; i < std::min(limit, v.size()); ++i) { char c[4]; snprintf(c, sizeof c, "%02x ", v[i]); brief += c; } if (limit < v.size()) brief += "... "; brief += "}";
		VH_CHECK(ToString(ShortHexDump(v.data(), v.size(), limit)) == brief, "text:hex-dump", Q(plain) << " limited to " << limit << " printed as " << Q(ToString(ShortHexDump(v.data(), v.size(), limit))));
		vh_distinct("bytes", vh::HashStr(s));
	}
}

VH_SCENARIO(hex)
{
	switch (rng.Below(10))
	{
	case 0: HexInt<u8>(rng, "u8"); break; case 1: HexInt<u16>(rng, "u16"); break; case 2: HexInt<u32>(rng, "u32"); break; case 3: HexInt<u64>(rng, "u64"); break;
	case 4: HexInt<s16>(rng, "s16"); break; case 5: HexInt<s32>(rng, "s32"); break; case 6: HexInt<s64>(rng, "s64"); break;
	default: HexBytes(rng);
	}
}

namespace {
	struct Plain { STINGRAYKIT_ENUM_VALUES(Alpha, Beta, Gamma = 17, Delta, Negative = -5, Mid, Lowest = -0x7fffffff - 1, Highest = 0x7fffffff); STINGRAYKIT_DECLARE_ENUM_CLASS(Plain); };
	struct Flags { STINGRAYKIT_ENUM_VALUES(Read = 1, Write = 2, ReadWrite = 3, Exec = 4, Sticky = 64, Setuid = 0x40000000, Full = -1); STINGRAYKIT_DECLARE_ENUM_CLASS(Flags); };
	STINGRAYKIT_DECLARE_ENUM_CLASS_BIT_OPERATORS(Flags);
	struct Lone { STINGRAYKIT_ENUM_VALUES(Only = 9, Low = -0x7fffffff - 1); STINGRAYKIT_DECLARE_ENUM_CLASS(Lone); };
	typedef std::vector<std::pair<std::string, int> > Names;

	// names in a sum separated by |, blanks around them, or a decimal number of 32 bits
	bool RefEnum(const Names& all, const std::string& s, int& out)
	{
		const char* ws = " \t\n\r"; const size_t first = s.find_first_not_of(ws); if (first == std::string::npos) return false;
		if (isdigit((unsigned char)s[first])) { const size_t end = s.find_first_not_of("0123456789", first); if (end != std::string::npos && s.find_first_not_of(ws, end) != std::string::npos) return false; u32 v = 0; if (!RefInt<u32>(s.substr(first, end - first), v)) return false; out = (int)v; return true; }
		unsigned v = 0;
		for (size_t p = 0; p <= s.size(); )
		{
			const size_t q = std::min(s.find('|', p), s.size()); const std::string raw = s.substr(p, q - p); p = q + 1; const size_t b = raw.find_first_not_of(ws); if (b == std::string::npos) continue;
			const std::string name = raw.substr(b, raw.find_last_not_of(ws) - b + 1); bool known = false; for (const auto& k : all) if (k.first == name) { v |= (unsigned)k.second; known = true; } if (!known) return false;
		}
		out = (int)v; return true;
	}
	template < typename T > void EnumText(vh::Rng& rng, const char* type, const Names& all)
	{
		const int v = rng.Bool() ? rng.Pick(all).second : rng.Chance(1, 3) ? (int)rng.Below(5) : rng.Bool() ? (rng.Pick(all).second | rng.Pick(all).second | rng.Pick(all).second) : AnyInt<int>(rng);
		const T value((typename T::Enum)v); const std::string text = value.ToString(); int again = 0; std::string name; for (const auto& k : all) if (k.second == v) name = k.first;
		VH_CHECK((name.empty() ? RefEnum(all, text, again) && again == v : text == name) && ToString(value) == text, "text:enum", type << " " << v << " printed as " << Q(text));
		optional<T> back; try { back = T::FromString(text); } catch (const std::exception&) { } VH_CHECK(back && (int)(typename T::Enum)*back == v, "text:enum-back", type << " " << v << " printed as " << Q(text) << (back ? " parsed as something else" : " refused"));
		std::string s = rng.Bool() ? text : rng.Pick(all).first; const char* sep[] = { "|", " | ", " ", "", "||", ",", " x", "\t|\n", "+" }; for (size_t n = rng.Below(3); n; --n) s += std::string(sep[rng.Below(9)]) + (rng.Chance(1, 6) ? "Nobody" : rng.Pick(all).first);
		if (rng.Chance(1, 8)) s = std::string(rng.Bool() ? " " : "") + Print((Wide)rng.Below(1ull << (30 + rng.Below(6)))) + (rng.Chance(1, 3) ? " " : rng.Chance(1, 3) ? " 4" : ""); if (rng.Chance(1, 8) && !s.empty()) s.erase(rng.Below(s.size()), 1); if (rng.Chance(1, 8)) s.insert(rng.Below(s.size() + 1), 1, "| aZ0-\n"[rng.Below(7)]);
		int ref = 0; const bool valid = RefEnum(all, s, ref); const optional<T> got = Parse<T>(rng, s);
		VH_CHECK(got.is_initialized() == valid && (!valid || (int)(typename T::Enum)*got == ref), "text:enum-parse", type << " from " << Q(s) << " gave " << (got ? std::to_string((int)(typename T::Enum)*got) : "a refusal") << " instead of " << (valid ? std::to_string(ref) : "a refusal"));
		std::vector<int> values, expected; for (typename T::const_iterator i = T::begin(); i != T::end(); ++i) values.push_back((int)(typename T::Enum)*i); for (const auto& k : all) expected.push_back(k.second); VH_CHECK(values == expected, "text:enum-values", type);
		vh_distinct(type, vh::HashStr(s)); vh_count(valid ? "valid spellings" : "invalid spellings", 1);
	}
}

VH_SCENARIO(enums)
{
	switch (rng.Below(3))
	{
	case 0: EnumText<Plain>(rng, "Plain", Names({ { "Alpha", 0 }, { "Beta", 1 }, { "Gamma", 17 }, { "Delta", 18 }, { "Negative", -5 }, { "Mid", -4 }, { "Lowest", -0x7fffffff - 1 }, { "Highest", 0x7fffffff } })); break;
	case 1: EnumText<Flags>(rng, "Flags", Names({ { "Read", 1 }, { "Write", 2 }, { "ReadWrite", 3 }, { "Exec", 4 }, { "Sticky", 64 }, { "Setuid", 0x40000000 }, { "Full", -1 } })); break;
	default: EnumText<Lone>(rng, "Lone", Names({ { "Only", 9 }, { "Low", -0x7fffffff - 1 } }));
	}
}

VH_SCENARIO(identifiers)
{
	{   // versions
		const unsigned a = AnyInt<unsigned>(rng), b = AnyInt<unsigned>(rng), c = AnyInt<unsigned>(rng); const bool build = rng.Bool(); const Version v = build ? Version(a, b, c) : Version(a, b);
		const std::string text = v.ToString(), expected = Print(a) + "." + Print(b) + (build ? "." + Print(c) : ""); VH_CHECK(text == expected, "text:version", Q(expected) << " printed as " << Q(text));
		std::string s = text; if (rng.Bool()) { if (rng.Chance(1, 2)) s.insert(rng.Below(s.size() + 1), 1, ".-+0 a9"[rng.Below(7)]); else if (rng.Bool()) s.erase(rng.Below(s.size()), 1 + rng.Below(3)); else s = Spelling<unsigned>(rng) + "." + Spelling<unsigned>(rng) + (rng.Bool() ? "." + Spelling<unsigned>(rng) : ""); }
		std::vector<std::string> parts; for (size_t p = 0; p <= s.size(); ) { const size_t q = std::min(s.find('.', p), s.size()); parts.push_back(s.substr(p, q - p)); p = q + 1; }
		unsigned n[3] = { 0, 0, 0 }; bool valid = parts.size() == 2 || parts.size() == 3; for (size_t i = 0; valid && i < parts.size(); ++i) valid = RefInt<unsigned>(parts[i], n[i]);
		optional<Version> got; try { got = Version::FromString(s); } catch (const std::exception&) { }
		VH_CHECK(got.is_initialized() == valid && (!valid || (got->GetMajor() == n[0] && got->GetMinor() == n[1] && got->GetBuild() == (parts.size() == 3 ? optional<unsigned>(n[2]) : optional<unsigned>()))), "text:version-parse", Q(s) << " gave " << (got ? got->ToString() : "a refusal"));
		vh_distinct("version", vh::HashStr(s));
	}
	{   // unique identifiers
		u8 raw[16]; for (u8& b : raw) b = (u8)(rng.Chance(1, 4) ? rng.Below(2) * 255 : rng.Below(256)); const bool stamp = rng.Chance(1, 4); const UUID id(ConstByteData(raw, 16), stamp); u8 want[16]; memcpy(want, raw, 16); if (stamp) { want[6] = (u8)((want[6] & 0x0f) | 0x40); want[8] = (u8)((want[8] & 0x3f) | 0x80); }
		std::string expected; for (int i = 0; i < 16; ++i) { char c[3]; snprintf(c, sizeof c, "%02x", want[i]); expected += c; if (i == 3 || i == 5 || i == 7 || i == 9) expected += '-'; }
		VH_CHECK(id.ToString() == expected, "text:uuid", expected << " printed as " << Q(id.ToString()));
		std::string s = expected; if (rng.Chance(1, 3)) for (char& c : s) c = (char)toupper(c); if (rng.Bool()) { const char odd[] = "gG-0aF {}\0x"; if (rng.Chance(2, 3)) s[rng.Below(s.size())] = odd[rng.Below(sizeof odd - 1)]; else if (rng.Bool()) s.insert(rng.Below(s.size() + 1), 1, odd[rng.Below(sizeof odd - 1)]); else s.erase(rng.Below(s.size()), 1); }
		bool valid = s.size() == 36; u8 ref[16]; size_t n = 0; std::string nibbles; for (size_t i = 0; valid && i < 36; ++i) if (i == 8 || i == 13 || i == 18 || i == 23) valid = s[i] == '-'; else if (isxdigit((unsigned char)s[i])) nibbles += s[i]; else valid = false; if (valid) for (; n < 16; ++n) ref[n] = (u8)strtoul(nibbles.substr(2 * n, 2).c_str(), nullptr, 16);
		const optional<UUID> got = Parse<UUID>(rng, s); VH_CHECK(got.is_initialized() == valid && (!valid || *got == UUID(ConstByteData(ref, 16))), "text:uuid-parse", Q(s) << " gave " << (got ? got->ToString() : "a refusal"));
		u8 other[16]; memcpy(other, want, 16); if (rng.Chance(3, 4)) other[rng.Below(16)] = (u8)rng.Below(256); const UUID o(ConstByteData(other, 16)); const int order = memcmp(want, other, 16); VH_CHECK((id < o) == (order < 0) && (id == o) == (order == 0), "text:uuid-order", id.ToString() << " and " << o.ToString());
		bool refused = false; if (rng.Chance(1, 8)) { try { UUID(ConstByteData(raw, rng.Below(16))); } catch (const std::exception&) { refused = true; } VH_CHECK(refused, "text:uuid-size", "short data"); }
		vh_distinct("uuid", vh::HashStr(s));
	}
}

VH_SCENARIO(sizes)
{
	const std::string suffixes = "kMGTPE"; const u64 v = AnyInt<u64>(rng); const float factors[] = { 0, 0.001f, 0.01f, 0.02f, 0.1f, 0.19f }; const float f = factors[rng.Below(6)];
	std::string text; bool failed = false; try { text = ToHumanReadableSize(v, f); } catch (const std::exception&) { failed = true; } VH_CHECK(!failed, "text:size", Print(v) << " within " << f << " was refused"); if (failed) return;
	Wide value = 0; size_t i = 0; for (; i < text.size() && isdigit((unsigned char)text[i]); ++i) value = value * 10 + (text[i] - '0'); const size_t unit = i < text.size() ? suffixes.find(text[i]) + 1 : 0; value <<= 10 * unit;
	const Wide off = value < (Wide)v ? (Wide)v - value : value - (Wide)v; VH_CHECK(i > 0 && i + (unit ? 1 : 0) == text.size() && (unit == 0 || unit <= 6) && (double)off <= (double)v * f * 1.0001 + 1, "text:size", Print(v) << " within " << f << " printed as " << Q(text));
	if (f == 0) VH_CHECK(off == 0, "text:size-exact", Print(v) << " printed as " << Q(text));
	if (v) VH_CHECK(ToHumanReadableSize(v, f, true) == text.substr(0, i) + " " + text.substr(i), "text:size-blank", Print(v) << " printed as " << Q(ToHumanReadableSize(v, f, true)));
	std::string s = rng.Bool() ? text : rng.Chance(1, 2) ? Spelling<u64>(rng) : Print((Wide)(rng.Below(~0ull) >> rng.Below(64))) + suffixes[rng.Below(6)]; if (rng.Chance(1, 6)) s.insert(rng.Below(s.size() + 1), 1, "kKMgGTPE 0.-b"[rng.Below(13)]);
	u64 ref = 0; bool valid = RefInt<u64>(s, ref); if (!valid && s.size() > 1 && isdigit((unsigned char)s[0]) && suffixes.find(s.back()) != std::string::npos && RefInt<u64>(s.substr(0, s.size() - 1), ref)) { const unsigned __int128 wide = (unsigned __int128)ref << (10 * (suffixes.find(s.back()) + 1)); valid = wide <= ~0ull; ref = (u64)wide; }
	optional<u64> got; try { got = FromHumanReadableSize(s); } catch (const std::exception&) { }
	VH_CHECK(got.is_initialized() == valid && (!valid || *got == ref), "text:size-parse", Q(s) << " gave " << (got ? Print(*got) : "a refusal") << " instead of " << (valid ? Print(ref) : "a refusal"));
	vh_distinct("size", vh::HashStr(s)); vh_count(valid ? "valid spellings" : "invalid spellings", 1);
}

// ---- printed forms of composed values -------------------------------------------------------------------------------
namespace {
	std::string Word(vh::Rng& rng) { std::string s; for (size_t n = rng.Below(rng.Chance(1, 20) ? 700 : 6); n; --n) s.push_back("abcXYZ01 ,:()[]{}"[rng.Below(17)]); return s; }

	template < typename T > struct Shown { static T Make(vh::Rng& rng, std::string& text) { const T v = AnyInt<T>(rng); text = IsSame<T, bool>::Value ? (v ? "true" : "false") : Print((Wide)v); return v; } };
	template < > struct Shown<std::string> { static std::string Make(vh::Rng& rng, std::string& text) { return text = Word(rng); } };
	template < > struct Shown<Plain> { static Plain Make(vh::Rng& rng, std::string& text) { text = rng.Bool() ? "Gamma" : "Negative"; return text == "Gamma" ? Plain::Gamma : Plain::Negative; } };
	template < typename T > struct Shown<optional<T> > { static optional<T> Make(vh::Rng& rng, std::string& text) { if (rng.Chance(1, 3)) { text = "null"; return null; } return Shown<T>::Make(rng, text); } };
	template < typename T > struct Shown<shared_ptr<T> > { static shared_ptr<T> Make(vh::Rng& rng, std::string& text) { if (rng.Chance(1, 3)) { text = "null"; return null; } return make_shared_ptr<T>(Shown<T>::Make(rng, text)); } };
	template < typename A, typename B > struct Shown<std::pair<A, B> > { static std::pair<A, B> Make(vh::Rng& rng, std::string& text) { std::string a, b; const A x = Shown<A>::Make(rng, a); const B y = Shown<B>::Make(rng, b); text = "(" + a + ", " + b + ")"; return std::make_pair(x, y); } };
	template < typename T > struct Shown<std::vector<T> > { static std::vector<T> Make(vh::Rng& rng, std::string& text) { std::vector<T> r; text = "["; for (size_t n = rng.Below(5); n; --n) { std::string s; r.push_back(Shown<T>::Make(rng, s)); text += (r.size() > 1 ? ", " : "") + s; } text += "]"; return r; } };
	template < typename T > struct Shown<std::list<T> > { static std::list<T> Make(vh::Rng& rng, std::string& text) { const std::vector<T> v = Shown<std::vector<T> >::Make(rng, text); return std::list<T>(v.begin(), v.end()); } };
	template < typename T > struct Shown<std::set<T> > { static std::set<T> Make(vh::Rng& rng, std::string& text) { std::map<T, std::string> m; for (size_t n = rng.Below(5); n; --n) { std::string s; const T v = Shown<T>::Make(rng, s); m[v] = s; } std::set<T> r; text = "["; for (const auto& p : m) { r.insert(p.first); text += (r.size() > 1 ? ", " : "") + p.second; } text += "]"; return r; } };
	template < typename K, typename V > struct Shown<std::map<K, V> > { static std::map<K, V> Make(vh::Rng& rng, std::string& text) { std::map<K, std::pair<V, std::string> > m; for (size_t n = rng.Below(5); n; --n) { std::string k, v; const K key = Shown<K>::Make(rng, k); const V value = Shown<V>::Make(rng, v); m[key] = std::make_pair(value, k + ": " + v); } std::map<K, V> r; text = m.empty() ? "{" : "{ "; for (const auto& p : m) { r[p.first] = p.second.first; text += (r.size() > 1 ? ", " : "") + p.second.second; } text += " }"; return r; } };

	template < typename T > void ShowOne(vh::Rng& rng, const char* type)
	{
		std::string expected; const T v = Shown<T>::Make(rng, expected); const std::string text = ToString(v); VH_CHECK(text == expected, "text:composed", type << " printed as " << Q(text) << " instead of " << Q(expected));
		StringBuilder b; b % "<" % v % ">"; VH_CHECK(b.ToString() == "<" + expected + ">", "text:builder", type << " " << Q(b.ToString())); vh_distinct(type, vh::HashStr(text));
	}
}
#define SHOW(...) ShowOne<__VA_ARGS__>(rng, #__VA_ARGS__); break

VH_SCENARIO(composed)
{
	switch (rng.Below(20))
	{
	case 0: SHOW(optional<int>); case 1: SHOW(optional<std::string>); case 2: SHOW(shared_ptr<u8>); case 3: SHOW(std::pair<int, std::string>); case 4: SHOW(std::vector<s64>); case 5: SHOW(std::list<std::string>); case 6: SHOW(std::set<u16>); case 7: SHOW(std::map<int, std::string>);
	case 8: SHOW(std::map<std::string, std::vector<optional<u8> > >); case 9: SHOW(std::vector<std::pair<int, std::set<s8> > >); case 10: SHOW(std::vector<std::map<u64, bool> >); case 11: SHOW(shared_ptr<std::vector<shared_ptr<int> > >); case 12: SHOW(std::vector<Plain>); case 13: SHOW(std::pair<Plain, std::list<bool> >);
	case 14: { std::string t; const std::vector<int> v = Shown<std::vector<int> >::Make(rng, t); VH_CHECK(ToString(ToRange(v)) == t, "text:range", Q(ToString(ToRange(v))) << " instead of " << Q(t)); ArrayList<int> l; for (const int x : v) l.Add(x); VH_CHECK(ToString(static_cast<const IReadonlyList<int>&>(l)) == t, "text:enumerable", Q(ToString(static_cast<const IReadonlyList<int>&>(l))) << " instead of " << Q(t)); break; }
	case 15: { std::string a, b, c; const int x = Shown<int>::Make(rng, a); const std::string y = Shown<std::string>::Make(rng, b); const optional<bool> z = Shown<optional<bool> >::Make(rng, c); VH_CHECK(ToString(MakeTuple(x, y, z)) == "(" + a + ", " + b + ", " + c + ")", "text:tuple", Q(ToString(MakeTuple(x, y, z)))); break; }
	case 16: // joined text
		{
			const std::string sep = Word(rng), pre = rng.Bool() ? "" : "<" + Word(rng), suf = rng.Bool() ? "" : Word(rng) + ">"; const bool enabled = rng.Chance(3, 4); StringJoiner j(sep, pre, suf, enabled); std::string expected = pre; size_t n = rng.Below(6); bool first = true;
			for (; n; --n) { std::string t; const int v = Shown<int>::Make(rng, t); const unsigned how = (unsigned)rng.Below(4); if (how == 0) j % Sep % v; else if (how == 1) j % NoSep % v; else j % v; if (!first && (how == 0 || (how > 1 && enabled))) expected += sep; expected += t; first = false; }
			VH_CHECK(j.ToString() == expected + suf && j.empty() == first, "text:joiner", Q(j.ToString()) << " instead of " << Q(expected + suf)); break;
		}
	case 17: // lexical casts
		{ const s64 v = AnyInt<s64>(rng); const u64 u = AnyInt<u64>(rng); optional<s32> a; optional<u8> b; try { a = lexical_cast<s32>(v); } catch (const std::exception&) { } try { b = lexical_cast<u8>(u); } catch (const std::exception&) { } VH_CHECK(a.is_initialized() == (v >= -2147483648ll && v <= 2147483647ll) && (!a || *a == v) && b.is_initialized() == (u < 256) && (!b || *b == u), "text:lexical-cast", Print(v) << " " << Print(u)); const std::string s = lexical_caster(v); VH_CHECK(s == Print(v) && lexical_cast<std::string>(u) == Print(u), "text:lexical-cast", Print(v)); break; }
	case 18: // streams of many pieces
		{ string_ostream os; std::string expected; for (size_t n = rng.Below(80); n; --n) switch (rng.Below(6)) { case 0: { const int v = AnyInt<int>(rng); os << v; expected += Print(v); break; } case 1: os << 'c'; expected += 'c'; break; case 2: { const std::string w = Word(rng); os << w; expected += w; break; } case 3: { const std::string w = Word(rng); os << string_view(w); expected += w; break; } case 4: { const u64 v = AnyInt<u64>(rng); os << v; expected += Print(v); break; } default: { const bool v = rng.Bool(); os << v << "str"; expected += v ? "truestr" : "falsestr"; } } VH_CHECK(os.str() == expected && os.empty() == expected.empty(), "text:stream", Q(os.str()) << " instead of " << Q(expected)); os.clear(); VH_CHECK(os.empty() && os.str().empty(), "text:stream-clear", ""); break; }
	default: // floating point text carries all its digits' worth
		{ const double d = ldexp((double)rng.Below(1ull << 53), (int)rng.Range(-60, 60)) * (rng.Bool() ? 1 : -1); double back = 0; VH_CHECK(RefDouble(ToString(d), back) && std::fabs(back - d) <= std::fabs(d) * 1e-15, "text:double", ToString(d)); const float f = (float)d; double fb = 0; VH_CHECK(RefDouble(ToString(f), fb) && std::fabs(fb - f) <= std::fabs(f) * 1e-6, "text:float", ToString(f)); }
	}
}

// ---- patterns --------------------------------------------------------------------------------------------------------
namespace {
	std::string Literal(vh::Rng& rng, size_t min) { std::string s; for (size_t n = min + rng.Below(4); n; --n) s.push_back("abAB-: ,/.$_1"[rng.Below(13)]); return s; }

	void Format(vh::Rng& rng)
	{
		const int a = AnyInt<int>(rng); const std::string b = Word(rng); const optional<u8> c = rng.Bool() ? optional<u8>((u8)rng.Below(256)) : optional<u8>(); const bool d = rng.Bool(); const std::vector<int> e(rng.Below(3), 7);
		std::string ev = "["; for (size_t i = 0; i < e.size(); ++i) ev += i ? ", 7" : "7"; ev += "]"; const std::string args[] = { Print(a), b, c ? Print(*c) : "null", d ? "true" : "false", ev };
		std::string format, expected; bool bad = false;
		for (size_t n = rng.Below(7); n; --n) switch (rng.Below(rng.Chance(1, 6) ? 6 : 4))
		{
		case 0: { const std::string l = Literal(rng, 0); format += l; expected += l; break; }
		case 1: format += "%%"; expected += "%"; break;
		case 2: { const size_t i = rng.Below(5); format += "%" + std::string(rng.Chance(1, 8) ? "0" : "") + std::to_string(i + 1) + "%"; expected += args[i]; break; }
		case 3: { const size_t i = rng.Below(5), w = rng.Below(15); format += "%" + std::to_string(i + 1) + "$" + std::to_string(w) + "%"; expected += (args[i].size() < w ? std::string(w - args[i].size(), '0') : "") + args[i]; break; }
		default: { const char* odd[] = { "%0%", "%6%", "%99999999999999999999%", "%a%", "%1$%", "%$3%", "%-1%", "%1$-2%", "%1 %", "%1$$3%", "%1$2$3%" }; format += odd[rng.Below(11)]; bad = true; }
		}
		if (!bad && rng.Chance(1, 12)) { format += "%1"; bad = true; }
		std::string got; bool refused = false; try { got = StringFormat(format, a, b, c, d, e); } catch (const std::exception&) { refused = true; }
		VH_CHECK(refused == bad && (bad || got == expected), "text:format", Q(format) << (refused ? " refused" : " gave " + Q(got)) << " instead of " << (bad ? "a refusal" : Q(expected))); vh_distinct("format", vh::HashStr(format));
	}

	// the literal pieces in order, each argument being the text up to the first occurrence of the literal after it; the whole text is used up and no argument is empty
	struct Piece { bool arg; size_t index; std::string text; };   // index 0: an argument nobody wants
	bool RefMatch(const std::vector<Piece>& pieces, const std::string& s, std::vector<std::pair<size_t, std::string> >& out)
	{
		size_t p = 0;
		for (size_t i = 0; i < pieces.size(); ++i)
		{
			if (!pieces[i].arg) { if (s.compare(p, pieces[i].text.size(), pieces[i].text) != 0) return false; p += pieces[i].text.size(); continue; }
			const size_t end = i + 1 < pieces.size() ? s.find(pieces[i + 1].text, p) : s.size(); if (end == std::string::npos || end == p) return false;
			out.push_back(std::make_pair(pieces[i].index, s.substr(p, end - p))); p = end;
		}
		return p == s.size();
	}
	std::string Some(vh::Rng& rng, size_t kind)
	{
		if (rng.Chance(1, 10)) return Word(rng);
		switch (kind) { case 0: return rng.Bool() ? Print(AnyInt<int>(rng)) : Spelling<int>(rng); case 1: return Word(rng); case 2: return Spelling<u8>(rng); case 3: { const char* d[] = { "1.5", "-", "+", "1e", "1e+", "1e5", ".5", "5.", "1e999", "-1e999", "3.25x", "1.2.3", "0", "-0.125", "e5", ".", "1-", "--1", "1e-7" }; return d[rng.Below(19)]; } case 4: return rng.Bool() ? "x" : Word(rng); case 5: return Spelling<s64>(rng); case 6: { const char* e[] = { "Read", "Write|Exec", "Nobody", "3" }; return e[rng.Below(4)]; } default: return "text"; }
	}
	void Patterns(vh::Rng& rng)
	{
		std::vector<Piece> pieces; std::string format, subject; bool arg = rng.Bool(); for (size_t n = 1 + rng.Below(6); n; --n, arg = !arg)
		{
			Piece p = { arg, 0, "" }; if (arg) { const bool wild = rng.Chance(1, 8); p.index = wild ? 0 : 1 + rng.Below(7); format += wild ? "%_%" : "%" + std::to_string(p.index) + "%"; subject += Some(rng, wild ? 7 : p.index - 1); }
			else { p.text = Literal(rng, 1); if (rng.Chance(1, 12)) p.text += "%name%"; format += p.text; subject += p.text; }
			pieces.push_back(p);
		}
		if (rng.Chance(1, 4)) { if (rng.Bool()) subject.insert(rng.Chance(1, 3) ? 0 : rng.Below(subject.size() + 1), 1, "abAB-: 1"[rng.Below(8)]); else if (!subject.empty()) subject.erase(rng.Below(subject.size()), 1); } if (rng.Chance(1, 12)) subject = pieces.empty() || pieces[0].arg ? subject : "zz" + subject;
		std::vector<std::pair<size_t, std::string> > found; bool valid = RefMatch(pieces, subject, found) && !subject.empty();
		int i = 0; u8 u = 0; double d = 0; s64 l = 0; std::string s; char c = 0; int e = 0; bool set[8] = { };
		for (size_t k = 0; valid && k < found.size(); ++k)
		{
			const std::string& t = found[k].second; set[found[k].first] = true;
			switch (found[k].first) { case 0: break; case 1: valid = RefInt<int>(t, i); break; case 2: s = t; break; case 3: valid = RefInt<u8>(t, u); break; case 4: valid = RefDouble(t, d); break; case 5: valid = t.size() == 1; if (valid) c = t[0]; break; case 6: valid = RefInt<s64>(t, l); break; default: valid = RefEnum(Names({ { "Read", 1 }, { "Write", 2 }, { "ReadWrite", 3 }, { "Exec", 4 }, { "Sticky", 64 }, { "Setuid", 0x40000000 }, { "Full", -1 } }), t, e); }
		}
		int gi = -7; std::string gs = "unset"; u8 gu = 77; double gd = -7; char gc = '?'; optional<s64> gl; Flags ge = Flags::Sticky;
		bool got = false; std::string how; try { got = StringParse(subject, format, gi, gs, gu, gd, gc, gl, ge); } catch (const std::exception& ex) { how = " with an exception"; }
		VH_CHECK(got == valid && how.empty(), "text:parse-accepted", Q(subject) << " by " << Q(format) << (got ? " was accepted" : " was refused") << how);
		if (got && valid) VH_CHECK((set[1] ? gi == i : gi == -7) && (set[2] ? gs == s : gs == "unset") && (set[3] ? gu == u : gu == 77) && (set[4] ? gd == d : gd == -7) && (set[5] ? gc == c : gc == '?') && (set[6] ? gl && *gl == l : !gl) && (set[7] ? (int)(Flags::Enum)ge == e : ge == Flags::Sticky), "text:parse-values", Q(subject) << " by " << Q(format) << " gave " << gi << ", " << Q(gs) << ", " << (int)gu << ", " << gd << ", " << Q(std::string(1, gc)) << ", " << ge.ToString());
		vh_count(valid ? "texts that fit the pattern" : "texts that don't fit the pattern", 1); vh_distinct("pattern", vh::HashStr(format));
	}
}

VH_SCENARIO(patterns)
{
	if (rng.Chance(1, 3)) Format(rng); else Patterns(rng);
}
