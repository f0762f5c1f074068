// C19: calendar and time arithmetic, judged by a calendar computed from day counts and by wide integer arithmetic.
#include "vh.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/time/NtpTimestamp.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/time/TimeEngine.h>
#include <limits>

using namespace stingray;

namespace {
	typedef __int128 Wide;
	const s64 DayMs = 86400000;

	bool Leap(s64 y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
	int DaysIn(s64 y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && Leap(y) ? 29 : d[m - 1]; }
	s64 FloorDiv(s64 a, s64 b) { return a / b - (a % b != 0 && (a % b < 0) != (b < 0)); }
	s64 FloorMod(s64 a, s64 b) { return a - FloorDiv(a, b) * b; }

	s64 DaysFromCivil(s64 y, int m, int d)
	{
		y -= m <= 2; const s64 era = FloorDiv(y, 400), yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
		return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
	}
	struct Civil { s64 Y; int M, D, WeekDay, YearDay; int h, m, s, ms; s64 Day; };
	Civil FromMs(s64 t)
	{
		Civil r; r.Day = FloorDiv(t, DayMs); s64 rest = FloorMod(t, DayMs);
		s64 y = 1970 + FloorDiv(r.Day, r.Day < 0 ? 365 : 366) - 1; while (DaysFromCivil(y + 1, 1, 1) <= r.Day) ++y;
		r.Y = y; s64 d = r.Day - DaysFromCivil(y, 1, 1); r.YearDay = (int)d; r.M = 1; while (d >= DaysIn(y, r.M)) { d -= DaysIn(y, r.M); ++r.M; }
		r.D = (int)d + 1; r.WeekDay = (int)FloorMod(r.Day + 4, 7);
		r.ms = int(rest % 1000); rest /= 1000; r.s = int(rest % 60); rest /= 60; r.m = int(rest % 60); r.h = int(rest / 60);
		return r;
	}
	s64 ToMs(const Civil& c) { return DaysFromCivil(c.Y, c.M, c.D) * DayMs + ((c.h * 60 + c.m) * 60 + c.s) * 1000ll + c.ms; }

	std::string Pad(s64 v, size_t width) { const bool n = v < 0; std::string r = std::to_string(n ? -v : v); if (n) r.insert(r.begin(), '-'); while (r.size() < width) r.insert(r.begin(), '0'); return r; }
	std::string Show(const BrokenDownTime& b)
	{
		char buf[160]; snprintf(buf, sizeof buf, "%d-%d-%d wd%d yd%d %d:%d:%d.%d", b.Year, b.Month, b.MonthDay, b.WeekDay, b.YearDay, b.Hours, b.Minutes, b.Seconds, b.Milliseconds); return buf;
	}
	std::string Show(const Civil& b)
	{
		char buf[160]; snprintf(buf, sizeof buf, "%lld-%d-%d wd%d yd%d %d:%d:%d.%d", (long long)b.Y, b.M, b.D, b.WeekDay, b.YearDay, b.h, b.m, b.s, b.ms); return buf;
	}
	bool Same(const BrokenDownTime& b, const Civil& c)
	{ return b.Year == c.Y && b.Month == c.M && b.MonthDay == c.D && b.WeekDay == c.WeekDay && b.YearDay == c.YearDay && b.Hours == c.h && b.Minutes == c.m && b.Seconds == c.s && b.Milliseconds == c.ms; }

	struct Zone { s16 Old; explicit Zone(s16 m) : Old(TimeEngine::GetMinutesFromUtc()) { TimeEngine::SetMinutesFromUtc(m); } ~Zone() { TimeEngine::SetMinutesFromUtc(Old); } };
	s16 AnyZone(vh::Rng& rng) { return rng.Chance(1, 4) ? 0 : rng.Chance(1, 6) ? (rng.Bool() ? -720 : 840) : (s16)rng.Range(-720, 840); }

	// instants near the turns of years, months and days, leap days, century years and the epoch
	s64 AnyInstant(vh::Rng& rng, s64 minYear = -9000, s64 maxYear = 30000)
	{
		s64 y;
		switch (rng.Below(4)) { case 0: y = rng.Range(1900, 2100); break; case 1: y = rng.Range(1960, 1980); break; case 2: y = rng.Range(-20, 60) * 100 + rng.Range(-1, 1); break; default: y = rng.Range(minYear, maxYear); }
		if (y < minYear) y = minYear;
		if (y > maxYear) y = maxYear;
		int m = (int)rng.Range(1, 12), d = (int)rng.Range(1, DaysIn(y, m));
		if (rng.Chance(1, 3)) { m = 2; d = (int)rng.Range(27, DaysIn(y, 2)); } else if (rng.Chance(1, 3)) { m = rng.Bool() ? 1 : 12; d = rng.Bool() ? 1 : 31; } else if (rng.Chance(1, 3)) d = rng.Bool() ? 1 : DaysIn(y, m);
		s64 t = DaysFromCivil(y, m, d) * DayMs;
		if (rng.Chance(1, 3)) t += rng.Range(0, 2) - 1; else if (rng.Chance(1, 3)) t += (s64)rng.Below(86400) * 1000; else t += (s64)rng.Below(DayMs);
		if (rng.Chance(1, 40)) t = rng.Range(0, 6) - 3;
		if (rng.Chance(1, 40)) t = (rng.Range(0, 6) - 3) * 1000;
		return t;
	}
	std::string S(s64 v) { return std::to_string(v); }

	template < typename F > bool Throws(const F& f) { try { f(); return false; } catch (const std::exception&) { return true; } }
}

VH_SCENARIO(calendar)
{
	const s16 zone = AnyZone(rng); const Zone z(zone);
	for (int n = 0; n < 20; ++n)
	{
		const s64 t = AnyInstant(rng);
		const TimeKind kind = rng.Bool() ? TimeKind::Utc : TimeKind::Local; const s64 offset = kind == TimeKind::Utc ? 0 : zone * 60000ll;
		const s64 l = t + offset; const Civil want = FromMs(l); const BrokenDownTime got = Time(t).BreakDown(kind);
		const std::string at = "instant " + S(t) + " zone " + S(offset / 60000) + ": ";
		vh_distinct("dates", (uint64_t)(want.Day));
		if (l < 0 && want.ms != 0)
		{
			// the library counts the fraction back from the next whole second there
			Civil back = FromMs(l + 1000 - want.ms); back.ms = want.ms - 1000;
			VH_CHECK(!Same(got, back), "breakdown-of-a-fraction-before-1970", at + "expected " + Show(want) + ", got " + Show(got));
			VH_CHECK(Same(got, back) || Same(got, want), "breakdown", at + "expected " + Show(want) + " (or " + Show(back) + "), got " + Show(got));
		}
		else
			VH_CHECK(Same(got, want), "breakdown", at + "expected " + Show(want) + ", got " + Show(got));
		const s64 back = Time::FromBrokenDownTime(got, kind).GetMilliseconds();
		VH_CHECK(back == t, "breakdown-inverse", at + Show(got) + " gives back " + S(back));

		BrokenDownTime made; made.Year = (s16)want.Y; made.Month = (s16)want.M; made.MonthDay = (s16)want.D; made.Hours = (s16)want.h; made.Minutes = (s16)want.m; made.Seconds = (s16)want.s; made.Milliseconds = (s16)want.ms;
		const s64 again = Time::FromBrokenDownTime(made, kind).GetMilliseconds();
		VH_CHECK(again == t, "from-breakdown", at + Show(want) + " gives " + S(again));
		// fields past their range carry over
		{
			BrokenDownTime carry = made; const int what = (int)rng.Below(5); const int by = (int)rng.Range(-2000, 2000); s64 expect = t;
			switch (what)
			{
			case 0: carry.Seconds += by; expect += by * 1000ll; break; case 1: carry.Minutes += by; expect += by * 60000ll; break; case 2: carry.Hours += by; expect += by * 3600000ll; break;
			case 3: carry.MonthDay += by; expect += by * DayMs; break;
			default: { carry.Month += by; const s64 months = want.Y * 12 + want.M - 1 + by; const s64 y = FloorDiv(months, 12); expect += (DaysFromCivil(y, (int)FloorMod(months, 12) + 1, 1) - DaysFromCivil(want.Y, want.M, 1)) * DayMs; }
			}
			const s64 c = Time::FromBrokenDownTime(carry, kind).GetMilliseconds();
			VH_CHECK(c == expect, "from-breakdown-carry", at + Show(carry) + " gives " + S(c) + ", expected " + S(expect));
		}
		VH_CHECK(made.GetMaxDaysInMonth() == DaysIn(want.Y, want.M) && BrokenDownTime::GetMaxDaysInMonth((int)want.Y, want.M) == DaysIn(want.Y, want.M), "days-in-month", at + S(made.GetMaxDaysInMonth()));
		if (l >= 0 || want.ms == 0)
		{
			const s64 start = Time::FromBrokenDownTime(got.GetDayStart(), kind).GetMilliseconds();
			VH_CHECK(start == want.Day * DayMs - offset, "day-start", at + S(start));
			const u32 bcd = Time(t).GetBcdTime(kind); char hex[16]; snprintf(hex, sizeof hex, "%02d%02d%02d", want.h, want.m, want.s);
			VH_CHECK(bcd == strtoul(hex, nullptr, 16), "bcd-time", at + S(bcd));
			VH_CHECK(TimeDuration::FromBcdDuration(bcd).GetMilliseconds() == ((want.h * 60 + want.m) * 60 + want.s) * 1000ll, "bcd-duration", at + S(bcd));
			if (want.Y >= 0 && want.Y <= 9999)
			{
				const std::string fmt = rng.Bool() ? "" : rng.Bool() ? "YYYY|MM|dd hh-mm-ss_lll" : "[yyyy] d M Y dddd MMM sss llll hhh mmm";
				const std::string y = Pad(want.Y, 4), M = Pad(want.M, 2), d = Pad(want.D, 2), h = Pad(want.h, 2), m = Pad(want.m, 2), s = Pad(want.s, 2), ms = Pad(want.ms, 3);
				const std::string expect = fmt.empty() ? d + "/" + M + "/" + y + " " + h + ":" + m + ":" + s + "." + ms : fmt[0] == 'Y' ? y + "|" + M + "|" + d + " " + h + "-" + m + "-" + s + "_" + ms
						: "[" + y + "] d M Y " + d + d + " " + M + "M " + s + "s " + ms + "l " + h + "h " + m + "m";
				const std::string text = Time(t).ToString(fmt, kind);
				VH_CHECK(text == expect, "format", at + "format '" + fmt + "' expected '" + expect + "', got '" + text + "'");
			}
		}
		const int mjd = Time(t).GetMjd(); const s64 mjdWant = FromMs(t).Day + 40587;
		VH_CHECK(mjd == mjdWant, "mjd", "instant " + S(t) + ": day number " + S(mjd) + ", expected " + S(mjdWant));
		VH_CHECK(Time::MjdToEpoch(mjd).GetMilliseconds() == (s64)(mjd - 40587) * DayMs, "mjd-to-epoch", S(mjd));
		VH_CHECK(Time::MjdToEpoch(mjd, 0x123456).GetMilliseconds() == (s64)(mjd - 40587) * DayMs + ((12 * 60 + 34) * 60 + 56) * 1000ll, "mjd-to-epoch", S(mjd));

		const s64 t2 = rng.Bool() ? AnyInstant(rng) : t + rng.Range(-3 * DayMs, 3 * DayMs); const s64 l2 = t2 + zone * 60000ll, l1 = t + zone * 60000ll;
		if ((l1 >= 0 || l1 % 1000 == 0) && (l2 >= 0 || l2 % 1000 == 0))
		{
			const int days = Time(t).DaysTo(Time(t2)); const s64 expect = FloorDiv(l2, DayMs) - FloorDiv(l1, DayMs);
			VH_CHECK(days == expect, "days-to", S(t) + " to " + S(t2) + " in zone " + S(zone) + ": " + S(days) + ", expected " + S(expect));
		}
		// instants counted from 1900
		if (t >= -2208988800000ll && t < 2085978496000ll)
		{
			const s64 whole = FloorDiv(t, 1000) * 1000;
			VH_CHECK(Time(whole).ToNtpTimestamp() == (u64)(whole / 1000 + 2208988800ll), "ntp", S(whole));
			VH_CHECK(Time::FromNtpTimestamp(Time(whole).ToNtpTimestamp()).GetMilliseconds() == whole, "ntp", S(whole));
			const NtpTimestamp stamp = NtpTimestamp::FromTime(Time(t));
			VH_CHECK((stamp.GetTimestamp() >> 32) == (u64)(whole / 1000 + 2208988800ll), "ntp-seconds", S(t) + " -> " + S((s64)(stamp.GetTimestamp() >> 32)));
			const s64 fraction = (s64)(((stamp.GetTimestamp() & 0xffffffffull) * 1000 + (1ull << 31)) >> 32);
			VH_CHECK(fraction == FloorMod(t, 1000), "ntp-fraction", S(t) + " -> " + S((s64)(stamp.GetTimestamp() & 0xffffffffull)));
			VH_CHECK(stamp.ToTime().GetMilliseconds() == t, "ntp-round-trip", S(t) + " -> " + S(stamp.ToTime().GetMilliseconds()));
		}
	}
}

namespace {
	struct Text { std::string S; optional<s64> Value; bool Known; std::string Why; };

	// a date in one of the textual forms, with fields in or out of range; the expected instant goes with it
	Civil AnyDate(vh::Rng& rng, bool& valid, std::string& why, s64 minYear, s64 maxYear)
	{
		Civil c = FromMs(AnyInstant(rng, minYear, maxYear)); c.ms = 0; valid = true;
		if (rng.Chance(1, 3))
		{
			valid = false;
			switch (rng.Below(6))
			{
			case 0: c.M = rng.Bool() ? 0 : (int)rng.Range(13, 99); why = "month"; break;
			case 1: c.D = rng.Bool() ? 0 : (int)rng.Range(32, 99); why = "day"; break;
			case 2: c.D = DaysIn(c.Y, c.M) + 1; why = "day past the month"; break;
			case 3: c.h = (int)rng.Range(25, 99); why = "hours"; break;
			case 4: c.m = (int)rng.Range(60, 99); why = "minutes"; break;
			default: c.s = (int)rng.Range(61, 99); why = "seconds"; break;
			}
		}
		return c;
	}
}

VH_SCENARIO(dates)
{
	const s16 zone = AnyZone(rng); const Zone z(zone);
	for (int n = 0; n < 8; ++n)
	{
		const TimeKind kind = rng.Bool() ? TimeKind::Utc : TimeKind::Local; const s64 offset = kind == TimeKind::Utc ? 0 : zone * 60000ll;
		// what the library prints, it reads back
		{
			const s64 t = FloorDiv(AnyInstant(rng, 102, 9998), 1000) * 1000; const int form = (int)rng.Below(4);
			static const char* const formats[] = { "dd.MM.YYYY hh:mm:ss", "dd/MM/YYYY hh:mm:ss", "YYYY-MM-ddThh:mm:ss", "YYYY-MM-ddThh:mm:ssZ" };
			const std::string text = Time(t).ToString(formats[form], form == 3 ? TimeKind(TimeKind::Utc) : kind);
			std::string r; s64 got = 0; try { got = Time::FromString(text, kind).GetMilliseconds(); r = S(got); } catch (const std::exception& e) { r = "refused"; }
			VH_CHECK(r == S(t), "date-round-trip", "'" + text + "' gives " + r + ", expected " + S(t) + " zone " + S(zone));
		}
		{
			s64 t = AnyInstant(rng, 1, 9998); if (t < 0) t = FloorDiv(t, 1000) * 1000;
			const std::string text = TimeUtility::ToIso8601(Time(t));
			std::string r; try { r = S(TimeUtility::FromIso8601(text).GetMilliseconds()); } catch (const std::exception& e) { r = "refused"; }
			VH_CHECK(r == S(t), "iso-round-trip", "'" + text + "' gives " + r + ", expected " + S(t));
		}
		// spelled by hand
		{
			bool valid; std::string why; Civil c = AnyDate(rng, valid, why, 102, 9998); s64 expect = valid ? ToMs(c) : 0; bool known = true;
			const int form = (int)rng.Below(8); std::string text; const std::string d = Pad(c.D, 2), M = Pad(c.M, 2), Y = Pad(c.Y, 4), h = Pad(c.h, 2), m = Pad(c.m, 2), s = Pad(c.s, 2);
			const bool dateBad = why == "month" || why == "day" || why == "day past the month"; s64 shift = offset;
			const std::string date = form % 4 < 2 ? d + "." + M + "." + Y : form % 4 == 2 ? d + "/" + M + "/" + Y : Y + "-" + M + "-" + d; const char sep = form % 4 == 3 ? 'T' : ' ';
			switch (rng.Below(4))
			{
			case 0: text = date; expect -= valid ? ((c.h * 60 + c.m) * 60 + c.s) * 1000ll : 0; if (!valid && !dateBad) continue; break;
			case 1: text = date + sep + h + ":" + m; expect -= valid ? c.s * 1000 : 0; if (why == "seconds") continue; break;
			default: text = date + sep + h + ":" + m + ":" + s; break;
			}
			const bool full = text.size() == date.size() + 9;
			if (form % 4 == 3 && full && rng.Bool())
			{
				if (rng.Chance(1, 3)) { text += 'Z'; shift = 0; }
				else
				{
					const int oh = (int)rng.Range(0, 14), om = rng.Chance(1, 8) ? (int)rng.Range(60, 99) : (int)rng.Range(0, 59); const bool minus = rng.Bool(); const bool mins = rng.Chance(3, 4);
					text += (minus ? '-' : '+') + Pad(oh, 2) + (mins ? ":" + Pad(om, 2) : ""); shift = (oh * 60 + (mins ? om : 0)) * (minus ? -60000ll : 60000ll); if (mins && om > 59) { valid = false; why = "offset minutes"; }
				}
			}
			if (valid && rng.Chance(1, 5)) { valid = false; why = "trailing text"; text += rng.Pick(std::vector<std::string>{ "x", ".5", ":", "-", " 1", "/1", "Z9", "T" }); if (text.size() && text[text.size() - 1] == 'T') why = "trailing T"; }
			std::string r; try { r = S(Time::FromString(text, kind).GetMilliseconds()); } catch (const std::exception& e) { r = "refused"; }
			vh_distinct("date_texts", vh::HashStr(text));
			if (valid) VH_CHECK(r == S(expect - shift), "date-parse", "'" + text + "' gives " + r + ", expected " + S(expect - shift) + " zone " + S(zone) + " " + S(offset));
			else if (known) VH_CHECK(r == "refused", "date-invalid-accepted", "'" + text + "' (" + why + ") gives " + r);
		}
		{
			bool valid; std::string why; Civil c = AnyDate(rng, valid, why, 1, 9998); s64 expect = valid ? ToMs(c) : 0; s64 slack = 0;
			std::string text = Pad(c.Y, 4) + "-" + Pad(c.M, 2) + "-" + Pad(c.D, 2); const bool dateBad = why == "month" || why == "day" || why == "day past the month";
			if (rng.Chance(1, 6)) { if (!valid && !dateBad) continue; expect = valid ? DaysFromCivil(c.Y, c.M, c.D) * DayMs : 0; }
			else
			{
				text += (rng.Chance(1, 4) ? 't' : 'T') + Pad(c.h, 2) + ":" + Pad(c.m, 2) + ":" + Pad(c.s, 2);
				if (rng.Bool())
				{
					const size_t digits = 1 + rng.Below(9); std::string f; for (size_t i = 0; i < digits; ++i) f += char('0' + (rng.Chance(1, 3) ? 9 : rng.Chance(1, 3) ? 0 : rng.Below(10)));
					text += "." + f; Wide v = 0, scale = 1; for (char ch : f) { v = v * 10 + (ch - '0'); scale *= 10; }
					expect += (s64)((v * 1000 * 2 + scale) / (2 * scale)); slack = digits > 6 ? 1 : 0;
				}
				switch (rng.Below(3))
				{
				case 0: break; case 1: text += rng.Bool() ? 'Z' : 'z'; break;
				default:
				{
					const int oh = rng.Chance(1, 10) ? (int)rng.Range(25, 99) : (int)rng.Range(0, 14), om = rng.Chance(1, 10) ? (int)rng.Range(60, 99) : (int)rng.Range(0, 59); const bool minus = rng.Bool();
					text += (minus ? '-' : '+') + Pad(oh, 2) + ":" + Pad(om, 2); expect -= (oh * 60 + om) * (minus ? -60000ll : 60000ll); if (oh > 23 || om > 59) { valid = false; why = "offset"; }
				}
				}
			}
			if (valid && rng.Chance(1, 5))
			{
				valid = false; why = "damaged";
				switch (rng.Below(5))
				{
				case 0: text += rng.Bool() ? "x" : " "; break; case 1: text = "x" + text; break;
				case 2: text[rng.Below(10)] = rng.Bool() ? 'x' : '/'; break; case 3: text.erase(rng.Bool() ? 4 : 7, 1); break;
				default: text.insert(rng.Below(text.size()), "_"); break;
				}
			}
			std::string r; s64 got = 0; try { got = TimeUtility::FromIso8601(text).GetMilliseconds(); r = S(got); } catch (const std::exception& e) { r = "refused"; }
			vh_distinct("iso_texts", vh::HashStr(text));
			if (valid) VH_CHECK(r != "refused" && got >= expect - slack && got <= expect + slack, "iso-parse", "'" + text + "' gives " + r + ", expected " + S(expect));
			else VH_CHECK(r == "refused", "iso-invalid-accepted", "'" + text + "' (" + why + ") gives " + r);
		}
		// two-digit years and missing dates
		{
			const int y = (int)rng.Range(0, 99); const std::string text = "07/05/" + Pad(y, 2); const s64 full = y > 30 ? 1900 + y : 2000 + y;
			const s64 got = Time::FromString(text, TimeKind::Utc).GetMilliseconds();
			VH_CHECK(got == DaysFromCivil(full, 5, 7) * DayMs, "short-year", text + " gives " + S(got));
		}
		// zones
		{
			const s16 minutes = (s16)rng.Range(-720, 840); const TimeZone tz(minutes); const std::string text = tz.ToString(); std::string r;
			try { r = S(TimeZone::FromString(text).GetMinutesFromUtc()); } catch (const std::exception&) { r = "refused"; }
			VH_CHECK(r == S(minutes), "zone-round-trip", "'" + text + "' gives " + r + ", expected " + S(minutes));
			const int oh = (int)(rng.Bool() ? rng.Range(0, 14) : rng.Range(0, 99)), om = (int)(rng.Bool() ? rng.Range(0, 59) : rng.Range(0, 99)); const std::string sign = rng.Chance(1, 3) ? "" : rng.Bool() ? "+" : "-"; const bool mins = rng.Chance(3, 4), colon = rng.Bool();
			std::string spelled = sign + Pad(oh, 2) + (mins ? (colon ? ":" : "") + Pad(om, 2) : ""); const int v = (oh * 60 + (mins ? om : 0)) * (sign == "-" ? -1 : 1); bool ok = v >= -720 && v <= 840 && (!mins || om < 60);
			if (rng.Chance(1, 12)) { spelled = sign + (rng.Bool() ? "1092:16" : "-5:30"); ok = false; if (sign.empty() && spelled[0] != '1') ok = true; if (ok) continue; }
			try { r = S(TimeZone::FromString(spelled).GetMinutesFromUtc()); } catch (const std::exception&) { r = "refused"; }
			VH_CHECK(r == (ok ? S(v) : "refused"), "zone-parse", "'" + spelled + "' gives " + r + ", expected " + (ok ? S(v) : "a refusal"));
			const s16 any = (s16)rng.Range(-32768, 32767);
			if (rng.Chance(1, 8)) VH_CHECK(Throws([&] { TimeZone bad(any); }) == (any < -720 || any > 840), "zone-range", S(any));
			VH_CHECK(TimeZone::Current().GetMinutesFromUtc() == zone, "zone-current", S(zone));
		}
	}
}

namespace {
	const s64 Us[] = { 1000000, 100000, 10000, 1000, 100, 10, 1 };
	Wide AbsW(Wide v) { return v < 0 ? -v : v; }
	std::string PadW(Wide v, size_t width) { std::string r; do { r.insert(r.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); while (r.size() < width) r.insert(r.begin(), '0'); return r; }

	std::string RefFormat(s64 us, const std::string& format)
	{
		struct Item { char Kind; size_t Count; }; std::vector<Item> items; bool h = false, m = false, s = false; size_t precision = 0;
		for (size_t i = 0; i < format.size(); ++i)
		{
			const char c = format[i];
			if (c == '\\') { items.push_back({ format[++i], 0 }); continue; }
			if (c == 'h' || c == 'm' || c == 's') { size_t n = 1; if (i + 1 < format.size() && format[i + 1] == c) { ++i; ++n; } items.push_back({ c, n }); (c == 'h' ? h : c == 'm' ? m : s) = true; continue; }
			if (c == 'l') { size_t n = 1; while (i + 1 < format.size() && format[i + 1] == 'l') { ++i; ++n; } if (n > 6) n = 6; precision = std::max(precision, n); items.push_back({ c, n }); continue; }
			items.push_back({ c, 0 });
		}
		const Wide a = AbsW(us); const bool negative = us / Us[precision] < 0; std::string r;
		const char lead = h ? 'h' : m ? 'm' : s ? 's' : 'l';
		for (const Item& it : items)
		{
			if (it.Count == 0) { r += it.Kind; continue; }
			if (it.Kind == lead && negative) r += '-';
			switch (it.Kind)
			{
			case 'h': r += PadW(a / 3600000000ll, it.Count); break; case 'm': r += PadW(h ? a / 60000000 % 60 : a / 60000000, it.Count); break;
			case 's': r += PadW(a / 1000000 % 60, it.Count); break; default: r += PadW(a % 1000000 / Us[it.Count], it.Count); break;
			}
		}
		return r;
	}
	s64 AnyUs(vh::Rng& rng)
	{
		static const s64 units[] = { 1, 1000, 1000000, 60000000, 3600000000ll, 86400000000ll };
		switch (rng.Below(8))
		{
		case 0: return std::numeric_limits<s64>::min() + (s64)rng.Below(3000); case 1: return std::numeric_limits<s64>::max() - (s64)rng.Below(3000);
		case 2: return rng.Range(-2000, 2000); case 3: return units[rng.Below(6)] * rng.Range(-70, 70) + rng.Range(-2, 2);
		case 4: return units[rng.Below(6)] * rng.Range(-70, 70) + 500 * rng.Range(-3, 3);
		default: { const s64 v = (s64)(rng.Below(~0ull) >> (1 + rng.Below(62))); return rng.Bool() ? -v : v; }
		}
	}
	bool Fits(Wide v) { return v >= std::numeric_limits<s64>::min() && v <= std::numeric_limits<s64>::max(); }
	TimeDuration D(s64 us) { return TimeDuration::FromMicroseconds(us); }
}

VH_SCENARIO(durations)
{
	const Wide Max = std::numeric_limits<s64>::max();
	for (int n = 0; n < 20; ++n)
	{
		const s64 a = AnyUs(rng), b = AnyUs(rng); const std::string at = S(a) + " and " + S(b) + ": "; const TimeDuration x = D(a), y = D(b);
		vh_distinct("durations", (uint64_t)a);
		VH_CHECK(x.GetMicroseconds() == a && x.GetMilliseconds() == a / 1000 && x.GetSeconds() == a / 1000000 && x.GetMinutes() == a / 60000000 && x.GetHours() == a / 3600000000ll && x.GetDays() == a / 86400000000ll, "duration-units", S(a));
		if (Fits((Wide)a + b)) { TimeDuration z(x); z += y; VH_CHECK((x + y).GetMicroseconds() == a + b && z == x + y, "duration-sum", at + S((x + y).GetMicroseconds())); }
		if (Fits((Wide)a - b)) { TimeDuration z(x); z -= y; VH_CHECK((x - y).GetMicroseconds() == a - b && z == x - y, "duration-difference", at + S((x - y).GetMicroseconds())); }
		if (Fits(-(Wide)a)) VH_CHECK((-x).GetMicroseconds() == -a, "duration-negate", S(a));
		const int k = rng.Bool() ? (int)rng.Range(-100, 100) : (int)(s64)rng.Range(-2147483647, 2147483647);
		if (Fits((Wide)a * k)) { TimeDuration z(x); z *= k; VH_CHECK((x * k).GetMicroseconds() == a * k && z == x * k, "duration-product", at + S(k)); }
		if (k && Fits((Wide)a / k)) { TimeDuration z(x); z /= k; VH_CHECK((x / k).GetMicroseconds() == a / k && z == x / k, "duration-quotient", at + S(k)); }
		if (b && Fits((Wide)a / b)) { TimeDuration z(x); z %= y; VH_CHECK(x / y == a / b && (x % y).GetMicroseconds() == a % b && z == x % y, "duration-remainder", at); }
		VH_CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "duration-comparison", at);
		if (a != std::numeric_limits<s64>::min()) VH_CHECK(x.Absolute().GetMicroseconds() == (a < 0 ? -a : a), "duration-absolute", S(a));
		else VH_CHECK(Throws([&] { x.Absolute(); }), "duration-absolute", S(a));
		const Wide rounded = (AbsW(a) + 500) / 1000 * 1000 * (a < 0 ? -1 : 1);
		if (AbsW(a) < Max - 2000) VH_CHECK(x.RoundToMilliseconds().GetMicroseconds() == (s64)rounded, "duration-rounding", S(a) + " rounds to " + S(x.RoundToMilliseconds().GetMicroseconds()));

		const int c = (int)rng.Range(-2147483647, 2147483647);
		VH_CHECK(TimeDuration::FromSeconds(c).GetMicroseconds() == c * 1000000ll && TimeDuration::FromMinutes(c).GetMicroseconds() == c * 60000000ll, "duration-from-units", S(c));
		const int c2 = c / 1000; VH_CHECK(TimeDuration::FromHours(c2).GetMicroseconds() == c2 * 3600000000ll && TimeDuration::FromDays(c2 / 24).GetMicroseconds() == (c2 / 24) * 86400000000ll, "duration-from-units", S(c2));
		VH_CHECK(TimeDuration::FromMilliseconds(c).GetMicroseconds() == c * 1000ll, "duration-from-units", S(c));

		{
			const s64 ms = a / 1000; const Wide am = AbsW(ms);
			const std::string expect = (ms < 0 ? "-" : "") + PadW(am / 3600000, 2) + ":" + PadW(am / 60000 % 60, 2) + ":" + PadW(am / 1000 % 60, 2) + "." + PadW(am % 1000, 3), text = x.ToString();
			VH_CHECK(text == expect, "duration-print", S(a) + " prints '" + text + "', expected '" + expect + "'");
			std::string format; for (size_t i = 1 + rng.Below(7); i; --i) format += rng.Pick(std::vector<std::string>{ "h", "hh", "m", "mm", "s", "ss", "l", "lll", "llllll", "llllllll", ":", ".", " ", "\\h", "\\m", "\\s", "\\l", "\\\\", "d" });
			const std::string want = RefFormat(a, format), got = x.ToString(format);
			VH_CHECK(want == got, "duration-format", S(a) + " in '" + format + "' prints '" + got + "', expected '" + want + "'");
		}
		{
			const int v = (int)rng.Range(-500000, 500000); const char* const unit = rng.Pick(std::vector<const char*>{ "", "s", "S", "m", "M", "h", "H" });
			const s64 scale = !*unit ? 1000 : *unit == 's' || *unit == 'S' ? 1000000 : *unit == 'm' || *unit == 'M' ? 60000000 : 3600000000ll;
			VH_CHECK(TimeDuration::FromString(S(v) + unit).GetMicroseconds() == v * scale, "duration-parse", S(v) + unit);
			if (rng.Chance(1, 8)) { const std::string bad = rng.Pick(std::vector<std::string>{ "", "x", "s", "5x", "-", "5d" }); VH_CHECK(Throws([&] { TimeDuration::FromString(bad); }), "duration-invalid-accepted", bad); }
		}
		{
			const s64 t = AnyInstant(rng), u = AnyInstant(rng); const s64 d = rng.Bool() ? rng.Range(-DayMs, DayMs) * 1000 : AnyUs(rng) / 100000;
			VH_CHECK((Time(t) + D(d)).GetMilliseconds() == t + d / 1000 && (Time(t) - D(d)).GetMilliseconds() == t - d / 1000 && (Time(t) + D(d) - D(d)) == Time(t), "time-shift", S(t) + " by " + S(d));
			Time p(t); p += D(d); VH_CHECK(p == Time(t) + D(d), "time-shift", S(t)); p -= D(d); VH_CHECK(p == Time(t), "time-shift", S(t));
			VH_CHECK((Time(t) - Time(u)).GetMicroseconds() == (t - u) * 1000 && Time(u) + (Time(t) - Time(u)) == Time(t), "time-difference", S(t) + " " + S(u));
			VH_CHECK((Time(t) < Time(u)) == (t < u) && (Time(t) == Time(u)) == (t == u) && (Time(t) >= Time(u)) == (t >= u), "time-comparison", S(t) + " " + S(u));
			VH_CHECK(Time(t).GetMilliseconds() == t && Time(t).GetSeconds() == t / 1000, "time-units", S(t));
			if (t >= 0 && t / 1000 <= 0xffffffffll) VH_CHECK(Time(t).ToTimeT() == (u32)(t / 1000), "time-t", S(t));
			VH_CHECK(Time::FromTimeT(FloorDiv(t, 1000)).GetMilliseconds() == FloorDiv(t, 1000) * 1000, "time-t", S(t));
			const s64 jitter = rng.Range(0, 50), near = t + rng.Range(-60, 60); const int cmp = TimeCmp(TimeDuration(jitter))(Time(t), Time(near)); const s64 gap = t - near; const int sign = (gap < 0 ? -gap : gap) <= jitter ? 0 : gap < 0 ? -1 : 1;
			VH_CHECK((cmp < 0 ? -1 : cmp > 0 ? 1 : 0) == sign, "time-jitter", S(gap) + " against " + S(jitter));
		}
	}
}

VH_SCENARIO(iso_durations)
{
	for (int n = 0; n < 8; ++n)
	{
		// printed for a base, read for the same base
		{
			const s64 base = AnyInstant(rng, 1000, 9000); const Civil bc = FromMs(FloorDiv(base, 1000) * 1000); const bool leapDay = bc.M == 2 && bc.D == 29;
			const s64 seconds = rng.Bool() ? (s64)rng.Below(400) * 86400 + (rng.Bool() ? (s64)rng.Below(86400) : 0) : rng.Bool() ? (s64)rng.Below(200ull * 366 * 86400) : (s64)rng.Below(100000);
			const bool useBase = rng.Bool(); if (useBase && (leapDay || (base < 0 && base % 1000))) continue;
			const TimeDuration d = D(seconds * 1000000); const std::string text = useBase ? TimeDurationUtility::ToIso8601(d, Time(base)) : TimeDurationUtility::ToIso8601(d);
			std::string r; try { r = S((useBase ? TimeDurationUtility::FromIso8601(text, Time(base)) : TimeDurationUtility::FromIso8601(text)).GetMicroseconds()); } catch (const std::exception&) { r = "refused"; }
			vh_distinct("iso_durations", vh::HashStr(text));
			VH_CHECK(r == S(seconds * 1000000), "iso-duration-round-trip", S(seconds) + " s printed as '" + text + "'" + (useBase ? " from " + Show(bc) : "") + " gives " + r);
		}
		// spelled by hand
		{
			const s64 base = AnyInstant(rng, 1000, 9000); const Civil bc = FromMs(base); if (base < 0 && bc.ms) continue;
			std::string text = "P"; s64 v[6] = { }; bool any = false; static const char letters[] = "YMDHMS"; bool timePart = false;
			const int mask = 1 + (int)rng.Below(63);
			int order = 0; bool gap = false, seen = false, ended = false; // fields that follow each other must not skip one
			(void)order; (void)gap; (void)seen; (void)ended;
			for (int i = 0; i < 6; ++i)
			{
				if (!(mask >> i & 1)) continue;
				if (i >= 3 && !timePart) { text += 'T'; timePart = true; }
				v[i] = i == 0 ? rng.Range(0, 300) : i == 1 ? rng.Range(0, 50) : (rng.Chance(1, 8) ? rng.Range(0, 32767) : rng.Range(0, 99)); text += S(v[i]) + letters[i]; any = true;
			}
			(void)any;
			const s64 months = bc.Y * 12 + bc.M - 1 + v[0] * 12 + v[1]; const s64 days = DaysFromCivil(FloorDiv(months, 12), (int)FloorMod(months, 12) + 1, 1) - DaysFromCivil(bc.Y, bc.M, 1) + v[2];
			const s64 expect = ((days * 24 + v[3]) * 60 + v[4]) * 60 + v[5];
			if (rng.Chance(1, 4)) for (char& c : text) c = (char)tolower(c);
			std::string r; try { r = S(TimeDurationUtility::FromIso8601(text, Time(base)).GetMicroseconds()); } catch (const std::exception&) { r = "refused"; }
			VH_CHECK(r == S(expect * 1000000), "iso-duration-parse", "'" + text + "' from " + Show(bc) + " gives " + r + ", expected " + S(expect) + " s");
			if (rng.Chance(1, 4))
			{
				std::string bad = text; switch (rng.Below(5)) { case 0: bad = bad.substr(1); break; case 1: bad += "5"; break; case 2: bad += bad.find('T') == std::string::npos && bad.find('t') == std::string::npos ? "T" : "T5S"; break; case 3: bad = "-" + bad; break; default: bad[1] = 'x'; break; }
				VH_CHECK(Throws([&] { TimeDurationUtility::FromIso8601(bad, Time(base)); }), "iso-duration-invalid-accepted", bad);
			}
		}
		{ const s64 weeks = rng.Range(0, 4000); VH_CHECK(TimeDurationUtility::FromIso8601("P" + S(weeks) + "W").GetMicroseconds() == weeks * 7 * 86400000000ll, "iso-duration-parse", S(weeks) + " weeks"); }
		if (rng.Chance(1, 8)) { const s64 v = -1 - (s64)rng.Below(1000000); VH_CHECK(Throws([&] { TimeDurationUtility::ToIso8601(D(v)); }), "iso-duration-negative", S(v)); }
	}
}
