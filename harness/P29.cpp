// P29: dates.
// VH-TECH: exhaustive days of several centuries, every border of days, months, leap years and random instants against an independent proleptic Gregorian calendar (day arithmetic of civil dates); generated patterns against an independent formatter; ASan+UBSan
#include "vh.hpp"
using namespace vh;
using namespace jm;
struct Civil
{
   int64 y, m, d, wd, doy, h, mi, s, ms;   // m and doy from 0
};
static int64 fdiv(int64 a, int64 b)
{
   int64 q = a / b;
   return a % b && (a < 0) != (b < 0) ? q - 1 : q;
}
// Days from 1970-01-01 by counting in eras of 400 years that begin in March (independent of Date's own formulas)
static int64 daysOf(int64 y, int64 m, int64 d)
{
   y -= m < 2;
   int64 era = fdiv(y, 400), yoe = y - era * 400, mp = (m + 10) % 12, doy = (153 * mp + 2) / 5 + d - 1;
   return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
static Civil civil(int64 t)
{
   Civil c;
   int64 day = fdiv(t, 86400000), r = ((t % 86400000) + 86400000) % 86400000;
   c.ms = r % 1000;
   c.s = r / 1000 % 60;
   c.mi = r / 60000 % 60;
   c.h = r / 3600000;
   int64 z = day + 719468, era = fdiv(z, 146097), doe = z - era * 146097;
   int64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
   c.d = doy - (153 * mp + 2) / 5 + 1;
   c.m = (mp + 2) % 12;
   c.y = yoe + era * 400 + (c.m < 2);
   c.wd = ((day + 4) % 7 + 7) % 7;
   c.doy = day - daysOf(c.y, 0, 1);
   return c;
}
static std::string pad(int64 v, int n)
{
   std::string s = std::to_string(v);
   while((int)s.size() < n)s = "0" + s;
   return s;
}
static void instant(int64 t, bool deep)
{
   Date d(t);
   Civil c = civil(t);
   VH_CHECK(d.time() == t, "time", t);
   VH_CHECK(d.utcYear() == c.y && d.utcMonth() == c.m && d.utcDate() == c.d, "date",
            t << " gives " << d.utcYear() << "-" << d.utcMonth() + 1 << "-" << d.utcDate() << " want " << c.y << "-" << c.m + 1 << "-" << c.d);
   VH_CHECK(d.utcDay() == c.wd, "weekday", t << " gives " << d.utcDay() << " want " << c.wd);
   VH_CHECK(d.utcHours() == c.h && d.utcMinutes() == c.mi && d.utcSeconds() == c.s && d.utcMilliseconds() == c.ms, "time-of-day",
            t << " gives " << d.utcHours() << ":" << d.utcMinutes() << ":" << d.utcSeconds() << "." << d.utcMilliseconds());
   if(deep)(void)d.toString();
   VH_CHECK(d.dayOfYear() == c.doy, "day-of-year", t << " gives " << d.dayOfYear() << " want " << c.doy);
   // local time is UTC here
   VH_CHECK(d.year() == c.y && d.month() == c.m && d.date() == c.d && d.day() == c.wd && d.hours() == c.h && d.minutes() == c.mi && d.seconds() == c.s
            && d.milliseconds() == c.ms, "local", t);
   if(c.y >= 0 && c.y < 65536)
   {
      Date e((uint16)c.y, (uint16)c.m, (uint16)c.d, (uint16)c.h, (uint16)c.mi, (uint16)c.s, (uint16)c.ms);
      VH_CHECK(e.time() == t, "from-fields", "fields of " << t << " give " << e.time());
      Date f((uint16)c.y, (uint16)c.m, (uint16)c.d);
      VH_CHECK(f.time() == fdiv(t, 86400000) * 86400000, "from-day", "day of " << t << " gives " << f.time());
   }
   if(deep && c.y >= 0 && c.y <= 9999)
   {
      std::string w = pad(c.y, 4) + "-" + pad(c.m + 1, 2) + "-" + pad(c.d, 2) + "T" + pad(c.h, 2) + ":" + pad(c.mi, 2) + ":" + pad(c.s, 2) + "." + pad(c.ms, 3) + "Z";
      VH_CHECK(bytesOf(d.toString().toCString()) == w, "toString", bytesOf(d.toString().toCString()) << " want " << w);
   }
   count("instants");
   distinct((uint64_t)t);
}
// every day of the years 1500 to 2500, one year per case
VH_WORKLOAD(days, 1001, 1001)
{
   int64 y = 1500 + (int64)c.index;
   for(int64 d = daysOf(y, 0, 1), e = daysOf(y + 1, 0, 1); d < e; d++)
   {
      int64 r = c.r.range(0, 86399999);
      instant(d * 86400000 + (d % 3 == 0 ? 0 : d % 3 == 1 ? 86399999 : r), false);
      count("days");
   }
}
static const int64 LO = -62135596800000LL * 2, HI = 253402300800000LL;   // about the years -1970 to 9999
VH_WORKLOAD(instants, 40000, 600000)
{
   Rng& r = c.r;
   int64 t;
   switch(r.below(7))
   {
      case 0: t = r.range(LO, HI); break;
      case 5: t = (int64)r.u64() >> r.below(40); count("far"); break;   // any instant at all
      case 6: t = r.chance(0.5) ? INT64_MIN + (int64)r.below(3) : r.chance(0.5) ? INT64_MAX - (int64)r.below(3) : (r.range(-700000, 700000) * 146097LL + r.range(-2, 2)) * 86400000 + r.range(-1, 1); count("far"); break;
      case 1: t = r.range(-4000000000000LL, 4000000000000LL); break;
      case 2: { int64 y = r.range(-1900, 9999); t = (daysOf(y, r.range(0, 11), 1)) * 86400000 + r.range(-2, 1); break; }   // month borders
      case 3: { int64 y = r.pick(std::vector<int64>{-400, -100, -4, 0, 4, 100, 400, 1600, 1700, 1900, 1904, 1970, 1972, 2000, 2004, 2100, 2400, 9600}); t = daysOf(y, 1, 28) * 86400000 + r.range(0, 3 * 86400000LL); break; }
      default: { static const int64 U[] = {1000, 60000, 3600000, 86400000}; int64 u = U[r.below(4)]; t = r.range(-20000, 20000) * u + r.range(-1, 1); break; }
   }
   instant(t, true);
}
// fields out of their range carry over
VH_WORKLOAD(overflow, 3000, 30000)
{
   Rng& r = c.r;
   uint16 y = (uint16)r.range(1, r.chance(0.2) ? 65535 : 3000), m = (uint16)r.range(0, 60), d = (uint16)r.range(0, 1000), h = (uint16)r.range(0, 1000), mi = (uint16)r.below(65536), s = (uint16)r.below(65536), ms = (uint16)r.below(65536);
   int64 want = (daysOf(y + m / 12, m % 12, 1) + d - 1) * 86400000 + h * 3600000LL + mi * 60000LL + s * 1000LL + ms;
   VH_CHECK(Date(y, m, d, h, mi, s, ms).time() == want, "overflow", y << "/" << m << "/" << d << " " << h << ":" << mi << ":" << s << "." << ms << " gives " << Date(y, m, d, h, mi, s, ms).time() << " want " << want);
   count("overflow");
}
VH_WORKLOAD(order, 10000, 100000)
{
   Rng& r = c.r;
   const bool far = r.chance(0.2);
   auto any = [&] { return r.chance(0.2) ? (r.chance(0.5) ? INT64_MIN : INT64_MAX) : (int64)r.u64() >> r.below(40); };
   int64 a = r.range(LO, HI), b = r.chance(0.3) ? a : r.chance(0.5) ? a + r.range(-2, 2) : r.range(LO, HI);
   if(far)
   {
      do a = any(); while(a == Date::EMPTY);
      if(r.chance(0.7))do b = any(); while(b == Date::EMPTY);
      else b = a;
      count("farOrder");
   }
   Date x(a), y(b);
   VH_CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "order", a << " " << b);
   int32 k = x.compareTo(y);
   VH_CHECK((k < 0) == (a < b) && (k > 0) == (a > b), "compareTo", a << " " << b << " gives " << k);
   Date z(x);
   z.setTime(b);
   VH_CHECK(z == y && x.time() == a, "setTime", "");
   VH_CHECK(Date((int64)Date::EMPTY).isEmpty() && !x.isEmpty(), "empty", "");
   double ns = (double)r.range(-2000000000, 2000000000);
   VH_CHECK(Date::fromNSDate(ns).time() == 978307200000LL + (int64)ns * 1000, "fromNSDate", ns);
   double fr = r.real(-2e9, 2e9);
   VH_CHECK(std::fabs((double)(Date::fromNSDate(fr).time() - 978307200000LL) - fr * 1000) <= 1.001, "fromNSDate", fr);
   count("order");
}
VH_WORKLOAD(patterns, 25000, 250000)
{
   Rng& r = c.r;
   static const char* DAY[] = {"Sonntag", "Montag", "Dienstag", "Mittwoch", "Donnerstag", "Freitag", "Samstag"};
   static const char* MON3[] = {"Jan", "Feb", "Mrz", "Apr", "Mai", "Jun", "Jul", "Aug", "Sep", "Okt", "Nov", "Dez"};
   static const char* MON[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
   static const char* TXT[] = {".", " ", "-", "/", ":", ", ", "T", "--", "\xc3\xa4", "(", "%", "1", "..", "G"};
   int64 t = r.chance(0.1) ? (int64)(r.u64() >> r.range(1, 20)) : r.chance(0.5) ? r.range(-60000000000000LL, HI) : r.range(-100, 100) * 86400000 + r.range(-1, 1);
   Civil v = civil(t);
   if(v.y > 9999)count("longYears");
   std::string p, want;
   char last = 0;
   for(int n = (int)r.range(0, r.chance(0.02) ? 200 : 8); n--;)
   {
      std::string add, out;
      auto num = [&](char l, int64 x, int width) { int k = r.chance(0.5) ? 1 : width; add = std::string((size_t)k, l); out = pad(x, k == 1 ? 0 : width); };
      switch(r.below(11))
      {
         case 0: num('d', v.d, 2); break;
         case 1: num('H', v.h, 2); break;
         case 2: num('m', v.mi, 2); break;
         case 3: num('s', v.s, 2); break;
         case 4: num('S', v.ms, 3); break;
         case 5: if(r.chance(0.5)) { add = "yyyy"; out = std::to_string(v.y); } else { add = "yy"; out = pad(v.y % 100, 2); } break;
         case 6:
         {
            int k = r.chance(0.05) ? (int)r.range(5, 600) : (int)r.range(1, 4);
            if(k > 255)count("longRuns");
            add = std::string((size_t)k, 'M');
            out = k == 1 ? std::to_string(v.m + 1) : k == 2 ? pad(v.m + 1, 2) : k == 3 ? MON3[v.m] : MON[v.m];
            break;
         }
         case 7: { int k = r.chance(0.05) ? (int)r.range(5, 600) : (int)r.range(1, 4); add = std::string((size_t)k, 'E'); out = k < 3 ? std::string(DAY[v.wd]).substr(0, (size_t)k) : DAY[v.wd]; break; }
         case 8:   // quoted text, also of letters that mean something
         {
            static const char* Q[] = {"at", "dd", "yyyy", "o", "HH:mm", "E", "\xc3\xa4 M", "", "s s", "day "};
            std::string q = Q[r.below(10)];
            if(r.chance(0.02))for(int k = (int)r.range(1, 200); k--;)q += Q[r.below(10)];
            add = "'" + q + "'";
            out = q;
            break;
         }
         default: add = TXT[r.below(14)]; out = add; break;
      }
      if(v.y < 1 && add[0] == 'y')continue;
      if(add[0] == last)continue;   // would continue the element before
      p += add;
      want += out;
      last = add.back();
      if(add[0] == '\'')last = 0;   // a quote separates elements
   }
   if(p.size() && r.chance(0.1)) { p += "'rest dd"; want += "rest dd"; }   // quote not closed
   std::string got = bytesOf(DateFormatter(jm::String(p.c_str())).format(Date(t)).toCString());
   VH_CHECK(got == want, "format", "pattern " << p << " at " << t << " gives " << got << " want " << want);
   if(r.chance(0.3))
   {
      DateFormatter f{jm::String(p.c_str())};
      (void)f.format(Date(0));
      VH_CHECK(bytesOf(f.format(Date(t)).toCString()) == want && bytesOf(DateFormatter::format(jm::String(p.c_str()), Date(t)).toCString()) == want, "format-again", p);
   }
   distinct(hashStr(p));
   count("patterns");
}
// The clock: not before the test began, not after it ended
VH_WORKLOAD(clock, 50, 200)
{
   timespec a, b;
   clock_gettime(CLOCK_REALTIME, &a);
   Date d;
   clock_gettime(CLOCK_REALTIME, &b);
   int64 lo = (int64)a.tv_sec * 1000 + a.tv_nsec / 1000000, hi = (int64)b.tv_sec * 1000 + b.tv_nsec / 1000000;
   VH_CHECK(hi < lo || (d.time() >= lo - 5 && d.time() <= hi + 5), "now", d.time() << " not in " << lo << ".." << hi);
   count("now");
}
VH_REQUIRE("longRuns", "longYears", "farOrder", "instants", "days", "overflow", "order", "patterns", "now")
VH_DRIVER("P29", "fields, weekday and text of each instant are those of an independent calendar; fields give back the instant; order is that of instants")
