// T02: time conversions of several threads do not disturb each other.
#define CMDR_ENABLE_VERBOSE_LOG 1
#include "cmdr11/cmdr_defs.hh"
#include "cmdr11/cmdr_chrono.hh"
#include "cmdr11/cmdr_log.hh"
#include "common.h"
#include <cstdarg>
#include <cstring>
#include <sstream>
using clk = std::chrono::system_clock;
namespace cc = cmdr::chrono;
using iom = cc::iom;

static thread_local std::string *t_printed;
extern "C" int printf(const char *f, ...) {  // what the log line prints
  char b[1024];
  va_list va;
  va_start(va, f);
  int const n = vsnprintf(b, sizeof b, f, va);
  va_end(va);
  sim::Quiet q;
  if (t_printed) t_printed->append(b, n < (int) sizeof b ? n : (int) sizeof b - 1);
  return n;
}

namespace {
  // independent reference: proleptic Gregorian calendar, UTC
  struct Civil {
    long y;
    int mo, d, h, mi, s, wday, yday;
  };
  Civil civil(int64_t t) {
    int64_t z = t / 86400, r = t % 86400;
    if (r < 0) r += 86400, z--;
    Civil c{};
    c.h = (int) (r / 3600), c.mi = (int) (r / 60 % 60), c.s = (int) (r % 60);
    c.wday = (int) (((z + 4) % 7 + 7) % 7);
    int64_t const zz = z + 719468, era = (zz >= 0 ? zz : zz - 146096) / 146097;
    unsigned const doe = (unsigned) (zz - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    unsigned const doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    c.d = (int) (doy - (153 * mp + 2) / 5 + 1);
    c.mo = (int) (mp < 10 ? mp + 3 : mp - 9);
    c.y = (long) yoe + era * 400 + (c.mo <= 2);
    bool const leap = (c.y % 4 == 0 && c.y % 100 != 0) || c.y % 400 == 0;
    static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    c.yday = cum[c.mo - 1] + c.d - 1 + (leap && c.mo > 2);
    return c;
  }
  std::string fmt(Civil const &c) {
    char b[64];
    snprintf(b, sizeof b, "%04ld-%02d-%02d %02d:%02d:%02d", c.y, c.mo, c.d, c.h, c.mi, c.s);
    return b;
  }
  clk::time_point gen_tp() {
    static const int64_t base[] = {0, 86399, 951782400, 1609459199, 1709210096, 2147483647, 4102444800ll, 1234567890, -86400, -2208988800ll};
    int64_t const t = base[sim::choose(10, "base")] + (int64_t) sim::choose(400, "days") * 86400 + (int64_t) sim::choose(86400, "sec");
    return clk::time_point(std::chrono::seconds(t == -1 ? 0 : t)) + std::chrono::nanoseconds(t < 0 ? 0 : sim::choose(1000, "ms") * 1000000ull + sim::choose(1000, "us") * 1000 + sim::choose(1000, "ns"));
  }
  struct Tm {
    int v[9];
    long off;
  };
  Tm pack(std::tm const &t) { return Tm{{t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon, t.tm_year, t.tm_wday, t.tm_yday, t.tm_isdst}, 0}; }
  std::string show(Tm const &t) {
    std::string s;
    for (int x: t.v) s += std::to_string(x) + ",";
    return s;
  }
  constexpr int OPS = 17;
  const char *const FMT[] = {"%Y-%m-%d %H:%M:%S", "%F %T", "%j %H", "%a %d %b %Y", "%Y/%m/%d"};
  struct Op {
    int kind, f, off;
    clk::time_point tp;
    std::string expr;
  };
  Op gen_op() {
    Op o;
    o.kind = (int) sim::choose(OPS, "op");
    o.f = (int) sim::choose(5, "fmt");
    o.off = 1 + (int) sim::choose(31, "off");
    o.tp = gen_tp();
    o.expr = fmt(civil(clk::to_time_t(o.tp)));
    return o;
  }
  std::string perform(Op const &o) {
    auto const tt = clk::to_time_t(o.tp);
    std::stringstream ss;
    switch (o.kind) {
      case 0: return show(pack(cc::time_point_2_tm<clk, true>(o.tp)));
      case 1: return show(pack(cc::time_point_2_tm(o.tp)));
      case 2: return show(pack(cc::time_t_2_tm<clk, true>(tt)));
      case 3: return show(pack(cc::time_t_2_tm(tt)));
      case 4: cc::serialize_time_point(ss, o.tp, FMT[o.f]); return ss.str();
      case 5: return cc::format_time_point(o.tp, FMT[o.f]);
      case 6: return cc::format_time_point_to_local(o.tp, FMT[o.f]);
      case 7: {
        auto const tm = cc::time_point_2_tm(o.tp);
        return cc::format_tm(&tm, FMT[o.f]);
      }
      case 8: {
        auto tm = cc::time_point_2_tm(o.tp);
        return std::to_string(cc::tm_2_time_point(tm).time_since_epoch().count());
      }
      case 9: {
        auto tm = cc::time_point_2_tm(o.tp);
        return std::to_string(cc::tm_2_time_point(&tm).time_since_epoch().count());
      }
      case 10: {
        auto const tm = cc::time_point_2_tm(o.tp);
        return show(pack(cc::last_day_at_this_month(tm, o.off % 3 + 1, o.off % 14)));
      }
      case 11: {
        auto const tm = cc::time_point_2_tm(o.tp);
        return show(pack(cc::last_day_at_this_year(tm, o.off)));
      }
      case 12: return std::to_string(cc::compare_date_part(o.tp, o.tp + std::chrono::hours(o.off)));
      case 13: ss << o.tp; return ss.str();
      case 14: {
        auto const tm = cc::time_point_2_tm(o.tp);
        ss << tm << '|' << &tm;
        return ss.str();
      }
      case 15: {
        std::tm tm{};
        bool const ok = cc::try_parse_by(tm, o.expr, "%Y/%m/%d", "%H:%M:%S");
        return std::to_string(ok) + show(pack(tm));
      }
      default: return std::to_string(cc::parse_datetime<clk, false>(o.expr.c_str()).time_since_epoch().count());
    }
  }
  const char *const TZS[] = {"UTC0", "EST5EDT", "<+0530>-5:30", "<-03>3"};
  void set_tz() {
    setenv("TZ", TZS[sim::choose(4, "tz")], 1);
    tzset();
  }
} // namespace

SCENARIO(conversions, 5) {
  sim::opt().clock_jumps = false;
  set_tz();
  static const iom::fmtflags FL[] = {iom::fmtflags::gmt, iom::fmtflags::local, iom::fmtflags::ns, iom::fmtflags::us, iom::fmtflags::ms};
  for (int i = (int) sim::choose(3, "flags"); i > 0; i--) iom::set_flags(FL[sim::choose(5, "flag")]);
  int const T = 2 + (int) sim::choose(3, "threads");
  std::vector<std::vector<Op>> ops(T);
  std::vector<std::vector<std::string>> want(T);
  {
    for (auto &v: ops) for (int i = 1 + (int) sim::choose(4, "n"); i > 0; i--) v.push_back(gen_op());
    sim::Quiet q;
    for (int i = 0; i < T; i++) for (auto &o: ops[i]) {
      want[i].push_back(perform(o));
      if (o.kind == 2) {  // the reference calendar agrees (so alone it is right as well)
        Civil const c = civil(clk::to_time_t(o.tp));
        Tm const t{{c.s, c.mi, c.h, c.d, c.mo - 1, (int) c.y - 1900, c.wday, c.yday, 0}, 0};
        if (show(t) != want[i].back()) sim::fail("wrong-alone", "time_t_2_tm<GMT>(%s) is %s", o.expr.c_str(), want[i].back().c_str());
      }
    }
  }
  std::vector<std::thread> ts;
  for (int i = 0; i < T; i++)
    ts.push_back(h::spawn([&, i] {
      for (size_t k = 0; k < ops[i].size(); k++) {
        auto const got = perform(ops[i][k]);
        SIM_CHECK(got == want[i][k], "mixed-up", "operation %d of %s gave '%s' while others were converting, alone it gives '%s'", ops[i][k].kind, ops[i][k].expr.c_str(), got.c_str(), want[i][k].c_str());
        sim::event("op %d", ops[i][k].kind);
        if (k) sim::nontrivial();
      }
    }));
  for (auto &t: ts) t.join();
}
// wall clock objects and log lines: the stamp is the time of the call
SCENARIO(stamps, 2) {
  set_tz();
  bool const jumps = sim::opt().clock_jumps = sim::chance(300, "jumps");
  iom::set_flags(sim::chance(500, "gmt") ? iom::fmtflags::gmt : iom::fmtflags::local);
  bool const gmt = iom::has(iom::fmtflags::gmt_or_local);
  int const T = 2 + (int) sim::choose(2, "threads");
  std::vector<std::thread> ts;
  for (int i = 0; i < T; i++)
    ts.push_back(h::spawn([&, i] {
      for (int k = 1 + (int) sim::choose(3, "n"); k > 0; k--) {
        static const int64_t D[] = {0, 1000000000, 3599ll * 1000000000, 86400ll * 1000000000, 40ll * 86400 * 1000000000};
        sim::sleep_ns((uint64_t) D[sim::choose(5, "sleep")]);
        int64_t const w0 = sim::wall_now() / 1000000000;
        if (sim::chance(400, "clock")) {
          cc::clock const c;
          int64_t const w1 = sim::wall_now() / 1000000000;
          std::stringstream ss;
          ss << c;
          std::string const head = ss.str().substr(0, 19);
          if (!jumps) {
            bool ok = false;
            for (int64_t w = w0; w <= w1 && w < w0 + 5 && !ok; w++) {
              time_t const t = (time_t) w;
              char b[64];
              struct tm tm;
              sim::Quiet q;
              if (gmt) ok = fmt(civil(w)) == head;
              else {
                localtime_r(&t, &tm);
                strftime(b, sizeof b, "%F %T", &tm);
                ok = head == b;
              }
            }
            SIM_CHECK(ok || w1 >= w0 + 5, "stamp", "a clock object made at %s UTC prints '%s' (gmt=%d)", fmt(civil(w0)).c_str(), ss.str().c_str(), gmt);
          }
        } else {
          std::string out;
          t_printed = &out;
          cmdr_print("thread %d says %s", i, "hello");
          t_printed = nullptr;
          int64_t const w1 = sim::wall_now() / 1000000000;
          char want[64];
          snprintf(want, sizeof want, "thread %d says hello", i);
          SIM_CHECK(out.find(want) != std::string::npos, "log-line", "the log line is '%s'", out.c_str());
          if (!jumps) {
            bool ok = false;
            for (int64_t w = w0; w <= w1 && w < w0 + 5 && !ok; w++) {
              Civil const c = civil(w);
              char b[64];
              snprintf(b, sizeof b, "%02d/%02d/%02d %02d:%02d:%02d", c.mo, c.d, (int) (c.y % 100), c.h, c.mi, c.s);
              ok = out.find(b) != std::string::npos;
            }
            SIM_CHECK(ok || w1 >= w0 + 5, "stamp", "a log line written at %s UTC is '%s'", fmt(civil(w0)).c_str(), out.c_str());
          }
          sim::cover("log-line");
        }
        sim::nontrivial();
        sim::event("stamp %d", i);
      }
    }));
  for (auto &t: ts) t.join();
}
