// P21: calendar conversions.  The reference is the proleptic Gregorian calendar
// written independently of the code (days of a year/month/day triple).
#include "vf.h"
#include "core/math.h"
#include "core/date.h"
#include "core/time.h"
#include "core/timestamp.h"
static b8_t leap(i64_t y) { return (y % 4 == 0) && ((y % 100 != 0) || (y % 400 == 0)); }
static i64_t mdays(i64_t y, i64_t m) {
    static const u8_t D[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : D[m];
}
// days before month m of a year, counted month by month
static i64_t before(i64_t y, i64_t m) { i64_t d = 0; for (int k = 1; k < 12; k++) if (k < m) d += mdays(y, k); return d; }
static i64_t ydays(i64_t y) { return 365 * y + y / 4 - y / 100 + y / 400; }   // days in the years 1..y
static i64_t ref_days(i64_t y, i64_t m, i64_t d) { return ydays(y - 1) - ydays(1999) + before(y, m) + d - 1; }
#ifndef LO
#define LO 1
#define HI 9999
#endif
#define FIRST ref_days(LO, 1, 1)
#define LAST ref_days(HI, 12, 31)
static b8_t valid(i64_t y, i64_t m, i64_t d) { return m >= 1 && m <= 12 && d >= 1 && d <= mdays(y, m); }
void h_date(void) {
    vf_init();
    i32_t t = nd_i32();
    ASSUME(t >= FIRST && t <= LAST);
    datestruct_t d = date_from_i32(t);
    CHECK(!d.null && valid(d.year, d.month, d.day), "components of a date are in range");
    CHECK(ref_days(d.year, d.month, d.day) == t, "the components are the ones of the calendar");
    REACH();
}
void h_date_into(void) {
    vf_init();
    datestruct_t d = {.null = 0};
    d.year = (u16_t)nd_in(1, 65535);
    d.month = (u8_t)nd_in(1, 12);
    d.day = (u8_t)nd_in(1, 31);
    ASSUME(valid(d.year, d.month, d.day));
    CHECK(date_into_i32(d) == ref_days(d.year, d.month, d.day), "a date counts the days of the calendar since 2000.01.01");
    REACH();
}
i64_t date_into_days(datestruct_t dt);
#ifndef CALSTUB
void h_days_into(void) {
    vf_init();
    datestruct_t d = {.null = 0};
    d.year = (u16_t)nd_in(1, 65535);
    d.month = (u8_t)nd_in(1, 12);
    d.day = (u8_t)nd_in(1, 31);
    ASSUME(valid(d.year, d.month, d.day));
    CHECK(date_into_days(d) == ref_days(d.year, d.month, d.day), "the day number of a timestamp's date");
    REACH();
}
#endif
void h_time(void) {
    vf_init();
    i32_t t = nd_i32();
    timestruct_t m = time_from_i32(t);
    if (t == NULL_I32) CHECK(m.null, "null converts to null");
    else {
        CHECK(!m.null && m.mins <= 59 && m.secs <= 59 && m.msecs <= 999 && (m.sign == 1 || m.sign == -1), "components of a time are in range");
        CHECK(((i64_t)m.hours * 3600 + m.mins * 60 + m.secs) * 1000 + m.msecs == (t < 0 ? -(i64_t)t : (i64_t)t), "the components add up to the time");
        CHECK(t == 0 || (m.sign == 1) == (t > 0), "the sign is the time's");
    }
    REACH();
}
// the same as floor divisions of the number of milliseconds (no bounds to derive)
void h_time_div(void) {
    vf_init();
    i32_t t = (i32_t)nd_hint(86399999);
    ASSUME(t != NULL_I32);
    timestruct_t m = time_from_i32(t);
    i32_t k = t >> 31;
    i64_t v = (k ^ t) - k, s = v / 1000, r = s % 3600;
    CHECK(!m.null && m.hours == (u16_t)(s / 3600) && m.mins == (u8_t)(r / 60) && m.secs == (u8_t)(r % 60) && m.msecs == (u16_t)(v % 1000), "components");
    REACH();
}
void h_time_into(void) {
    vf_init();
    timestruct_t m = {.null = 0};
    m.sign = nd_b8() ? 1 : -1;
    m.hours = nd_in(0, 595);
    m.mins = nd_in(0, 59);
    m.secs = nd_in(0, 59);
    m.msecs = (u16_t)nd_in(0, 999);
    i64_t t = (i32_t)(((i64_t)m.hours * 3600 + (i64_t)m.mins * 60 + (i64_t)m.secs) * 1000 + (i64_t)m.msecs);
    CHECK(time_into_i32(m) == (m.sign == 1 ? t : -t), "a time counts its milliseconds");
    REACH();
}
#define DAY 86400000000000ll
static i64_t span(timestamp_t s) { return (((i64_t)s.hours * 60 + s.mins) * 60 + s.secs) * 1000000000ll + s.nanos; }
// The day number goes to date_from_i32 (decided by the date queries; here it only records
// its argument); the rest are the quotients and remainders of the count of nanoseconds.
#ifdef CALSTUB
static i32_t seen_day;
static u16_t some_year;
static u8_t some_month, some_day;
datestruct_t date_from_i32(i32_t d) { seen_day = d; return (datestruct_t){.null = 0, .year = some_year, .month = some_month, .day = some_day}; }
i32_t years_by_days(u16_t yy);
static i64_t day_number;
i64_t date_into_days(datestruct_t d) { CHECK(d.year == some_year && d.month == some_month && d.day == some_day, "the date components are passed on"); return day_number; }
void h_timestamp(void) {
    vf_init();
    some_year = (u16_t)nd_u64(), some_month = nd_u8(), some_day = nd_u8();
    i64_t t = (i64_t)nd_hint(864123456789123456);
    ASSUME(t != NULL_I64);
    timestamp_t s = timestamp_from_i64(t);
    i64_t d = t / DAY, n = t % DAY;
    if (n < 0) { d -= 1; n += DAY; }
    i64_t sec = n / 1000000000, r = sec % 3600;
    CHECK(!s.null && s.year == some_year && s.month == some_month && s.day == some_day && seen_day == (i32_t)d, "the date is the one of the day");
    CHECK(s.hours == (u8_t)(sec / 3600) && s.mins == (u8_t)(r / 60) && s.secs == (u8_t)(r % 60) && s.nanos == (u32_t)(n % 1000000000), "the time of day is the rest");
    REACH();
}
void h_timestamp_into(void) {
    vf_init();
    timestamp_t s = {.null = 0};
    s.year = some_year = (u16_t)nd_u64(), s.month = some_month = nd_u8(), s.day = some_day = nd_u8();
    s.hours = (u8_t)nd_in(0, 23);
    s.mins = (u8_t)nd_in(0, 59);
    s.secs = (u8_t)nd_in(0, 59);
    s.nanos = (u32_t)nd_in(0, 999999999);
    day_number = nd_in(-700000, 30000000);
    i64_t v = timestamp_into_i64(s), sp = ((i64_t)s.hours * 3600 + (i64_t)s.mins * 60 + (i64_t)s.secs) * 1000000000 + s.nanos, e, d = day_number;
    if (d < 0) sp -= DAY, d += 1;
    if (__builtin_mul_overflow(d, DAY, &e) || __builtin_add_overflow(e, sp, &e)) e = NULL_I64;
    CHECK(v == e, "nanoseconds since 2000, or null when they do not fit");
    REACH();
}
#endif
void h_null(void) {
    vf_init();
    datestruct_t d = date_from_i32(NULL_I32);
    CHECK(d.null && date_into_i32(d) == NULL_I32, "null date");
    timestruct_t m = time_from_i32(NULL_I32);
    CHECK(m.null && time_into_i32(m) == NULL_I32, "null time");
    timestamp_t s = timestamp_from_i64(NULL_I64);
    CHECK(s.null && timestamp_into_i64(s) == NULL_I64, "null timestamp");
    d.year = (u16_t)nd_u64(), d.month = (u8_t)nd_in(1, 12), d.day = (u8_t)nd_u64();
    m.hours = nd_u8(), m.mins = nd_u8(), m.secs = nd_u8(), m.msecs = (u16_t)nd_u64(), m.sign = 1;
    s.year = (u16_t)nd_u64(), s.month = (u8_t)nd_in(1, 12), s.day = nd_u8(), s.hours = nd_u8(), s.mins = nd_u8(), s.secs = nd_u8();
    CHECK(date_into_i32(d) == NULL_I32 && time_into_i32(m) == NULL_I32 && timestamp_into_i64(s) == NULL_I64, "null whatever the other components hold");
    REACH();
}
// date + time of day is a timestamp whose components are theirs
void h_combine(void) {
    vf_init();
    obj_p d = vf_atom(TYPE_DATE), t = vf_atom(TYPE_TIME), s;
    ASSUME(d->i32 >= -106751 && d->i32 <= 106750 && t->i32 >= 0 && t->i32 < 86400000);
    s = ray_add(d, t);
    CHECK(s->type == -TYPE_TIMESTAMP, "a date and a time give a timestamp");
    CHECK(s->i64 == (i64_t)d->i32 * DAY + (i64_t)t->i32 * 1000000ll, "the timestamp counts the days and the time of day");
    s = ray_add(t, d);
    CHECK(s->type == -TYPE_TIMESTAMP && s->i64 == (i64_t)d->i32 * DAY + (i64_t)t->i32 * 1000000ll, "in either order");
    REACH();
}
