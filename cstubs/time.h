#ifndef STUB_TIME
#define STUB_TIME
typedef long time_t; typedef long clock_t; time_t time(time_t *);
struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; };
struct tm *localtime(const time_t *);
#define CLOCKS_PER_SEC 1000000L
#endif
