// C03: write_date_unsafe on fresh threads, every history of instants, against localtime_r
#include "h.h"
#include <thread>
#include <time.h>
static const char* zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-12>12", "<+14>-14"};
static std::string ref(long long ts, unsigned ms)
{
    struct tm t; memset(&t, 0, sizeof t); time_t x = (time_t)ts;
    localtime_r(&x, &t);
    char b[64];
    snprintf(b, sizeof b, "[%04d%02d%02d %02d:%02d:%02d.%03u]", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, ms >= 1000 ? 999 : ms);
    return b;
}
static std::string bad;
static void one(long long ts, unsigned ms, std::string& hist)
{
    char* d = new char[40];
    memset(d, '~', 40);
    int n = write_date_unsafe(d, ts, ms);
    std::string got(d, d + (n < 0 ? 0 : n > 40 ? 40 : n)), want = ref(ts, ms);
    delete[] d;
    char b[64]; snprintf(b, sizeof b, " %lld/%u", ts, ms); hist += b;
    if (got != want && bad.empty()) bad = "rendered \"" + esc(got) + "\" instead of \"" + want + "\" after the instants" + hist;
}
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    std::vector<std::pair<long long, unsigned>> given;
    const long long lo = -62135596800LL + 1000LL * 366 * 86400, hi = 253402300799LL - 2 * 86400;
    for (int i = 3; i + 1 < argc; i += 2) if (atoll(argv[i]) >= lo && atoll(argv[i]) <= hi) given.push_back({atoll(argv[i]), (unsigned)atoll(argv[i + 1])});
    for (long it = 0; it < n; it++)
    {
        const char* z = zones[rnd(sizeof zones / sizeof *zones)];
        setenv("TZ", z, 1); tzset();
        int m = 1 + (int)rnd(6);
        std::vector<std::pair<long long, unsigned>> seq;
        long long base;
        switch (rnd(5))
        {
        case 0: base = (long long)rnd(200000) - 100000; break;
        case 1: base = lo + (long long)rnd((unsigned long long)(hi - lo)); break;
        case 2: { struct tm t; memset(&t, 0, sizeof t); t.tm_year = 70 + (int)rnd(130); static const int mon[] = {2, 2, 9, 9, 10, 3, 8}; t.tm_mon = mon[rnd(7)]; t.tm_mday = 1 + (int)rnd(31); t.tm_isdst = -1; base = mktime(&t); break; }
        default: base = 946684800LL + (long long)rnd(1500000000ULL); break;
        }
        for (int i = 0; i < m; i++)
        {
            static const long long step[] = {0, 1, -1, 59, 60, 3599, 3600, 3601, 7200, 1800, 86399, 86400, 86401, 43200};
            long long s = step[rnd(sizeof step / sizeof *step)];
            if (rnd(4) == 0) s = (long long)rnd(200000);
            base += rnd(3) ? s : -s;
            if (base < lo) base = lo;
            if (base > hi) base = hi;
            static const unsigned mss[] = {0, 1, 9, 10, 99, 100, 999, 1000, 1001, 4294967295u};
            seq.push_back({base, rnd(2) ? (unsigned)rnd(1000) : mss[rnd(10)]});
        }
        if (!given.empty() && it < (long)given.size()) seq.insert(seq.begin() + (long)rnd(seq.size() + 1), given[it]);
        std::string hist;
        std::thread t([&]() { for (auto& p : seq) one(p.first, p.second, hist); });
        t.join();
        if (!bad.empty()) { printf("TZ=%s: ", z); FAIL("%s", bad.c_str()); }
    }
    // records carry the time at which they are created
    static SHMLogger shm; static Logger L; L.shm_ = nullptr;
    for (int i = 0; i < 300; i++)
    {
        static LogData d;
        struct timeval a, b;
        gettimeofday(&a, nullptr);
        InitLogData(L, d, 0, 0, 0, 0, 0);
        gettimeofday(&b, nullptr);
        long long t = d.timestamp_ * 1000 + d.precise_;
        if (d.precise_ > 999 || t < a.tv_sec * 1000LL + a.tv_usec / 1000 || t > b.tv_sec * 1000LL + b.tv_usec / 1000) FAIL("a record created between %lld.%06ld and %lld.%06ld carries %lld.%03u", (long long)a.tv_sec, (long)a.tv_usec, (long long)b.tv_sec, (long)b.tv_usec, (long long)d.timestamp_, d.precise_);
    }
    printf("ok\n");
    return 0;
}
