#include "h.h"
#include <cmath>
#include <cfloat>
static long N = 0;
static double rndd()
{
    double s = rnd(2) ? 1 : -1, d = 0;
    unsigned long long u = rnd();
    switch (rnd(12))
    {
    case 0: memcpy(&d, &u, 8); return d;
    case 1: return s * (double)rndv();
    case 2: return s * (double)(rnd() % 100000000) / 10000.0;
    case 3: return s * (double)(rnd() % 100000) / 100000000.0;
    case 4: return s * std::nextafter(std::pow(10.0, (double)((int)rnd(60) - 30)), rnd(2) ? INFINITY : 0);
    case 5: return s * std::ldexp(1.0 + (double)(u >> 12) / 4503599627370496.0, (int)rnd(130) - 66);
    case 6: { double sp[] = {0.0, DBL_MIN, DBL_MAX, DBL_MIN / 2, 4.9e-324, INFINITY, NAN, 0.0001, 0.0000001, 1152921504606846976.0, 1.0, 0.99995, 0.99999999999999989}; return s * sp[rnd(13)]; }
    case 7: return s * (double)(rnd() % 10) + s * (double)(rnd() % 10000) / 10000.0;
    case 8: return s * std::nextafter((double)(rnd() % 1000) + (double)(rnd() % 10000) / 10000.0, rnd(2) ? INFINITY : 0);
    case 9: return s * ((double)(rnd() % 1000000000000ULL) + (double)(rnd() % 1000) / 1000.0);
    case 10: return s * std::ldexp((double)(u >> 11), -(int)rnd(60));
    default: return s * std::pow(10.0, (double)rnd(6000) / 10.0 - 300);
    }
}
// what is wrong with the text of x, or ""
static std::string judge(double x, const std::string& t)
{
    if (std::isnan(x)) return t == "nan" ? "" : "not-a-number is not spelled nan";
    if (std::isinf(x)) return t == (x < 0 ? "-inf" : "inf") ? "" : "infinity is not spelled inf / -inf";
    double a = std::fabs(x);
    if (a < DBL_MIN) return t == "0" ? "" : "zero or subnormal is not spelled 0";
    size_t p = 0;
    bool neg = t.size() && t[0] == '-';
    if (neg != (x < 0)) return "wrong sign";
    if (neg) p++;
    if (p >= t.size() || t[p] < '0' || t[p] > '9' || t[t.size() - 1] == '.') return "not a number";
    char* e = nullptr;
    std::string u = t.substr(p);
    long double v = strtold(u.c_str(), &e), d = v - (long double)a;
    if (*e || u.find_first_not_of("0123456789.e+-") != std::string::npos) return "not a number";
    if (d < 0) d = -d;
    if (a >= 0.0001 && a <= 1152921504606846976.0) return d < 1.00000001e-4L ? "" : "off by 0.0001 or more";
    if (d <= 1e-15L * a) return "";
    if (a >= 0.9999999e-7 && a < 0.0001) return d <= 0.51e-8L ? "" : "eight decimals are not right";
    return "sixteen digits are not right";
}
static void one(double x)
{
    char* b = (char*)malloc(30);
    memset(b, 1, 30);
    int n = write_double_unsafe(b, x);
    if (n < 0 || n > 30) FAIL("write_double_unsafe(%.17g) returns %d", x, n);
    std::string t(b, n), w = judge(x, t);
    if (!w.empty()) FAIL("write_double_unsafe(%.17g) writes \"%s\": %s", x, esc(t).c_str(), w.c_str());
    free(b);
    b = (char*)malloc(30);
    float f = (float)x;
    n = write_float_unsafe(b, f);
    if (n < 0 || n > 30) FAIL("write_float_unsafe(%.9g) returns %d", f, n);
    t.assign(b, n);
    w = judge(f, t);
    if (!w.empty()) FAIL("write_float_unsafe(%.9g) writes \"%s\": %s", f, esc(t).c_str(), w.c_str());
    free(b);
    N += 2;
}
static void stream(Rec& r, double x)
{
    const int LS = LogData::LOG_SIZE;
    for (int k = 0; k < 3; k++)
    {
        int at = rnd(3) ? (int)rnd(LS - 64) : LS - 80 + (int)rnd(81);
        r.reset(at);
        float f = (float)x;
        if (k == 0) r.s() << x;
        else if (k == 1) r.s() << f;
        else r.s() << LogPercent(f);
        int n = r.d->content_len_ - at;
        const char* op = k == 0 ? "<< double" : k == 1 ? "<< float" : "<< LogPercent";
        double v = k == 0 ? x : f;
        if (n < 0 || at + n > LS) FAIL("%s of %.17g at %d: length %d", op, v, at, at + n);
        for (int i = 0; i < at; i++) if (r.d->content_[i] != 1) FAIL("%s of %.17g at %d overwrites byte %d", op, v, at, i);
        if (n == 0 && at + 64 > LS) continue;
        std::string t(r.d->content_ + at, n), w;
        if (k < 2) w = judge(v, t);
        else if (f < 0.9999e-6f) w = t == "00.00%" ? "" : "not 00.00%";
        else if (t == "00.00%" && f < 1.0001e-6f) w = "";
        else if (n < 2 || t[n - 1] != '%') w = "no percent sign";
        else { w = judge((double)f * 100.0, t.substr(0, n - 1)); }
        if (!w.empty()) FAIL("%s of %.17g writes \"%s\": %s", op, v, esc(t).c_str(), w.c_str());
        N++;
    }
}
int main(int c, char** a)
{
    rng.seed(atoi(a[1]));
    long n = atol(a[2]);
    Rec r;
    for (long i = 0; i < n; i++)
    {
        double x = rndd();
        one(x);
        if (i % 50 == 0) stream(r, x);
    }
    printf("held on %ld renderings\n", N);
}
