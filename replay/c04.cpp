#include "h.h"
#include <cmath>
static double rndd()
{
    switch (rnd(5))
    {
    case 0: { unsigned long long b = rnd(); double d; memcpy(&d, &b, 8); return d; }
    case 1: return (double)(long long)rndv() / (double)(1 + rnd(1000000));
    case 2: return std::ldexp((double)(long long)rnd() / 9.2e18, (int)rnd(2100) - 1074);
    case 3: { static const double t[] = { 0.0, -0.0, INFINITY, -INFINITY, NAN, 1e15, 1e16, 1e17, 9.9999999999999995e14, -9.9999999999999995e15, 1e-4, 1e-5, -1e-5, 0.1, 1e308, -1e308, 5e-324, 1844674407370955161.0, -9223372036854775808.0, 999999999999999.94 }; return t[rnd(sizeof(t) / sizeof(t[0]))]; }
    default: return std::nextafter(std::pow(10.0, (double)((int)rnd(40) - 20)), rnd(2) ? INFINITY : 0) * (rnd(2) ? 1 : -1);
    }
}
static int doubles(long n)
{
    for (long it = 0; it < n; it++)
    {
        double d = rndd();
        char* b = (char*)malloc(30);           // ASan: exactly the room LogStream reserves
        int len = rnd(3) ? FNLog::write_double_unsafe(b, d) : FNLog::write_float_unsafe(b, (float)d);
        if (len < 0 || len > 30) FAIL("rendering of %.17g reports %d bytes", d, len);
        free(b);
    }
    printf("ok %ld floating-point renderings within 30 bytes\n", n);
    return 0;
}
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    if (argc > 3 && !strcmp(argv[3], "doubles")) return doubles(n);
    doubles(n);
    const int LS = LogData::LOG_SIZE;
    Rec r;
    Snap b;
    LogStream empty_mem(std::move(r.s()));          // a stream without a record must ignore everything
    r.s().log_data_ = r.d;
    empty_mem.log_data_ = nullptr;
    std::string src(20000, 0);
    for (auto& c : src) c = (char)(1 + rnd(255));
    std::string bin = src;
    for (size_t i = 0; i < bin.size(); i += 3) bin[i] = 0;
    for (long it = 0; it < n; it++)
    {
        if (it % 40 == 0)
        {
            int cl = rnd(3) ? LS - (int)rnd(120) : (int)rnd(LS + 1);
            r.reset(cl);
        }
        else if (rnd(4) == 0) r.d->content_len_ = rnd(2) ? LS - (int)rnd(70) : (int)rnd(LS + 1);
        int cl = r.d->content_len_;
        b.take(*r.d);
        std::string exact; bool has = false; const char* what = "";
        int op = (int)rnd(26);
        bool nul = rnd(20) == 0;
        LogStream& s = nul ? empty_mem : r.s();
        long long v = (long long)rndv();
        switch (op)
        {
        case 0: what = "int"; s << (int)v; break;
        case 1: what = "unsigned"; s << (unsigned)v; break;
        case 2: what = "long long"; s << v; break;
        case 3: what = "unsigned long long"; s << (unsigned long long)v; break;
        case 4: what = "short"; s << (short)v; break;
        case 5: what = "unsigned char"; s << (unsigned char)v; break;
        case 6: what = "double"; s << rndd(); break;
        case 7: what = "float"; s << (float)rndd(); break;
        case 8: what = "pointer"; s << (const void*)v; break;
        case 9: { what = "char"; char c = (char)v; s << c; exact = std::string(1, c); has = true; break; }
        case 10: { what = "bool"; s << (v & 1 ? true : false); exact = v & 1 ? "true" : "false"; has = true; break; }
        case 11: case 12: case 13: { what = "buffer"; int len = rnd(4) ? (int)rnd(80) : rnd(3) ? (int)rnd(src.size()) : -(int)rnd(5); s.write_buffer(src.data(), len); if (len > 0) exact.assign(src.data(), len); has = true; break; }
        case 14: { what = "C string"; std::string t = src.substr(rnd(9000), rnd(3) ? rnd(60) : rnd(11000)); s << t.c_str(); exact = t; has = true; break; }
        case 15: { what = "std::string"; std::string t = bin.substr(rnd(9000), rnd(3) ? rnd(60) : rnd(11000)); s << t; exact = t; has = true; break; }
        case 16: what = "null C string"; s << (const char*)nullptr; break;
        case 17: what = "binary"; s.write_binary(bin.data(), rnd(3) ? (int)rnd(200) : (int)rnd(bin.size() - 64)); break;
        case 18: { what = "vector"; std::vector<long long> t(rnd(9), v); s << t; break; }
        case 19: { what = "map"; std::map<int, std::string> t; for (int i = (int)rnd(8); i > 0; i--) t[i] = src.substr(i, rnd(30)); s << t; break; }
        case 20: { what = "pair"; s << std::make_pair((int)v, (double)v); break; }
        case 21: what = "blank align"; if (rnd(2)) s << LogBlankAlign<80>(); else s << LogBlankAlign<9999>(); break;
        case 22: what = "percent"; s << LogPercent((float)rndd()); break;
        case 23: what = "time stamp"; s << LogTimestamp((long long)(rndv() >> 24), (int)v); break;
        case 24: what = "category"; s.set_category((int)v); if (!nul) b.d().category_ = (int)v; exact.clear(); has = true; break;
        default: what = "wide numbers"; s.write_number<12>(v); s.write_number<6>((unsigned)v); break;
        }
        if (nul && memcmp((void*)b.m, (void*)r.d, sizeof(LogData))) FAIL("%s: a stream without a record changed one", what);
        if (nul) continue;
        int c2 = r.d->content_len_;
        if (c2 < cl || c2 > LS) FAIL("%s: content length went from %d to %d", what, cl, c2);
        if (has && c2 != cl + (int)std::min<size_t>(exact.size(), LS - cl)) FAIL("%s of %zu bytes at length %d: length is %d", what, exact.size(), cl, c2);
        if (has && memcmp(r.d->content_ + cl, exact.data(), c2 - cl)) FAIL("%s: the appended bytes are not those of the text", what);
        if (memcmp(b.d().content_, r.d->content_, cl)) FAIL("%s: a byte before position %d changed", what, cl);
        memcpy(b.d().content_, r.d->content_, LS);
        b.d().content_len_ = c2;
        if (memcmp((void*)b.m, (void*)r.d, sizeof(LogData))) FAIL("%s at length %d: something outside the text of the record changed", what, cl);
    }
    empty_mem.log_data_ = nullptr; r.s().log_data_ = nullptr;
    printf("ok %ld operations\n", n);
}
