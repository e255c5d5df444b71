#include "h.h"
static long N = 0;
template<int W> void one(unsigned long long v)
{
    for (int sg = 0; sg < 2; sg++)
    {
        std::string want = sg ? dec_s((long long)v, W) : dec(v, false, W);
        char* b = (char*)malloc(want.size() + 16);
        memset(b, 1, want.size() + 16);
        int n = sg ? write_dec_unsafe<W>(b + 8, (long long)v) : write_dec_unsafe<W>(b + 8, v);
        std::string got(b + 8, n < 0 || n > (int)want.size() + 8 ? 0 : n);
        if (got != want) FAIL("write_dec_unsafe<%d>(%s%llu) produced \"%s\" (length %d), expected \"%s\"", W, sg ? "signed " : "", v, esc(got).c_str(), n, want.c_str());
        for (int k = 0; k < (int)want.size() + 16; k++) if ((k < 8 || k >= 8 + n) && b[k] != 1) FAIL("write_dec_unsafe<%d>(%llu) touched byte %d", W, v, k - 8);
        free(b);
        N++;
    }
}
template<class T> void st(Rec& r, T v, int at)
{
    r.reset(at);
    Snap before; before.take(*r.d);
    std::string want = std::is_signed<T>::value ? dec_s((long long)v, 0) : dec((unsigned long long)v, false, 0);
    if (at + 30 > LogData::LOG_SIZE) want = "";
    r.s() << v;
    appended(r, before, at, want, "operator<<");
    r.reset(at);
    before.take(*r.d);
    want = std::is_signed<T>::value ? dec_s((long long)v, 6) : dec((unsigned long long)v, false, 6);
    if (at + 30 > LogData::LOG_SIZE) want = "";
    r.s().template write_number<6>(v);
    appended(r, before, at, want, "write_number<6>");
    N += 2;
}
static void all(Rec& r, unsigned long long v, int at)
{
    one<0>(v); one<1>(v); one<2>(v); one<3>(v); one<4>(v); one<8>(v); one<10>(v); one<16>(v); one<20>(v);
    st<short>(r, (short)v, at); st<unsigned short>(r, (unsigned short)v, at); st<int>(r, (int)v, at); st<unsigned>(r, (unsigned)v, at);
    st<long>(r, (long)v, at); st<unsigned long>(r, v, at); st<long long>(r, (long long)v, at); st<unsigned long long>(r, v, at); st<unsigned char>(r, (unsigned char)v, at);
}
int main(int c, char** a)
{
    rng.seed(atoi(a[1]));
    Rec r;
    for (int i = 3; i < c; i++) all(r, (unsigned long long)atoll(a[i]), 0);
    for (unsigned long long v = 0; v < 300; v++) all(r, v, 17), all(r, 0 - v, 17);
    unsigned long long b[] = {0x8000000000000000ULL, ~0ULL, 0x7fffffffffffffffULL, 0x80000000ULL, 0x7fffffffULL, 0x8000, 0x7fff};
    for (auto v : b) all(r, v, 5);
    long n = atol(a[2]);
    for (long i = 0; i < n; i++) all(r, rndv(), rnd(4) ? (int)rnd(LogData::LOG_SIZE - 40) : LogData::LOG_SIZE - 33 + (int)rnd(34));
    printf("held on %ld calls\n", N);
}
