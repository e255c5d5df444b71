#include "h.h"
static long N = 0;
static std::string radix(unsigned long long v, int bits, int W)
{
    std::string s;
    do { s.insert(s.begin(), "0123456789ABCDEF"[v & ((1u << bits) - 1)]); v >>= bits; } while (v);
    while ((int)s.size() < W) s.insert(s.begin(), '0');
    return s;
}
static std::string up(std::string s, size_t from = 0) { for (size_t i = from; i < s.size(); i++) s[i] = (char)toupper(s[i]); return s; }
static void cmp(const char* what, unsigned long long v, char* b, int n, const std::string& want, size_t from = 0)
{
    std::string got(b + 8, n < 0 || n > (int)want.size() + 8 ? 0 : n);
    if (up(got, from) != up(want, from)) FAIL("%s(%llu) produced \"%s\" (length %d), expected \"%s\"", what, v, esc(got).c_str(), n, want.c_str());
    for (int k = 0; k < (int)want.size() + 16; k++) if ((k < 8 || k >= 8 + n) && b[k] != 1) FAIL("%s(%llu) touched byte %d", what, v, k - 8);
    N++;
}
template<int W> void one(unsigned long long v)
{
    for (int bits = 1; bits <= 4; bits += 3) for (int sg = 0; sg < 2; sg++)
    {
        std::string want = radix(v, bits, W);
        char* b = (char*)malloc(want.size() + 16);
        memset(b, 1, want.size() + 16);
        int n = bits == 4 ? (sg ? write_hex_unsafe<W>(b + 8, (long long)v) : write_hex_unsafe<W>(b + 8, v)) : (sg ? write_bin_unsafe<W>(b + 8, (long long)v) : write_bin_unsafe<W>(b + 8, v));
        char nm[40]; snprintf(nm, 40, "write_%s_unsafe<%d>", bits == 4 ? "hex" : "bin", W);
        cmp(nm, v, b, n, want);
        free(b);
    }
}
static std::string ptext(unsigned long long v) { return v ? "0x" + radix(v, 4, 0) : "null"; }
static void all(Rec& r, unsigned long long v, int at)
{
    one<0>(v); one<1>(v); one<2>(v); one<3>(v); one<4>(v); one<8>(v); one<10>(v); one<16>(v); one<20>(v);
    std::string want = ptext(v);
    std::vector<char> b(want.size() + 16, 1);
    cmp("write_pointer_unsafe", v, b.data(), write_pointer_unsafe(b.data() + 8, (const void*)v), want, 2);
    r.reset(at);
    Snap before; before.take(*r.d);
    if (at + 30 > LogData::LOG_SIZE) want = "";
    r.s() << (const void*)v;
    if (v) for (size_t k = 2; k < want.size(); k++) r.d->content_[at + k] = (char)toupper(r.d->content_[at + k]);
    appended(r, before, at, want, "<< pointer");
    want = at + 30 > LogData::LOG_SIZE ? "" : "null";
    r.reset(at); before.take(*r.d);
    r.s() << nullptr;
    appended(r, before, at, want, "<< nullptr");
    N += 2;
}
int main(int c, char** a)
{
    rng.seed(atoi(a[1]));
    Rec r;
    for (int i = 3; i < c; i++) all(r, strtoull(a[i], 0, 10), 0);
    for (unsigned long long v = 0; v < 600; v++) all(r, v, 17), all(r, 0 - v, 17);
    for (int k = 0; k < 64; k++) for (int d = -1; d < 2; d++) all(r, (1ULL << k) + d, 3);
    long n = atol(a[2]);
    for (long i = 0; i < n; i++) all(r, rndv(), rnd(4) ? (int)rnd(LogData::LOG_SIZE - 40) : LogData::LOG_SIZE - 33 + (int)rnd(34));
    printf("held on %ld calls\n", N);
}
