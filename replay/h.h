// concrete replay / bounded search on the real code (ASan + UBSan); exit 3 = property violated
#pragma once
#include "fn_log.h"
#include <string>
#include <vector>
#include <random>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <map>
#include <algorithm>
using namespace FNLog;
static std::mt19937_64 rng(1);
static unsigned long long rnd() { return rng(); }
static unsigned long long rnd(unsigned long long n) { return n ? rng() % n : 0; }
// values of every magnitude, with boundaries
static unsigned long long rndv()
{
    unsigned long long b = rnd(65);
    unsigned long long v = b == 64 ? rnd() : (rnd() & ((1ULL << b) - 1));
    switch (rnd(6)) { case 0: v = b < 64 ? 1ULL << b : 0; break; case 1: v = b < 64 ? (1ULL << b) - 1 : ~0ULL; break;
    case 2: { v = 1; for (unsigned long long k = rnd(20); k; k--) v *= 10; v -= rnd(2); break; } case 3: v = 0 - v; break; default: break; }
    return v;
}
#define FAIL(...) do { printf("FAILED: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(3); } while (0)
static std::string dec(unsigned long long u, bool neg, int width)
{
    std::string s;
    do { s.insert(s.begin(), char('0' + u % 10)); u /= 10; } while (u);
    int w = width - (neg ? 1 : 0);
    while ((int)s.size() < w) s.insert(s.begin(), '0');
    return (neg ? "-" : "") + s;
}
static std::string dec_s(long long v, int width) { return dec(v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v, v < 0, width); }
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; } return r; }
// a log stream attached to a free-standing record, without a logger
struct Rec {
    LogData* d; 
    alignas(LogStream) unsigned char mem[sizeof(LogStream)];
    LogStream& s() { return *(LogStream*)mem; }
    Rec() { d = (LogData*)malloc(sizeof(LogData)); memset((void*)d, 0x5a, sizeof(LogData)); memset(mem, 0, sizeof(mem)); d->content_len_ = 0; d->prefix_len_ = 0; s().log_data_ = d; s().hold_idx_ = 0; s().logger_ = nullptr; }
    void reset(int len) { d->content_len_ = len; memset(d->content_, '\x01', LogData::LOG_SIZE); }
    ~Rec() { free(d); }
};
struct Snap { alignas(LogData) unsigned char m[sizeof(LogData)]; LogData& d() { return *(LogData*)m; } void take(const LogData& x) { memcpy(m, (const void*)&x, sizeof(LogData)); } };
// checks that exactly `want` was appended at `at` and nothing else of the record changed
static void appended(Rec& r, const Snap& before, int at, const std::string& want, const char* what)
{
    if (r.d->content_len_ != at + (int)want.size()) FAIL("%s: length grew by %d, expected %d (\"%s\")", what, r.d->content_len_ - at, (int)want.size(), esc(want).c_str());
    Snap exp = before;
    exp.d().content_len_ = at + (int)want.size();
    memcpy(exp.d().content_ + at, want.data(), want.size());
    if (memcmp((void*)exp.m, (void*)r.d, sizeof(LogData)) != 0)
    {
        std::string got(r.d->content_ + at, want.size());
        FAIL("%s: record differs; text \"%s\", expected \"%s\"", what, esc(got).c_str(), esc(want).c_str());
    }
}
