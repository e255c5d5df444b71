#include "probe.h"
using namespace FNLog;
extern "C" struct tm* vp_type__tm(struct tm* p) { return p + 1; }
VP_OFFG(tm, tm_sec) VP_OFFG(tm, tm_min) VP_OFFG(tm, tm_hour) VP_OFFG(tm, tm_mday) VP_OFFG(tm, tm_mon) VP_OFFG(tm, tm_year)
extern "C" {
#define W_(W) \
int vp_decu_##W(char* d, unsigned long long v) { return write_dec_unsafe<W>(d, v); } \
int vp_decs_##W(char* d, long long v) { return write_dec_unsafe<W>(d, v); } \
int vp_hexu_##W(char* d, unsigned long long v) { return write_hex_unsafe<W>(d, v); } \
int vp_hexs_##W(char* d, long long v) { return write_hex_unsafe<W>(d, v); } \
int vp_binu_##W(char* d, unsigned long long v) { return write_bin_unsafe<W>(d, v); } \
int vp_bins_##W(char* d, long long v) { return write_bin_unsafe<W>(d, v); }
W_(0) W_(1) W_(2) W_(3) W_(4) W_(8) W_(10) W_(16) W_(20)
int vp_ptr(char* d, const void* p) { return write_pointer_unsafe(d, p); }
int vp_prio(char* d, int p) { return write_log_priority_unsafe(d, p); }
int vp_thread(char* d, unsigned t) { return write_log_thread_unsafe(d, t); }
int vp_date(char* d, long long ts, unsigned ms) { return write_date_unsafe(d, ts, ms); }
int vp_dbl(char* d, double x) { return write_double_unsafe(d, x); }
}
