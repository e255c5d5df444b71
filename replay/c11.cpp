#include "h.h"
#include <arpa/inet.h>
extern "C" struct hostent* gethostbyname(const char*) { return nullptr; }
typedef unsigned long long u64;
static std::string sp(int m) { return std::string(rnd(m), ' '); }
static std::string chars(size_t n, const char* al = "abcxyz0189_./$-ABZ") { size_t L = strlen(al); std::string s; for (size_t i = 0; i < n; i++) s += al[rnd(L)]; return s; }
// a list of bits and the bits it denotes
static std::string bitlist(u64& bits)
{
    std::string s;
    bits = 0;
    auto num = [&]() -> u64 { switch (rnd(8)) { case 0: return 63; case 1: return 64; case 2: return 62; case 3: return rndv() >> 1; case 4: return 0; default: return rnd(70); } };
    int k = rnd(6);
    for (int i = 0; i < k; i++)
    {
        u64 a = num(), b = num();
        if (i) s += "," + sp(2);
        if (rnd(2)) { s += std::to_string(a); b = a; }
        else s += std::to_string(a) + sp(2) + "-" + sp(2) + std::to_string(b);
        s += sp(2);
        for (u64 x = 0; x < 64; x++) if ((a <= x && x <= b) || (b <= x && x <= a)) bits |= 1ULL << x;
    }
    if (k && rnd(6) == 0) s += "-";
    if (rnd(6) == 0) s = ", " + s + ",;";
    return s;
}
// the text inside of a larger text
struct In { std::string all; const char *b, *e; In(const std::string& t) { std::string pre = chars(rnd(4), "0123 -,tf."), suf = rnd(2) ? "" : chars(rnd(4), "\n #,\r"); all = pre + t + suf; b = all.data() + pre.size(); e = b + t.size(); } };
static void scalars()
{
    u64 bits; std::string t = bitlist(bits);
    { In x(t); u64 r = ParseBitArray(x.b, x.e); if (r != bits) FAIL("bit list \"%s\" gives %llx, not %llx", t.c_str(), r, bits); }
    int o[4]; for (int& v : o) v = rnd(3) ? rnd(256) : (rnd(2) ? 255 : 0);
    std::string ip = std::to_string(o[0]) + "." + std::to_string(o[1]) + "." + std::to_string(o[2]) + "." + std::to_string(o[3]);
    int port = rnd(4) ? 1 + rnd(65535) : rnd(2) ? 65535 : 1;
    { std::string v = sp(3) + ip + (rnd(3) ? ":" : " : ") + std::to_string(port); In x(v); long long i = 9, p = 9; ParseAddres(x.b, x.e, rnd(2), i, p);
      unsigned char w[4] = { (unsigned char)o[0], (unsigned char)o[1], (unsigned char)o[2], (unsigned char)o[3] }; unsigned wi; memcpy(&wi, w, 4);
      if (i != (long long)wi || p != (long long)htons((unsigned short)port)) FAIL("address \"%s\" gives %llx %llx", v.c_str(), i, p); }
    { std::string v = ip + sp(3); In x(v); long long i = 9, p = 9; ParseAddres(x.b, x.e, false, i, p); if (i || p) FAIL("an address without a port gives %llx %llx", i, p); }
    { long long n = (long long)rndv(); char buf[64]; int f = rnd(3); if (f == 1) n &= 0x7fffffffffffffffLL; if (f == 2) n &= 0x7fffffffffffffffLL; snprintf(buf, 64, f == 0 ? "%lld" : f == 1 ? "0x%llx" : "%lld", n); In x(buf); if (rnd(2)) { x.all = std::string(buf); x.b = x.all.data(); x.e = x.b + x.all.size(); } long long r = ParseNumber(x.b, x.e); if (r != n) FAIL("number %s gives %lld", buf, r); }
    { std::string v = chars(rnd(70)); In x(v); char buf[80]; memset(buf, '\x7e', 80); int room = 1 + rnd(70), len = -1; bool r = ParseString(x.b, x.e, buf, room, len);
      int k = (int)v.size() < room - 1 ? (int)v.size() : room - 1; if (r != !v.empty() || len != k || memcmp(buf, v.data(), k) || (r && buf[k]) || buf[room] != '\x7e') FAIL("string \"%s\" in %d bytes: %d %d", v.c_str(), room, r, len); }
    struct { const char* w; int p; } P[] = { {"trace", PRIORITY_TRACE}, {"debug", PRIORITY_DEBUG}, {"info", PRIORITY_INFO}, {"warn", PRIORITY_WARN}, {"error", PRIORITY_ERROR}, {"alarm", PRIORITY_ALARM}, {"fatal", PRIORITY_FATAL}, {"TRACE", PRIORITY_TRACE}, {"DEBUG", PRIORITY_DEBUG}, {"INFO", PRIORITY_INFO}, {"WARN", PRIORITY_WARN}, {"ERROR", PRIORITY_ERROR}, {"ALARM", PRIORITY_ALARM}, {"FATAL", PRIORITY_FATAL}, {"", PRIORITY_TRACE}, {"zzz", PRIORITY_TRACE} };
    for (auto& q : P) { In x(q.w); if (ParsePriority(x.b, x.e) != q.p) FAIL("priority %s", q.w); }
    struct { const char* w; bool p; } B[] = { {"true", true}, {"false", false}, {"1", true}, {"0", false}, {"True", true}, {"False", false}, {"", false} };
    for (auto& q : B) { In x(q.w); if (ParseBool(x.b, x.e) != q.p) FAIL("boolean %s", q.w); }
    struct { const char* w; int p; } O[] = { {"file", DEVICE_OUT_FILE}, {"udp", DEVICE_OUT_UDP}, {"screen", DEVICE_OUT_SCREEN}, {"virtual", DEVICE_OUT_VIRTUAL}, {"empty", DEVICE_OUT_EMPTY}, {"null", DEVICE_OUT_NULL}, {"", DEVICE_OUT_NULL}, {"qqq", DEVICE_OUT_NULL} };
    for (auto& q : O) { In x(q.w); if (ParseOutType(x.b, x.e) != q.p) FAIL("output kind %s", q.w); }
    { In x("sync"), y("async"); if (ParseChannelType(x.b, x.e) != CHANNEL_SYNC || ParseChannelType(y.b, y.e) != CHANNEL_ASYNC) FAIL("channel kind"); }
    { In x("udp"), y("null"); if (ParseInType(x.b, x.e) != DEVICE_IN_UDP || ParseInType(y.b, y.e) != DEVICE_IN_NULL) FAIL("input kind"); }
}
static const char* NL = "\n";
// a setting with its value written in one of the ways the language has
static std::string setting(int level, const std::string& key, const std::string& val, bool dash = false)
{
    std::string s = std::string(level, ' ');
    if (dash) s += std::string("-") + sp(2);
    s += key + sp(2) + ":" + sp(3);
    static const char* Q[] = { "\"\"", "[]", "{}" };
    bool plain = val.empty() || val.find_first_of("\"[{") != std::string::npos;
    if (val.find_first_of("]}\"") == std::string::npos && !plain && rnd(3) == 0) { const char* q = Q[rnd(3)]; s += std::string(1, q[0]) + sp(2) + val + sp(2) + q[1]; if (rnd(4) == 0) s += " tail"; }
    else s += val;
    s += std::string(rnd(3), rnd(2) ? ' ' : '\t');
    if (rnd(5) == 0) s += " # comment: \"x";
    s += NL;
    if (rnd(9) == 0) s += std::string(rnd(5), ' ') + "# only a comment" + NL;
    if (rnd(9) == 0) s += sp(4) + NL;
    return s;
}
static std::string I(long long v) { return std::to_string(v); }
static const char* PR[] = { "trace", "debug", "info", "warn", "error", "alarm", "fatal" };
static const char* KINDS[] = { "file", "udp", "screen", "virtual", "empty" };
static const int KINDV[] = { DEVICE_OUT_FILE, DEVICE_OUT_UDP, DEVICE_OUT_SCREEN, DEVICE_OUT_VIRTUAL, DEVICE_OUT_EMPTY };
template<class A> static std::string filter(int level, int k, A& cfg, bool wide, int cat, int ext, int mask, const char* name)
{
    u64 bits; std::string v; long long x = (long long)rndv(); if (!wide) x = (int)x;
    std::string n = name;
    switch (k)
    {
    case 0: cfg[cat] = x; return setting(level, n, I(x));
    case 1: cfg[ext] = x; return setting(level, n + "_extend", I(x));
    case 2: v = bitlist(bits); if (v.empty()) { v = "7"; bits = 128; } cfg[mask] = (long long)bits; return setting(level, n + "_wlist", v);
    case 3: v = bitlist(bits); if (v.empty()) { v = "7"; bits = 128; } cfg[mask] = (long long)~bits; return setting(level, n + "_blist", v);
    case 4: x = (long long)rndv(); cfg[mask] = x; return setting(level, n + "_wmask", I(x));
    default: x = (long long)rndv(); cfg[mask] = ~x; return setting(level, n + "_bmask", I(x));
    }
}
static LexState *ls, *want;
static void config()
{
    static const char* NLS[] = { "\n", "\r\n", "\r" };
    NL = NLS[rnd(4) ? 0 : rnd(3)];
    std::string t;
    InitState(*want);
    std::string lname, ldesc;
    auto globals = [&]() {
        for (int k = rnd(5); k; k--)
            switch (rnd(4))
            {
            case 0: { bool b = rnd(2); want->hot_update_ = b; t += setting(0, "hot_update", b ? "true" : "false", rnd(2)); break; }
            case 1: { long long v = (long long)(rndv() >> 1); char buf[40]; snprintf(buf, 40, rnd(2) ? "0x%llx" : "%lld", v); want->shm_key_ = v; t += setting(0, "shm_key", buf, rnd(2)); break; }
            case 2: lname = "n" + chars(rnd(Logger::MAX_LOGGER_NAME_LEN + 9), "abc xyz_.,-") + "e"; t += setting(0, "logger_name", lname, rnd(2)); break;
            default: ldesc = "d" + chars(rnd(Logger::MAX_LOGGER_DESC_LEN + 9), "abc xyz_.,-") + "e"; t += setting(0, "logger_desc", ldesc, rnd(2));
            } };
    if (rnd(9) == 0) t += "\xEF\xBB\xBF";
    globals();
    int C = 1 + rnd(Logger::MAX_CHANNEL_SIZE);
    want->channel_size_ = C;
    for (int c = 0; c < C; c++)
    {
        Channel& ch = want->channels_[c];
        ch.channel_id_ = c;
        t += setting(1, "channel", I(c), rnd(2));
        auto own = [&]() {
            for (int k = rnd(5); k; k--)
                switch (rnd(4))
                {
                case 0: { bool y = rnd(2); ch.channel_type_ = y ? CHANNEL_SYNC : CHANNEL_ASYNC; t += setting(4, "sync", y ? "sync" : "async"); break; }
                case 1: { int p = rnd(7); ch.config_fields_[CHANNEL_CFG_PRIORITY] = PRIORITY_TRACE + p; t += setting(4, "priority", PR[p]); break; }
                case 2: t += filter(4, rnd(6), ch.config_fields_, false, CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, "category"); break;
                default: t += filter(4, rnd(6), ch.config_fields_, false, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK, "identify"); break;
                } };
        own();
        int D = rnd(6) ? rnd(4) : rnd(Channel::MAX_DEVICE_SIZE + 1);
        for (int d = 0; d < D; d++)
        {
            Device& dv = ch.devices_[d];
            dv.device_id_ = d;
            ch.device_size_ = d + 1;
            t += setting(5, "device", I(d), rnd(2));
            for (int k = rnd(9); k; k--)
                switch (rnd(13))
                {
                case 0: { bool b = rnd(2); dv.config_fields_[DEVICE_CFG_ABLE] = !b; t += setting(9, "disable", b ? "true" : "false"); break; }
                case 1: { int p = rnd(7); dv.config_fields_[DEVICE_CFG_PRIORITY] = PRIORITY_TRACE + p; t += setting(9, "priority", PR[p]); break; }
                case 2: t += filter(9, rnd(6), dv.config_fields_, true, DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, "category"); break;
                case 3: t += filter(9, rnd(6), dv.config_fields_, true, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK, "identify"); break;
                case 4: { int p = rnd(5); dv.out_type_ = (decltype(dv.out_type_))KINDV[p]; t += setting(9, "out_type", KINDS[p]); break; }
                case 5: { bool u = rnd(2); dv.in_type_ = u ? DEVICE_IN_UDP : DEVICE_IN_NULL; t += setting(9, "in_type", u ? "udp" : "null"); break; }
                case 6: { long long m = rnd(3) ? (long long)rnd(100000) : (long long)rndv(); dv.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = m < 0 ? 0 : (m > 9223372036854LL ? 9223372036854LL : m) * 1000000; t += setting(9, "limit_size", I(m)); break; }
                case 7: { long long m = (long long)rndv(); dv.config_fields_[DEVICE_CFG_FILE_ROLLBACK] = m; t += setting(9, "rollback", I(m)); break; }
                case 8: { bool b = rnd(2); dv.config_fields_[DEVICE_CFG_FILE_ROLLDAILY] = b; t += setting(9, "rolldaily", b ? "true" : "false"); break; }
                case 9: { bool b = rnd(2); dv.config_fields_[DEVICE_CFG_FILE_ROLLHOURLY] = b; t += setting(9, "rollhourly", b ? "true" : "false"); break; }
                case 10: { bool b = rnd(2); dv.config_fields_[DEVICE_CFG_FILE_STUFF_UP] = b; t += setting(9, "stuff_up", b ? "true" : "false"); break; }
                case 11: { bool f = rnd(2); std::string v = "f" + chars(rnd((f ? (int)Device::MAX_LOGGER_NAME_LEN : (int)Device::MAX_PATH_LEN) - 4)) + "e"; char* to = f ? dv.out_file_ : dv.out_path_; memset(to, 0, f ? sizeof(dv.out_file_) : sizeof(dv.out_path_)); memcpy(to, v.data(), v.size()); t += setting(9, f ? "file" : "path", v); break; }
                default: { int a = rnd(256), b = rnd(256), p = 1 + rnd(65535); unsigned char w[4] = { (unsigned char)a, 0, (unsigned char)b, 9 }; unsigned wi; memcpy(&wi, w, 4); dv.config_fields_[DEVICE_CFG_UDP_IP] = wi; dv.config_fields_[DEVICE_CFG_UDP_PORT] = htons((unsigned short)p); t += setting(9, "udp_addr", I(a) + ".0." + I(b) + ".9:" + I(p)); }
                }
            if (dv.out_type_ == DEVICE_OUT_VIRTUAL) ch.virtual_device_id_ = d;
            if (rnd(7) == 0) own();     // does not fit the indentation of a device: settings of the channel
        }
        if (rnd(7) == 0 && c + 1 == C) globals();
    }
    std::string text = t;
    int r = ParseLogger(*ls, text);
    std::string e = esc(t);
    if (e.size() > 3000) e = e.substr(0, 3000) + "...";
    if (r != PEC_NONE) FAIL("a correct configuration is refused (%d, line %d): %s", r, ls->line_no_, e.c_str());
    if (ls->channel_size_ != C || ls->hot_update_ != want->hot_update_ || ls->shm_key_ != want->shm_key_) FAIL("global settings: channels %d/%d hot update %d/%d key %llx/%llx: %s", ls->channel_size_, C, ls->hot_update_, want->hot_update_, ls->shm_key_, want->shm_key_, e.c_str());
    lname = lname.substr(0, Logger::MAX_LOGGER_NAME_LEN - 1), ldesc = ldesc.substr(0, Logger::MAX_LOGGER_DESC_LEN - 1);
    if (std::string(ls->name_, ls->name_len_) != lname || std::string(ls->desc_, ls->desc_len_) != ldesc) FAIL("logger name or description \"%s\"/\"%s\": %s", std::string(ls->name_, ls->name_len_).c_str(), lname.c_str(), e.c_str());
    for (int c = 0; c < Logger::MAX_CHANNEL_SIZE; c++)
    {
        Channel &a = ls->channels_[c], &b = want->channels_[c];
        if (a.channel_id_ != b.channel_id_ || a.channel_type_ != b.channel_type_ || a.device_size_ != b.device_size_ || a.virtual_device_id_ != b.virtual_device_id_) FAIL("channel %d: kind %d/%d devices %d/%d virtual %d/%d: %s", c, a.channel_type_, b.channel_type_, a.device_size_, b.device_size_, a.virtual_device_id_, b.virtual_device_id_, e.c_str());
        for (int i = 0; i < CHANNEL_CFG_MAX_ID; i++) if ((long long)a.config_fields_[i] != (long long)b.config_fields_[i]) FAIL("channel %d setting %d is %lld, not %lld: %s", c, i, (long long)a.config_fields_[i], (long long)b.config_fields_[i], e.c_str());
        for (int d = 0; d < Channel::MAX_DEVICE_SIZE; d++)
        {
            Device &x = a.devices_[d], &y = b.devices_[d];
            if (x.device_id_ != y.device_id_ || x.out_type_ != y.out_type_ || x.in_type_ != y.in_type_ || strcmp(x.out_file_, y.out_file_) || strcmp(x.out_path_, y.out_path_)) FAIL("device %d.%d: id %d/%d kind %d/%d input %d/%d file %s/%s path %s/%s: %s", c, d, x.device_id_, y.device_id_, x.out_type_, y.out_type_, x.in_type_, y.in_type_, x.out_file_, y.out_file_, x.out_path_, y.out_path_, e.c_str());
            for (int i = 0; i < DEVICE_CFG_MAX_ID; i++) if ((long long)x.config_fields_[i] != (long long)y.config_fields_[i]) FAIL("device %d.%d setting %d is %lld, not %lld: %s", c, d, i, (long long)x.config_fields_[i], (long long)y.config_fields_[i], e.c_str());
        }
    }
}
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    ls = (LexState*)malloc(sizeof(LexState)), want = (LexState*)malloc(sizeof(LexState));
    InitState(*ls);
    // unknown words are refused
    for (const char* k : { "zzz", "bogus", "xpath", "q", "k1", "Category" })
    {
        std::string t = std::string("- channel: 0\n    priority: info\n    ") + k + ": 3\n";
        if (ParseLogger(*ls, t) == PEC_NONE) FAIL("the unknown word %s is accepted", k);
    }
    { std::string t = "- channel: 0\n    - device: 0\n        out_type: bogus\n"; if (ParseLogger(*ls, t) == PEC_NONE) FAIL("an unknown output kind is accepted"); }
    for (long i = 0; i < n; i++) { scalars(); config(); }
    printf("ok %ld\n", n);
    return 0;
}
