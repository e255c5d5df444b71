#include "h.h"
#include <unistd.h>
#include <signal.h>
// names are not resolved
extern "C" struct hostent* gethostbyname(const char*) { return nullptr; }
static std::string cur;
static void hang(int) { const char m[] = "FAILED: parsing does not end\n"; if (write(1, m, sizeof(m) - 1)) {} _exit(3); }
static bool zero(const void* p, size_t n) { const char* c = (const char*)p; for (size_t i = 0; i < n; i++) if (c[i]) return false; return true; }
static LexState* ls = nullptr;
static int parse(const std::string& t)
{
    cur = t;
    std::string text(t.data(), t.size());
    text.shrink_to_fit();
    InitState(*ls);
    alarm(30);
    int r = ParseLogger(*ls, text);
    alarm(0);
    if (ls->current_ < ls->first_ || ls->current_ > ls->end_ || ls->end_ > text.data() + text.size()) FAIL("position outside of the text: %s", esc(t).c_str());
    return r;
}
static void check(const std::string& t)
{
    int r = parse(t);
    const std::string e = esc(t).substr(0, 1500);
    if (ls->channel_size_ < 0 || ls->channel_size_ > Logger::MAX_CHANNEL_SIZE) FAIL("%d channels: %s", ls->channel_size_, e.c_str());
    if (ls->name_len_ < 0 || ls->name_len_ >= Logger::MAX_LOGGER_NAME_LEN || ls->name_[ls->name_len_]) FAIL("logger name is not terminated (%d): %s", ls->name_len_, e.c_str());
    if (ls->desc_len_ < 0 || ls->desc_len_ >= Logger::MAX_LOGGER_DESC_LEN || ls->desc_[ls->desc_len_]) FAIL("logger description is not terminated (%d): %s", ls->desc_len_, e.c_str());
    for (int c = 0; c < Logger::MAX_CHANNEL_SIZE; c++)
    {
        Channel& ch = ls->channels_[c];
        if (c >= ls->channel_size_) { if (!zero(&ch, sizeof(ch))) FAIL("channel %d behind the last one was written: %s", c, e.c_str()); continue; }
        if (ch.channel_id_ != c) FAIL("channel %d has number %d: %s", c, ch.channel_id_, e.c_str());
        if (ch.channel_state_ != CHANNEL_STATE_NULL) FAIL("state of channel %d: %s", c, e.c_str());
        if (ch.device_size_ < 0 || ch.device_size_ > Channel::MAX_DEVICE_SIZE) FAIL("%d devices: %s", ch.device_size_, e.c_str());
        if (ch.virtual_device_id_ < 0 || ch.virtual_device_id_ >= Channel::MAX_DEVICE_SIZE) FAIL("virtual device %d: %s", ch.virtual_device_id_, e.c_str());
        if (ch.config_fields_[CHANNEL_CFG_PRIORITY] < 0 || ch.config_fields_[CHANNEL_CFG_PRIORITY] >= PRIORITY_MAX) FAIL("priority of channel %d: %s", c, e.c_str());
        for (int d = 0; d < Channel::MAX_DEVICE_SIZE; d++)
        {
            Device& dv = ch.devices_[d];
            if (d >= ch.device_size_) { if (!zero(&dv, sizeof(dv))) FAIL("device %d behind the last one was written: %s", d, e.c_str()); continue; }
            if (dv.device_id_ != d) FAIL("device %d has number %d: %s", d, dv.device_id_, e.c_str());
            if (!memchr(dv.out_file_, 0, sizeof(dv.out_file_))) FAIL("file name of device %d is not terminated: %s", d, e.c_str());
            if (!memchr(dv.out_path_, 0, sizeof(dv.out_path_))) FAIL("path of device %d is not terminated: %s", d, e.c_str());
            if (dv.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] < 0) FAIL("size limit of device %d: %s", d, e.c_str());
            if (r == 0 && dv.out_type_ != DEVICE_OUT_NULL && (dv.out_type_ < 0 || dv.out_type_ > DEVICE_OUT_EMPTY)) FAIL("kind of device %d: %s", d, e.c_str());
        }
    }
}
static std::string chars(size_t n) { static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789_./$-"; std::string s; for (size_t i = 0; i < n; i++) s += al[rnd(sizeof(al) - 1)]; return s; }
static const char* KEYS[] = { "shm_key", "channel", "define", "var", "device", "sync", "disable", "hot_update", "logger_name", "logger_desc", "priority", "in_type", "out_type", "file", "path", "limit_size", "rollback", "rolldaily", "rollhourly", "stuff_up", "udp_addr", "category", "category_extend", "category_wlist", "category_blist", "category_wmask", "category_bmask", "identify", "identify_extend", "identify_wlist", "identify_blist", "identify_wmask", "identify_bmask" };
static const char* WORDS[] = { "0", "1", "2", "19", "20", "21", "-1", "99999999999999999999", "0x7f", "true", "false", "trace", "debug", "fatal", "file", "udp", "screen", "virtual", "null", "empty", "sync", "async", "ring", "1,2,3", "3-9,40-70", "1-", "-,5", "63-64", "9999999999-1", "0-9999999999999", "127.0.0.1:8080", "1.2.3.4", "localhost:90", ":80", "a:b, c : d", "AAA: BB", "key=val", "key =v , kk= w", "name = x", "[a:b,cc:d]", "{x=y}", "\"q\"", "\"open", "[open", "{open", "]", "}", "" };
static std::string value() { switch (rnd(8)) { case 0: return chars(rnd(12)); case 1: return chars(rnd(600)); case 2: return std::to_string((long long)rndv()); case 3: return std::string(rnd(9), ' ') + WORDS[rnd(sizeof(WORDS) / sizeof(*WORDS))]; default: return WORDS[rnd(sizeof(WORDS) / sizeof(*WORDS))]; } }
static std::string line(int level)
{
    std::string s(level, ' ');
    if (rnd(3) == 0) s += "- ";
    s += KEYS[rnd(sizeof(KEYS) / sizeof(*KEYS))];
    s += std::string(rnd(8) ? 0 : rnd(3), ' ');
    if (rnd(30)) s += ":";
    s += std::string(rnd(3), rnd(9) ? ' ' : '\t');
    s += value();
    switch (rnd(12)) { case 0: s += " # c"; break; case 1: s += "#"; break; case 2: s += "  "; break; }
    return s + (rnd(10) ? "\n" : rnd(2) ? "\r\n" : "\r");
}
static std::string soup()
{
    std::string s;
    if (rnd(20) == 0) s += "\xEF\xBB\xBF";
    for (int k = rnd(8); k; k--)
        switch (rnd(8)) { case 0: s += " - define: " + value() + "\n"; break; case 1: s += "- var: " + value() + "\n"; break; case 2: s += "logger_name: " + chars(rnd(300)) + "\n"; break; case 3: s += "logger_desc: " + chars(rnd(300)) + "\n"; break; default: s += line(0); }
    int C = rnd(Logger::MAX_CHANNEL_SIZE + 2);
    for (int c = 0; c < C; c++)
    {
        s += " - channel: " + std::to_string(rnd(15) ? c : (int)rnd(40)) + "\n";
        for (int k = rnd(6); k; k--) s += line(4);
        int D = rnd(4) ? rnd(4) : rnd(Channel::MAX_DEVICE_SIZE + 3);
        for (int d = 0; d < D; d++)
        {
            s += "    -device: " + std::to_string(rnd(25) ? d : (int)rnd(40)) + "\n";
            for (int k = rnd(5); k; k--) s += line(8);
        }
    }
    return s;
}
// settings other than the one that is too long stay as they are
static void neighbours(size_t len)
{
    static const char* what[] = { "path", "file", "logger_name", "logger_desc" };
    int w = rnd(4);
    std::string v = chars(len), extra = std::string(what[w]) + ": " + v + "\n";
    if (len) extra = std::string(what[w]) + ": a" + v.substr(1) + "\n";
    Device* keep = (Device*)malloc(sizeof(Device));
    char lname[Logger::MAX_LOGGER_NAME_LEN], ldesc[Logger::MAX_LOGGER_DESC_LEN];
    for (int with = 0; with < 2; with++)
    {
        std::string t = "logger_name: nn\nlogger_desc: dd\n";
        if (with && w > 1) t += extra;
        t += "shm_key: 0x77\n- channel: 0\n    priority: info\n    - device: 0\n        disable: false\n        out_type: file\n        file: ff\n        path: pp\n        priority: warn\n        category: 5\n        limit_size: 3\n        rollback: 2\n";
        if (with && w < 2) t += "        " + extra;
        t += "        udp_addr: 1.2.3.4:5\n    - device: 1\n        out_type: screen\n        priority: error\n";
        int r = parse(t);
        if (r) FAIL("a correct configuration is refused (%d): %s", r, esc(t).substr(0, 900).c_str());
        Channel& ch = ls->channels_[0];
        Device& d = ch.devices_[0];
        if (ch.device_size_ != 2 || ch.devices_[1].device_id_ != 1 || ch.devices_[1].out_type_ != DEVICE_OUT_SCREEN || ch.devices_[1].config_fields_[DEVICE_CFG_PRIORITY] != PRIORITY_ERROR || ls->shm_key_ != 0x77) FAIL("settings beside a %s of %d characters changed", what[w], (int)len);
        if (!with) { memcpy((void*)keep, (void*)&d, sizeof(Device)); memcpy(lname, ls->name_, sizeof(lname)); memcpy(ldesc, ls->desc_, sizeof(ldesc)); continue; }
        std::string p = std::string(d.out_path_, strnlen(d.out_path_, sizeof(d.out_path_))), f = std::string(d.out_file_, strnlen(d.out_file_, sizeof(d.out_file_)));
        if (p.size() >= sizeof(d.out_path_) || f.size() >= sizeof(d.out_file_)) FAIL("a %s of %d characters is not terminated", what[w], (int)len);
        std::string want = len ? "a" + v.substr(1) : std::string();
        std::string got = w == 0 ? p : w == 1 ? f : w == 2 ? std::string(ls->name_, ls->name_len_) : std::string(ls->desc_, ls->desc_len_);
        if (want.compare(0, got.size(), got) != 0 && !(w == 0 && p == "pp") && !(w == 1 && f == "ff")) FAIL("a %s of %d characters became \"%s\"", what[w], (int)len, esc(got).c_str());
        if (w == 0) memcpy(d.out_path_, keep->out_path_, sizeof(d.out_path_));
        if (w == 1) memcpy(d.out_file_, keep->out_file_, sizeof(d.out_file_));
        if (memcmp((void*)keep, (void*)&d, sizeof(Device))) FAIL("a %s of %d characters changed another setting", what[w], (int)len);
        if (w != 2 && strcmp(ls->name_, lname)) FAIL("a %s of %d characters changed the logger name", what[w], (int)len);
        if (w != 3 && strcmp(ls->desc_, ldesc)) FAIL("a %s of %d characters changed the logger description", what[w], (int)len);
    }
    free(keep);
}
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    signal(SIGALRM, hang);
    ls = (LexState*)malloc(sizeof(LexState));
    for (size_t len = 0; len < 600 && n > 100; len++) for (int k = 0; k < 4; k++) neighbours(len);
    for (int c = 0; c < Logger::MAX_CHANNEL_SIZE + 3; c++)
        for (int d = 0; d < Channel::MAX_DEVICE_SIZE + 4; d++)
        {
            std::string t;
            for (int i = 0; i < c; i++) { t += "- channel: " + std::to_string(i) + "\n"; for (int k = 0; k < d; k++) t += "   - device: " + std::to_string(k) + "\n       out_type: screen\n"; }
            check(t);
            if (c > Logger::MAX_CHANNEL_SIZE && ls->channel_size_ > Logger::MAX_CHANNEL_SIZE) FAIL("too many channels");
        }
    for (long i = 0; i < n; i++)
    {
        std::string t = soup();
        check(t);
        for (int k = 0; k < 4; k++)
        {
            std::string m = t;
            for (int q = 1 + rnd(4); q && !m.empty(); q--)
                switch (rnd(6))
                {
                case 0: m.erase(rnd(m.size())); break;
                case 1: m[rnd(m.size())] = (char)rnd(256); break;
                case 2: m.insert(rnd(m.size()), 1, "\n\r#\"[]{}:-, \t$=\0"[rnd(16)]); break;
                case 3: m.erase(rnd(m.size()), rnd(20)); break;
                case 4: { size_t a = rnd(m.size()); m.insert(rnd(m.size()), m.substr(a, rnd(80))); break; }
                default: m = m.substr(rnd(m.size())); break;
                }
            check(m);
        }
        std::string z;
        for (int k = rnd(40); k; k--) z += (char)(rnd(3) ? "\n :-#\"[{abcdefgpr$=,"[rnd(19)] : rnd(256));
        check(z);
    }
    printf("ok %ld\n", n);
    return 0;
}
