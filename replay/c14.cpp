#include "h.h"
#include <fstream>
#include <sstream>
#include <map>
#include <dlfcn.h>
// every rename/remove may be made to fail
static int fail_at = -1, step = 0;
static std::vector<std::string> trace;
static bool refuse() { return fail_at >= 0 && step++ == fail_at; }
extern "C" int rename(const char* a, const char* b) noexcept
{
    trace.push_back(std::string("rename ") + a + " " + b);
    if (refuse()) { errno = ENOSPC; return -1; }
    return renameat(AT_FDCWD, a, AT_FDCWD, b);
}
extern "C" int remove(const char* a) noexcept
{
    trace.push_back(std::string("remove ") + a);
    if (refuse()) { errno = EACCES; return -1; }
    return unlink(a);
}
static std::string slurp(const std::string& p, bool& ok) { std::ifstream f(p, std::ios::binary); ok = (bool)f; std::stringstream s; s << f.rdbuf(); return s.str(); }
static void put(const std::string& p, const std::string& t) { std::ofstream f(p, std::ios::binary); f << t; }
static std::string nm(const std::string& b, int k) { return k ? b + "." + std::to_string(k) : b; }
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    SHMLogger* shm = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    Logger& logger = *new Logger();
    logger.shm_ = shm;
    shm->channel_size_ = 1;
    LogData* log = (LogData*)calloc(1, sizeof(LogData));
    const char* stems[] = { "f", "a.1", "x_20240101.9", "7", "log.log", "u.12.3" };
    for (long round = 0; round < n; round++)
    {
        std::string dir = "q" + std::to_string(round);
        mkdir(dir.c_str(), 0700);
        std::string base = dir + "/" + stems[rnd(6)] + ".log";
        bool device = rnd(3) == 0;
        int max = 1 + (rnd(3) ? rnd(5) : rnd(14));
        int top = 16;
        std::vector<std::string> f(top + 3);
        int style = rnd(4), chain = rnd(top);
        for (int k = 0; k < top; k++)
            if (style == 0 ? k <= chain : style == 1 ? rnd(2) : style == 2 ? rnd(8) != 0 : k != chain)
                f[k] = "content " + std::to_string(k) + std::string(rnd(40), 'x') + "\n", put(nm(base, k), f[k]);
        // files that are none of its business
        std::map<std::string, std::string> others;
        const char* suffix[] = { ".0", ".01", ".1x", "1", ".1.1", ".bak", "." };
        for (auto s : suffix) if (rnd(2)) { others[base + s] = s; put(base + s, s); }
        put(dir + "/other.log", "o"); others[dir + "/other.log"] = "o";
        fail_at = rnd(3) == 0 ? rnd(8) : -1; step = 0; trace.clear();
        if (device) fail_at = -1;
        std::string text = "a record\n";
        long long conf = max;
        if (device)
        {
            Channel& ch = shm->channels_[0];
            memset((void*)&ch, 0, sizeof(ch));
            ch.device_size_ = 1;
            Device& dv = ch.devices_[0];
            dv.out_type_ = DEVICE_OUT_FILE;
            strcpy(dv.out_path_, dir.c_str());
            strcpy(dv.out_file_, base.substr(dir.size() + 1, base.size() - dir.size() - 5).c_str());
            switch (rnd(6)) { case 0: conf = 0; max = 1; break; case 1: conf = (long long)1 << (31 + rnd(20)); max = 0x7fffffff; break; case 2: conf = 0xffffffffLL + rnd(3); max = 0x7fffffff; break; }
            dv.config_fields_[DEVICE_CFG_FILE_ROLLBACK] = conf;
            dv.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = 1 + rnd(5);
            strcpy(log->content_, text.c_str());
            log->content_len_ = (int)text.size(); log->timestamp_ = 1600000000;
            EnterProcOutFileDevice(logger, 0, 0, *log);
            FileHandler& fh = logger.file_handles_[0];
            if (fh.is_open()) fh.close();
        }
        else FileHandler::rollback(base, 1, max);
        std::string what = "rollback(" + base + ", depth " + std::to_string(device ? conf : (long long)max) + ") with files";
        for (int k = 0; k < top; k++) if (!f[k].empty()) what += " " + std::to_string(k);
        if (fail_at >= 0) what += ", step " + std::to_string(fail_at) + " fails";
        int e = 0; while (e < top && !f[e].empty()) e++;
        bool failed = fail_at >= 0 && step > fail_at;
        if (e > max && max < top) e = max + 1;
        int t = std::min(e, max);
        // expected content
        std::vector<std::string> g = f;
        if (!failed)
        {
            for (int j = t; j >= 1; j--) g[j] = f[j - 1];
            g[0] = device ? text : "";
            for (int k = 0; k < top + 3; k++)
            {
                bool there; std::string got = slurp(nm(base, k), there);
                if (there != !g[k].empty()) FAIL("%s: position %d %s", what.c_str(), k, there ? "exists" : "is missing");
                if (got != g[k]) FAIL("%s: position %d holds \"%s\" instead of \"%s\"", what.c_str(), k, got.c_str(), g[k].c_str());
            }
        }
        else
        {
            // nothing may be lost but what was at the last position
            int last = -1;
            for (int k = 0; k < top; k++)
            {
                if (f[k].empty()) continue;
                int where = -1;
                for (int j = 0; j < top + 3; j++) { bool there; if (slurp(nm(base, j), there) == f[k] && there) where = j; }
                if (where < 0 && k != max) FAIL("%s: the content of position %d is lost", what.c_str(), k);
                if (where >= 0 && (where < k || where > k + 1)) FAIL("%s: the content of position %d is at %d", what.c_str(), k, where);
                if (where >= 0) { if (where <= last) FAIL("%s: the order of the backups changed", what.c_str()); last = where; }
            }
        }
        for (auto& o : others) { bool there; if (slurp(o.first, there) != o.second || !there) FAIL("%s: %s changed", what.c_str(), o.first.c_str()); }
        for (int k = 0; k < top + 3; k++) unlink(nm(base, k).c_str());
        for (auto& o : others) unlink(o.first.c_str());
        rmdir(dir.c_str());
    }
    printf("no violation in %ld rollbacks\n", n);
    return 0;
}
