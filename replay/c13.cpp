#include "h.h"
#include <fstream>
#include <sstream>
// reference: what the files must contain, from the documented rolling rules (TZ=UTC)
static std::string slurp(const std::string& p, bool& ok) { std::ifstream f(p, std::ios::binary); ok = (bool)f; std::stringstream s; s << f.rdbuf(); return s.str(); }
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    SHMLogger* shm = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    Logger& logger = *new Logger();
    logger.shm_ = shm;
    shm->channel_size_ = 2;
    LogData* log = (LogData*)calloc(1, sizeof(LogData));
    for (long round = 0; n > 0; round++)
    {
        int c = rnd(2), d = rnd(Channel::MAX_DEVICE_SIZE);
        Channel& ch = shm->channels_[c];
        memset((void*)&ch, 0, sizeof(ch));
        ch.channel_id_ = c; ch.device_size_ = Channel::MAX_DEVICE_SIZE;
        Device& dv = ch.devices_[d];
        dv.device_id_ = d; dv.out_type_ = DEVICE_OUT_FILE;
        char dir[32]; snprintf(dir, 32, "r%ld", round);
        strcpy(dv.out_path_, dir); strcpy(dv.out_file_, "f");
        std::string base = std::string(dir) + "/f.log";
        long long limit = rnd(3) ? 50 + rnd(600) : 0, rb = rnd(3) ? rnd(5) : 0;
        bool daily = rnd(3) == 0, hourly = rnd(2), stuff = rnd(2);
        dv.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = limit; dv.config_fields_[DEVICE_CFG_FILE_ROLLBACK] = rb;
        dv.config_fields_[DEVICE_CFG_FILE_ROLLDAILY] = daily; dv.config_fields_[DEVICE_CFG_FILE_ROLLHOURLY] = hourly; dv.config_fields_[DEVICE_CFG_FILE_STUFF_UP] = stuff;
        FileHandler& fh = logger.file_handles_[c * Channel::MAX_DEVICE_SIZE + d];
        // model
        std::vector<std::string> f; std::vector<bool> ex;       // current file and its backups
        bool open = false; long long day = 0, hour = 0, size = 0, last_try = 0;
        long long ts = 1600000000 + rnd(86400 * 30), lines = 0, bytes = 0;
        bool broken = false;
        int k = 20 + rnd(60);
        for (int i = 0; i < k && n > 0; i++, n--)
        {
            switch (rnd(8)) { case 0: ts += rnd(7); break; case 1: ts += rnd(4000); break; case 2: ts += rnd(90000); break; case 3: ts = ts / 3600 * 3600 + 3600 * rnd(3) - rnd(2); break; case 4: ts = ts / 86400 * 86400 + 86400 * rnd(2) - rnd(2); break; case 5: ts -= rnd(4000); break; default: ts += rnd(2); }
            if (ts < 100000) ts = 100000;
            if (!open && rnd(3) == 0)
            {
                // make the directory unusable, or usable again
                if (!broken) { rename(dir, (std::string(dir) + ".x").c_str()); FILE* x = fopen(dir, "wb"); fclose(x); }
                else { remove(dir); rename((std::string(dir) + ".x").c_str(), dir); }
                broken = !broken;
            }
            int len = 1 + rnd(rnd(20) ? 100 : 900);
            if (limit && rnd(4) == 0 && limit > size && limit - size < 5000) len = (int)(limit - size) + (int)rnd(3) - 1;
            if (len < 1) len = 1;
            if (len > LogData::LOG_SIZE - 2) len = LogData::LOG_SIZE - 2;
            std::string text;
            for (int j = 0; j < len - 1; j++) text += rnd(30) ? char('a' + rnd(26)) : (char)rnd(256);
            text += '\n';
            memcpy(log->content_, text.c_str(), len + 1);
            log->content_len_ = len; log->timestamp_ = ts; log->priority_ = rnd(PRIORITY_MAX);
            // model step
            bool rsize = limit > 0 && rb > 0 && size + len > limit;
            bool out = rsize || (daily ? ts < day || ts >= day + 86400 : hourly && (ts < hour || ts >= hour + 3600));
            bool did = true; bool opening = false;
            if (open && !out) { }
            else if (!open && last_try + 5 > ts) did = false;
            else
            {
                opening = true;
                open = false;
                if ((rb > 0 || limit > 0) && (!stuff || rsize) && !broken && !ex.empty() && ex[0])
                {
                    int depth = rb > 0 ? (int)rb : 1;
                    size_t e = 0; while (e < ex.size() && ex[e]) e++;
                    f.resize(std::max(f.size(), e + 1)); ex.resize(f.size(), false);
                    if ((int)e > depth) e = depth;            // the backup behind the last one is dropped
                    for (size_t j = e; j >= 1; j--) { f[j] = f[j - 1]; ex[j] = true; }
                    ex[0] = false; f[0].clear();
                }
                if (broken) { did = false; last_try = ts; if (out) size = 0; }
                else { if (f.empty()) { f.push_back(""); ex.push_back(false); } if (!ex[0]) f[0].clear(); ex[0] = true; open = true; last_try = 0; size = f[0].size(); day = ts / 86400 * 86400; hour = ts / 3600 * 3600; }
            }
            if (did) { f[0] += text; size += len; lines++; bytes += len; }
            EnterProcOutFileDevice(logger, c, d, *log);
            const char* cfg = "";
            char what[300];
            snprintf(what, 300, "record %d (%d bytes, time %lld), limit %lld rollback %lld daily %d hourly %d stuff_up %d%s%s", i, len, ts, limit, rb, daily, hourly, stuff, broken ? ", directory unusable" : "", cfg);
            if (fh.is_open() != open) FAIL("%s: file is %s", what, fh.is_open() ? "open" : "not open");
            if (fh.file_) fflush(fh.file_);
            if (!broken)
                for (size_t j = 0; j < f.size() + 1; j++)
                {
                    std::string nm = base + (j ? "." + std::to_string(j) : "");
                    bool there; std::string got = slurp(nm, there);
                    bool want = j < ex.size() && ex[j];
                    if (there != want) FAIL("%s: %s %s", what, nm.c_str(), there ? "exists" : "is missing");
                    if (there && got != f[j]) FAIL("%s: %s holds %d bytes, expected %d (size at opening plus what was written since)", what, nm.c_str(), (int)got.size(), (int)f[j].size());
                }
            long long sz = ch.device_log_fields_[d][DEVICE_LOG_CUR_FILE_SIZE];
            if (open && sz != size) FAIL("%s: tracked size %lld, the file holds %lld", what, sz, size);
            if (open && ((long long)ch.device_log_fields_[d][DEVICE_LOG_CUR_FILE_CREATE_DAY] != day || (long long)ch.device_log_fields_[d][DEVICE_LOG_CUR_FILE_CREATE_HOUR] != hour)) FAIL("%s: file belongs to another day or hour", what);
            long long lt = ch.device_log_fields_[d][DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP];
            if (lt != last_try) FAIL("%s: last try %lld, expected %lld", what, lt, last_try);
            if ((long long)ch.device_log_fields_[d][DEVICE_LOG_TOTAL_WRITE_LINE] != lines || (long long)ch.device_log_fields_[d][DEVICE_LOG_TOTAL_WRITE_BYTE] != bytes) FAIL("%s: counted %lld lines", what, (long long)ch.device_log_fields_[d][DEVICE_LOG_TOTAL_WRITE_LINE]);
        }
        if (fh.is_open()) fh.close();
        if (broken) { remove(dir); rename((std::string(dir) + ".x").c_str(), dir); }
        for (int j = 0; j < 8; j++) remove((base + (j ? "." + std::to_string(j) : "")).c_str());
        rmdir(dir);
    }
    printf("no violation in %s records\n", argv[2]);
    return 0;
}
