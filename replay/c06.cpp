#include "h.h"
// independent restatement of the documented filter, in mathematical integers
static bool filt(const long long* f, int P, int C, int CE, int CM, int I, int IE, int IM, int prio, int cat, long long id)
{
    if (prio < f[P]) return false;
    if (f[CE] > 0 && ((__int128)cat < f[C] || (__int128)cat >= (__int128)f[C] + f[CE])) return false;
    if (f[IE] > 0 && ((__int128)id < f[I] || (__int128)id >= (__int128)f[I] + f[IE])) return false;
    if (f[CM] && (cat < 0 || cat > 63 || !((unsigned long long)f[CM] >> cat & 1))) return false;
    if (f[IM] && (id < 0 || id > 63 || !((unsigned long long)f[IM] >> id & 1))) return false;
    return true;
}
static long long val(int k, int prio, long long v)
{
    switch (k)
    {
    case 0: return rnd(3) ? prio - 2 + (long long)rnd(4) : (long long)rnd(9) - 1;                       // priority
    case 1: return rnd(3) ? v - (long long)rnd(4) : (long long)rnd(200) - 100;                          // begin
    case 2: return rnd(2) ? 0 : (long long)rnd(6) - 1;                                                  // count
    default: return rnd(2) ? 0 : (v >= 0 && v < 64 && rnd(2) ? (long long)(1ULL << v) : rnd(2) ? (long long)rnd() : (long long)~(1ULL << (v & 63)));
    }
}
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    SHMLogger* shm = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    Logger& logger = *new Logger();
    logger.shm_ = shm;
    LogData* log = (LogData*)calloc(1, sizeof(LogData));
    for (long it = 0; it < n; it++)
    {
        int nc = 1 + rnd(SHMLogger::MAX_CHANNEL_SIZE);
        int ci = rnd(20) ? (int)rnd(nc) : (int)rnd(3) == 0 ? -1 : nc + (int)rnd(3);
        shm->channel_size_ = nc;
        bool in = ci >= 0 && ci < nc;
        int c = in ? ci : 0;
        Channel& ch = shm->channels_[c];
        ch.channel_id_ = c;
        ch.channel_type_ = rnd(2) ? CHANNEL_SYNC : CHANNEL_ASYNC;
        ch.channel_state_ = (ChannelState)(rnd(8) ? (int)CHANNEL_STATE_RUNNING : (int)rnd(4));
        logger.logger_state_ = rnd(12) ? (int)LOGGER_STATE_RUNNING : (int)rnd(4);
        ch.device_size_ = rnd(4) ? (int)rnd(6) : rnd(10) ? (int)rnd(3) : Channel::MAX_DEVICE_SIZE;
        bool wide = rnd(4) == 0;                      // values outside 0..63 only without masks
        int prio = rnd(PRIORITY_MAX);
        int cat = wide ? (int)rndv() : (int)rnd(64);
        long long id = wide ? (long long)(rndv() >> 2) * (rnd(2) ? 1 : -1) : (long long)rnd(64);
        auto setf = [&](long long* f, int P, int C, int CE, int CM, int I, int IE, int IM) {
            f[P] = rnd(3) ? rnd(prio + 1) : val(0, prio, 0);
            f[C] = val(1, 0, cat); f[CE] = val(2, 0, 0); f[CM] = wide ? 0 : val(3, 0, cat);
            f[I] = val(1, 0, id); f[IE] = val(2, 0, 0); f[IM] = wide ? 0 : val(3, 0, id);
        };
        long long cf[64], df[Channel::MAX_DEVICE_SIZE][64];
        setf(cf, CHANNEL_CFG_PRIORITY, CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK);
        if (rnd(2)) { cf[CHANNEL_CFG_CATEGORY_EXTEND] = cf[CHANNEL_CFG_CATEGORY_MASK] = cf[CHANNEL_CFG_IDENTIFY_EXTEND] = cf[CHANNEL_CFG_IDENTIFY_MASK] = 0; }
        for (int i = CHANNEL_CFG_PRIORITY; i < CHANNEL_CFG_MAX_ID; i++) ch.config_fields_[i] = cf[i];
        std::string cfgtext;
        bool any = false;
        bool want[Channel::MAX_DEVICE_SIZE] = { false };
        for (int d = 0; d < ch.device_size_; d++)
        {
            Device& dv = ch.devices_[d];
            dv.device_id_ = d;
            dv.out_type_ = rnd(4) ? DEVICE_OUT_EMPTY : DEVICE_OUT_NULL;
            dv.in_type_ = rnd(6) ? DEVICE_IN_NULL : DEVICE_IN_UDP;
            setf(df[d], DEVICE_CFG_PRIORITY, DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK);
            df[d][DEVICE_CFG_ABLE] = rnd(4) ? 1 + (long long)rnd(2) : 0;
            dv.config_fields_[DEVICE_CFG_ABLE] = df[d][DEVICE_CFG_ABLE];
            for (int i : { (int)DEVICE_CFG_PRIORITY, (int)DEVICE_CFG_CATEGORY, (int)DEVICE_CFG_CATEGORY_EXTEND, (int)DEVICE_CFG_CATEGORY_MASK, (int)DEVICE_CFG_IDENTIFY, (int)DEVICE_CFG_IDENTIFY_EXTEND, (int)DEVICE_CFG_IDENTIFY_MASK }) dv.config_fields_[i] = df[d][i];
            bool p = df[d][DEVICE_CFG_ABLE] && dv.in_type_ == DEVICE_IN_NULL && filt(df[d], DEVICE_CFG_PRIORITY, DEVICE_CFG_CATEGORY, DEVICE_CFG_CATEGORY_EXTEND, DEVICE_CFG_CATEGORY_MASK, DEVICE_CFG_IDENTIFY, DEVICE_CFG_IDENTIFY_EXTEND, DEVICE_CFG_IDENTIFY_MASK, prio, cat, id);
            any = any || p;
            want[d] = p && dv.out_type_ == DEVICE_OUT_EMPTY;
        }
        bool ok = in && logger.logger_state_ == LOGGER_STATE_RUNNING && ch.channel_state_ == CHANNEL_STATE_RUNNING && any
            && filt(cf, CHANNEL_CFG_PRIORITY, CHANNEL_CFG_CATEGORY, CHANNEL_CFG_CATEGORY_EXTEND, CHANNEL_CFG_CATEGORY_MASK, CHANNEL_CFG_IDENTIFY, CHANNEL_CFG_IDENTIFY_EXTEND, CHANNEL_CFG_IDENTIFY_MASK, prio, cat, id);
        bool got = !BlockInput(logger, ci, prio, cat, id);
        if (got != ok)
            FAIL("channel %d of %d, state %d/%d, priority %d, category %d, identify %lld, %d devices: accepted=%d, documented=%d (channel filter: prio %lld cat %lld+%lld mask %llx id %lld+%lld mask %llx)", ci, nc, (int)logger.logger_state_, (int)ch.channel_state_, prio, cat, id, ch.device_size_, got, ok,
                cf[CHANNEL_CFG_PRIORITY], cf[CHANNEL_CFG_CATEGORY], cf[CHANNEL_CFG_CATEGORY_EXTEND], cf[CHANNEL_CFG_CATEGORY_MASK], cf[CHANNEL_CFG_IDENTIFY], cf[CHANNEL_CFG_IDENTIFY_EXTEND], cf[CHANNEL_CFG_IDENTIFY_MASK]);
        if (in)
        {
            log->channel_id_ = c; log->priority_ = prio; log->category_ = cat; log->identify_ = id; log->content_len_ = 3; strcpy(log->content_, "ab\n");
            long long before[Channel::MAX_DEVICE_SIZE];
            for (int d = 0; d < ch.device_size_; d++) before[d] = AtomicLoadDeviceLog(ch, d, DEVICE_LOG_TOTAL_WRITE_LINE);
            DispatchLog(logger, ch, *log);
            for (int d = 0; d < ch.device_size_; d++)
                if (AtomicLoadDeviceLog(ch, d, DEVICE_LOG_TOTAL_WRITE_LINE) - before[d] != (want[d] ? 1 : 0))
                    FAIL("dispatch of priority %d, category %d, identify %lld: device %d got it %lld times, documented %d (able %lld prio %lld cat %lld+%lld mask %llx id %lld+%lld mask %llx in %d)", prio, cat, id, d, (long long)AtomicLoadDeviceLog(ch, d, DEVICE_LOG_TOTAL_WRITE_LINE) - before[d], want[d],
                        df[d][DEVICE_CFG_ABLE], df[d][DEVICE_CFG_PRIORITY], df[d][DEVICE_CFG_CATEGORY], df[d][DEVICE_CFG_CATEGORY_EXTEND], df[d][DEVICE_CFG_CATEGORY_MASK], df[d][DEVICE_CFG_IDENTIFY], df[d][DEVICE_CFG_IDENTIFY_EXTEND], df[d][DEVICE_CFG_IDENTIFY_MASK], (int)ch.devices_[d].in_type_);
        }
        if (in && ch.channel_state_ != CHANNEL_STATE_RUNNING && HoldChannel(logger, ci, prio, cat, id) >= 0) FAIL("a stopped channel hands out a slot");
    }
    logger.logger_state_ = LOGGER_STATE_UNINIT;
    logger.shm_ = nullptr;
    printf("ok %ld configurations\n", n);
}
