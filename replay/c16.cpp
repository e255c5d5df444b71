#include "h.h"
static Logger* L;
static SHMLogger* S;
static int pick(int n) { switch (rnd(6)) { case 0: return -1; case 1: return n; case 2: return n + (int)rnd(40); case 3: return (int)rndv(); default: return n > 0 ? (int)rnd(n) : 0; } }
static bool inr(int c, int d, bool dev) { return c >= 0 && c < S->channel_size_ && (!dev || (d >= 0 && d < S->channels_[c].device_size_)); }
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    size_t CH = sizeof(S->channels_);
    L = new Logger();
    {   // a logger that was never loaded
        for (int i = -1; i < 3; i++) { if (GetChannelLog(*L, i, CHANNEL_LOG_PUSH) || GetDeviceLog(*L, i, 0, DEVICE_LOG_TOTAL_WRITE_LINE) || GetDeviceConfig(*L, i, 0, DEVICE_CFG_ABLE)) FAIL("a logger without storage reports a value");
            SetChannelConfig(*L, i, CHANNEL_CFG_PRIORITY, 1); SetDeviceConfig(*L, i, 0, DEVICE_CFG_ABLE, 1); }
        BatchSetChannelConfig(*L, CHANNEL_CFG_PRIORITY, 1); BatchSetDeviceConfig(*L, DEVICE_OUT_NULL, DEVICE_CFG_ABLE, 1);
    }
    S = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    L->shm_ = S;
    std::vector<unsigned char> before(CH);
    for (long it = 0; it < n / 20; it++)
    {
        if (it % 50 == 0)
        {
            for (auto& c : S->channels_)
            {
                for (auto& x : c.config_fields_) x = (long long)rndv();
                for (auto& x : c.channel_log_fields_) x = (long long)rndv();
                for (auto& dl : c.device_log_fields_) for (auto& x : dl) x = (long long)rndv();
                for (auto& d : c.devices_) { for (auto& x : d.config_fields_) x = (long long)rndv(); d.out_type_ = rnd(6); }
                c.device_size_ = rnd(4) ? rnd(Channel::MAX_DEVICE_SIZE + 1) : Channel::MAX_DEVICE_SIZE;
            }
            S->channel_size_ = rnd(SHMLogger::MAX_CHANNEL_SIZE + 1);
        }
        memcpy(before.data(), (void*)&S->channels_, CH);
        std::vector<unsigned char> exp = before;
        SHMLogger::Channels& E = *(SHMLogger::Channels*)exp.data();
        int c = pick(S->channel_size_), d = pick(c >= 0 && c < S->channel_size_ ? S->channels_[c].device_size_ : 3);
        long long v = (long long)rndv(), got = 0, want = 0;
        int op = rnd(7), f = 0, ot = 0;
        switch (op)
        {
        case 0: f = std::abs(pick(CHANNEL_LOG_MAX_ID) & 0x7fffffff); got = GetChannelLog(*L, c, (ChannelLogEnum)f); if (inr(c, d, false) && f < CHANNEL_LOG_MAX_ID) want = S->channels_[c].channel_log_fields_[f]; break;
        case 1: f = std::abs(pick(DEVICE_LOG_MAX_ID) & 0x7fffffff); got = GetDeviceLog(*L, c, d, (DeviceLogEnum)f); if (inr(c, d, true) && f < DEVICE_LOG_MAX_ID) want = S->channels_[c].device_log_fields_[d][f]; break;
        case 2: f = std::abs(pick(DEVICE_CFG_MAX_ID) & 0x7fffffff); got = GetDeviceConfig(*L, c, d, (DeviceConfigEnum)f); if (inr(c, d, true) && f < DEVICE_CFG_MAX_ID) want = S->channels_[c].devices_[d].config_fields_[f]; break;
        case 3: f = std::abs(pick(CHANNEL_CFG_MAX_ID) & 0x7fffffff); SetChannelConfig(*L, c, (ChannelConfigEnum)f, v); if (inr(c, d, false) && f < CHANNEL_CFG_MAX_ID) E[c].config_fields_[f] = v; break;
        case 4: f = std::abs(pick(DEVICE_CFG_MAX_ID) & 0x7fffffff); SetDeviceConfig(*L, c, d, (DeviceConfigEnum)f, v); if (inr(c, d, true) && f < DEVICE_CFG_MAX_ID) E[c].devices_[d].config_fields_[f] = v; break;
        case 5: f = std::abs(pick(CHANNEL_CFG_MAX_ID) & 0x7fffffff); BatchSetChannelConfig(*L, (ChannelConfigEnum)f, v); if (f < CHANNEL_CFG_MAX_ID) for (int i = 0; i < S->channel_size_; i++) E[i].config_fields_[f] = v; break;
        case 6: f = std::abs(pick(DEVICE_CFG_MAX_ID) & 0x7fffffff); ot = rnd(6); BatchSetDeviceConfig(*L, (DeviceOutType)ot, (DeviceConfigEnum)f, v);
            if (f < DEVICE_CFG_MAX_ID) for (int i = 0; i < S->channel_size_; i++) for (int j = 0; j < S->channels_[i].device_size_; j++) if (ot == DEVICE_OUT_NULL || S->channels_[i].devices_[j].out_type_ == (unsigned)ot) E[i].devices_[j].config_fields_[f] = v; break;
        }
        if (got != want) FAIL("operation %d channel %d device %d field %d returns %lld, stored %lld", op, c, d, f, got, want);
        if (memcmp(exp.data(), (void*)&S->channels_, CH)) { size_t k = 0; while (exp[k] == ((unsigned char*)&S->channels_)[k]) k++; FAIL("operation %d (channel %d of %d, device %d, field %d, output kind %d) leaves a wrong byte at offset %zu of the settings", op, c, (int)S->channel_size_, d, f, ot, k); }
    }
    L->shm_ = nullptr;
    printf("ok %ld operations\n", n / 20);
}
