#include "h.h"
int main(int argc, char** argv)
{
    rng.seed(atoll(argv[1]));
    long n = atol(argv[2]);
    SHMLogger* S = (SHMLogger*)calloc(1, sizeof(SHMLogger));
    Logger* L = new Logger();
    L->shm_ = S;
    const int NC = SHMLogger::MAX_CHANNEL_SIZE; S->channel_size_ = NC;
    L->logger_state_ = LOGGER_STATE_RUNNING;
    const int LS = LogData::LOG_SIZE;
    LogData& s = *(LogData*)calloc(1, sizeof(LogData));
    std::vector<char> img(sizeof(LogData));
    for (int c = 0; c < NC; c++) { Channel& ch = S->channels_[c]; ch.channel_id_ = c; ch.channel_state_ = CHANNEL_STATE_RUNNING; ch.channel_type_ = CHANNEL_ASYNC; ch.device_size_ = 1; ch.devices_[0].config_fields_[DEVICE_CFG_ABLE] = 1; ch.devices_[0].out_type_ = DEVICE_OUT_EMPTY; }
    static const char names[64] = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (long it = 0; it < n; it++)
    {
        int from = (int)rnd(NC), to = rnd(12) ? (int)rnd(NC) : (int)rnd(9) - 3;
        int len = argc > 3 && it < argc - 3 ? atoi(argv[3 + it]) : rnd(3) ? (int)rnd(LS + 1) : (rnd(2) ? LS - (int)rnd(5) : (int)rnd(4));
        if (len < 0 || len > LS) len = LS;
        for (int i = 0; i < LS; i++) s.content_[i] = (char)rnd();
        s.channel_id_ = from; s.priority_ = rnd(PRIORITY_MAX); s.category_ = (int)rnd(); s.identify_ = (long long)rnd(); s.code_line_ = (int)rnd(100000);
        s.code_func_len_ = rnd(30); s.code_file_len_ = rnd(30); s.code_func_ = names + rnd(9); s.code_file_ = names + rnd(9); s.timestamp_ = rndv(); s.precise_ = rnd(1000);
        s.thread_ = (unsigned)rnd(); s.prefix_len_ = rnd(len + 1); s.content_len_ = len; s.data_mark_ = MARK_HOLD;
        int cat = (int)rnd(64); long long ident = rnd(64);
        bool in = to >= 0 && to < NC;
        bool blocked = false;
        int prio = s.priority_;
        if (in) { S->channels_[to].config_fields_[CHANNEL_CFG_PRIORITY] = rnd(4) ? 0 : rnd(PRIORITY_MAX); S->channels_[to].config_fields_[CHANNEL_CFG_CATEGORY_MASK] = rnd(4) ? 0 : rnd();
            blocked = prio < S->channels_[to].config_fields_[CHANNEL_CFG_PRIORITY] || (S->channels_[to].config_fields_[CHANNEL_CFG_CATEGORY_MASK] && !((S->channels_[to].config_fields_[CHANNEL_CFG_CATEGORY_MASK] >> cat) & 1)); }
        int h = (int)rnd(RingBuffer::BUFFER_LEN);
        if (in) { RingBuffer& rb = S->ring_buffers_[to]; rb.read_idx_ = rb.proc_idx_ = rb.write_idx_ = rb.hold_idx_ = h; memset((void*)&rb.buffer_[h], 0x33, sizeof(LogData)); }
        memcpy(img.data(), (void*)&s, sizeof(s));
        LogData was; memset((void*)&was, 0, sizeof was);
        if (in && to != from) memcpy((void*)&was, (void*)&S->ring_buffers_[to].buffer_[h], sizeof was);
        long long held = in ? (long long)S->channels_[to].channel_log_fields_[CHANNEL_LOG_HOLD] : 0;
        TransmitChannel(*L, to, cat, ident, s);
        if (memcmp(img.data(), (void*)&s, sizeof(s))) FAIL("transmitting a record of %d bytes to channel %d modified the original", len, to);
        if (!in) continue;
        RingBuffer& rb = S->ring_buffers_[to];
        if (to == from || blocked)
        {
            if (rb.hold_idx_ != h || rb.write_idx_ != h || S->channels_[to].channel_log_fields_[CHANNEL_LOG_HOLD] != held) FAIL("transmission from %d to %d (refused: %d) took a slot", from, to, (int)blocked);
            if (to != from && memcmp((void*)&was, (void*)&rb.buffer_[h], sizeof was)) FAIL("a refused transmission wrote the target queue");
            continue;
        }
        LogData& d = rb.buffer_[h];
        if (rb.hold_idx_ != (h + 1) % RingBuffer::BUFFER_LEN || rb.write_idx_ != rb.hold_idx_ || d.data_mark_ != MARK_READY) FAIL("the copy is not published (hold %d write %d mark %d)", (int)rb.hold_idx_, (int)rb.write_idx_, (int)d.data_mark_);
        int cut = std::min(len, LS - 2);
        if (d.content_len_ != cut + 1 || memcmp(d.content_, s.content_, cut) || d.content_[cut] != '\n' || d.content_[cut + 1]) FAIL("the text of a record with %d bytes differs in the copy (length %d)", len, d.content_len_);
        if (d.channel_id_ != to || d.category_ != cat || d.identify_ != ident) FAIL("copy in channel %d with category %d identify %lld, requested %d %d %lld", d.channel_id_, d.category_, (long long)d.identify_, to, cat, ident);
        if (d.priority_ != s.priority_ || d.code_line_ != s.code_line_ || d.code_func_len_ != s.code_func_len_ || d.code_file_len_ != s.code_file_len_ || d.code_func_ != s.code_func_ || d.code_file_ != s.code_file_ || d.timestamp_ != s.timestamp_ || d.precise_ != s.precise_ || d.thread_ != s.thread_ || d.prefix_len_ != s.prefix_len_)
            FAIL("an attribute of the copy differs: priority %d/%d line %d/%d time %lld.%d/%lld.%d thread %u/%u prefix %d/%d", d.priority_, s.priority_, d.code_line_, s.code_line_, (long long)d.timestamp_, d.precise_, (long long)s.timestamp_, s.precise_, d.thread_, s.thread_, d.prefix_len_, s.prefix_len_);
    }
    L->shm_ = nullptr;
    printf("ok %ld transmissions\n", n);
}
