/*
 * S12: packed data sent over a simulated channel, which delays, fragments and
 * cuts the stream (datapack), or damages it as well (datapack_damage)
 */
#include "sim.h"
#include <gutil_datapack.h>
#include <limits.h>
#include <string.h>
#include <string>
#include <vector>
#include <deque>

namespace {

typedef std::vector<uint8_t> Bytes;
enum Kind { UNSIGNED, SIGNED, TLV };
struct Record {
    Kind kind;
    guint64 u;
    gint64 s;
    guint tag;
    Bytes data;
    size_t start, end;         /* where it is in the stream */
    size_t len_at, val_at;     /* TLV: length field and contents */
};

static bool damage;

/* Exactly that many bytes, nothing before or after them may be touched */
struct Block {
    uint8_t* p;
    size_t n;
    explicit Block(const Bytes& b) { n = b.size(); p = (uint8_t*)g_malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); }
    Block(const Bytes& b, size_t off) { n = b.size() - off; p = (uint8_t*)g_malloc(n ? n : 1); if (n) memcpy(p, b.data() + off, n); }
    ~Block() { g_free(p); }
    /* an empty one isn't even one byte long */
    uint8_t* begin() { return n ? p : p + 1; }
    uint8_t* end() { return begin() + n; }
};

static guint64 pick_u64()
{
    switch (sim::choose(5)) {
    case 0: return sim::choose(130);
    case 1: return sim::choose(0x5000);
    case 2: return ((guint64)1 << sim::choose(64)) + (guint64)sim::choose(3) - 1;
    case 3: return (((guint64)sim::choose(0xffffffff)) << 32 | sim::choose(0xffffffff)) >> sim::choose(64);
    default: return G_MAXUINT64 - sim::choose(3);
    }
}

static gint64 pick_s64()
{
    guint64 u = pick_u64();
    if (sim::choose(2)) u = 0 - u;
    return (gint64)u;
}

static guint pick_tag()
{
    static const guint tags[] = { 1, 2, 3, 4, 5, 127, 128, 129, 16383, 16384, 2097151, 2097152, 268435455, 268435456, INT_MAX - 1, INT_MAX };
    return sim::choose(3) ? 1 + sim::choose(8) : tags[sim::choose(16)];
}

static std::string hex(const Bytes& b)
{
    std::string s;
    char x[4];
    for (uint8_t c : b) { snprintf(x, sizeof(x), "%02x", c); s += x; }
    return s;
}

static const char* describe(const Record& r)
{
    static char s[80];
    switch (r.kind) {
    case UNSIGNED: snprintf(s, sizeof(s), "unsigned %llu", (unsigned long long)r.u); break;
    case SIGNED: snprintf(s, sizeof(s), "signed %lld", (long long)r.s); break;
    case TLV: snprintf(s, sizeof(s), "tag %u with %u bytes", r.tag, (guint)r.data.size()); break;
    }
    return s;
}

/*
 * The documented encoding: seven bits in each byte, the most significant
 * ones first, the top bit set in each byte except for the last one. Signed
 * values are extended with their sign. As few bytes as possible if the width
 * isn't given.
 */
static Bytes reference(const Record& r, size_t width)
{
    const __int128 v = r.kind == UNSIGNED ? (__int128)r.u : (__int128)r.s;
    size_t n = 1;
    if (width) n = width;
    else if (r.kind == UNSIGNED) while (v >> (7 * n)) n++;
    else while ((v >> (7 * n - 1)) != 0 && (v >> (7 * n - 1)) != -1) n++;
    Bytes b(n);
    for (size_t i = 0; i < n; i++) b[n - 1 - i] = (uint8_t)(((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0));
    return b;
}

/* What the sender packs; the library writes into a block of the announced size */
static void pack(Record* r, Bytes* out)
{
    guint announced = 0, written = 0, size2 = 0;
    Bytes buf;
    sim::checked();
    r->start = out->size();
    if (r->kind == TLV) {
        GUtilData d, *dp = &d;
        Block contents(r->data);
        d.bytes = contents.begin();
        d.size = r->data.size();
        if (!d.size) switch (sim::choose(3)) { case 1: dp = NULL; break; case 2: d.bytes = NULL; break; }
        announced = gutil_tlv_size(r->tag, r->data.size());
        Block b(Bytes(announced, 0xa5));
        written = (guint)gutil_tlv_encode(b.begin(), r->tag, dp);
        buf.assign(b.begin(), b.end());
    } else {
        announced = r->kind == UNSIGNED ? gutil_unsigned_mbn_size(r->u) : gutil_signed_mbn_size(r->s);
        if (announced < 1 || announced > 10) sim::fail("C18", "size", "announced size of a number is %u", announced);
        if (announced < 10 && !sim::choose(4)) size2 = announced + sim::choose(11 - announced); /* a wider field */
        Block b(Bytes(size2 ? size2 : announced, 0xa5));
        if (r->kind == UNSIGNED) written = size2 ? gutil_unsigned_mbn_encode2(b.begin(), r->u, size2) : gutil_unsigned_mbn_encode(b.begin(), r->u);
        else written = size2 ? gutil_signed_mbn_encode2(b.begin(), r->s, size2) : gutil_signed_mbn_encode(b.begin(), r->s);
        buf.assign(b.begin(), b.end());
        const Bytes ref = reference(*r, 0), ref2 = reference(*r, size2);
        if (announced != ref.size()) sim::fail("C18", "size", "announced size of %s is %u rather than %u",
            describe(*r), announced, (guint)ref.size());
        if (size2) announced = size2;
        if (announced == written && buf != ref2) sim::fail("C18", "encoding", "%s packed as %s", describe(*r), hex(buf).c_str());
    }
    if (announced != written) sim::fail("C18", "size", "%u bytes announced, %u written", announced, written);
    out->insert(out->end(), buf.begin(), buf.end());
    r->end = out->size();
    if (r->kind == TLV) {
        r->val_at = r->end - r->data.size();
        r->len_at = r->start + 1;
        while ((*out)[r->len_at - 1] & 0x80) r->len_at++;
    }
}

static Record make_record(bool tlv_only)
{
    static const int sizes[] = { 0, 1, 2, 7, 126, 127, 128, 129, 300 };
    Record r = Record();
    r.kind = tlv_only ? TLV : (Kind)sim::choose(3);
    switch (r.kind) {
    case UNSIGNED: r.u = pick_u64(); break;
    case SIGNED: r.s = pick_s64(); break;
    case TLV: {
        bool big = false;
        r.tag = pick_tag();
        int n = sim::choose(3) ? (int)sim::choose(12) : sizes[sim::choose(9)];
        if (sim::choose(60) == 1) n = 16382 + (int)sim::choose(4);
        if (sim::choose(400) == 399) { n = 65534 + (int)sim::choose(4); big = true; sim::probe("datapack.large_record"); }
        r.data.resize((size_t)n);
        if (big) for (size_t i = 0; i < r.data.size(); i++) r.data[i] = (uint8_t)(i * 7);
        else for (auto& b : r.data) b = (uint8_t)((sim::choose(2)) ? sim::choose(256) : 0x80);
        break;
    }
    }
    return r;
}

/* One attempt at the beginning of what has been received. Returns the number of bytes consumed, 0 for failure */
static size_t attempt(const Bytes& in, size_t off, const Record& want, bool compare, const char* props)
{
    Block b(in, off);
    GUtilRange r;
    r.ptr = b.begin();
    r.end = b.end();
    const uint8_t* start = r.ptr;
    bool ok = false, match = true;
    sim::checked();
    switch (want.kind) {
    case UNSIGNED: {
        guint64 u = 0x5555;
        const bool noout = !sim::choose(6);
        ok = gutil_unsigned_mbn_decode(&r, noout ? NULL : &u);
        match = noout || u == want.u;
        break;
    }
    case SIGNED: {
        gint64 s = 0x5555;
        const bool noout = !sim::choose(6);
        ok = gutil_signed_mbn_decode(&r, noout ? NULL : &s);
        match = noout || s == want.s;
        break;
    }
    case TLV: {
        GUtilData v = { NULL, 0 };
        const bool noout = !sim::choose(6);
        guint tag = gutil_tlv_decode(&r, noout ? NULL : &v);
        ok = tag != 0;
        match = tag == want.tag && (noout || (v.size == want.data.size() && (!v.size || !memcmp(v.bytes, want.data.data(), v.size))));
        if (ok && !noout) {
            if (v.size > b.n || (v.size && (v.bytes < start || v.bytes > b.end() - v.size)))
                sim::fail("C19,C18", "contents-outside", "contents of a record (%llu bytes) is not inside of the input (%u bytes)",
                    (unsigned long long)v.size, (guint)b.n);
            if (tag > INT_MAX) sim::fail("C19", "tag", "tag is %u", tag);
        }
        break;
    }
    }
    if (r.end != b.end()) sim::fail("C19,C18", "end-moved", "end of the range has moved");
    if (!ok && r.ptr != start)
        sim::fail("C19,C18", "consumed", "a decoder failed but moved by %lld", (long long)(r.ptr - start));
    if (ok && (r.ptr <= start || r.ptr > b.end()))
        sim::fail("C19,C18", "position", "a decoder has moved by %lld, there were %u bytes", (long long)(r.ptr - start), (guint)b.n);
    if (ok && compare && !match)
        sim::fail(props, "value", "%s was unpacked as something else", describe(want));
    return ok ? (size_t)(r.ptr - start) : 0;
}

/* Whole number checks */
static void decode2(const Record& r, const Bytes& stream)
{
    if (r.kind == TLV) return;
    Bytes part(stream.begin() + (long)r.start, stream.begin() + (long)r.end);
    int how = (int)sim::choose(3);
    if (how == 1) part.push_back(0);
    if (how == 2) part.pop_back();
    Block b(part);
    GUtilData d;
    d.bytes = b.begin();
    d.size = b.n;
    gboolean ok, match;
    if (r.kind == UNSIGNED) { guint64 u = 0x5555; ok = gutil_unsigned_mbn_decode2(&d, &u); match = u == r.u; }
    else { gint64 s = 0x5555; ok = gutil_signed_mbn_decode2(&d, &s); match = s == r.s; }
    sim::checked();
    if (how ? ok : (!ok || !match)) sim::fail("C18", "decode2", "%s, %s: %s", describe(r),
        how == 0 ? "complete" : how == 1 ? "one byte too many" : "one byte missing", ok ? "accepted" : "rejected");
    if (gutil_unsigned_mbn_decode2(NULL, NULL) || gutil_signed_mbn_decode2(NULL, NULL)) sim::fail("C18", "decode2", "NULL is a number");
}

/* ---- incremental receiver ---- */

static void stream_run()
{
    std::vector<Record> rec;
    Bytes wire;
    while (sim::more(6) && rec.size() < 40) {
        Record r = make_record(false);
        pack(&r, &wire);
        rec.push_back(r);
    }
    sim::span();
    if (rec.empty()) { Record r = make_record(false); pack(&r, &wire); rec.push_back(r); }
    for (auto& r : rec) if (!sim::choose(4)) decode2(r, wire);
    /* Sender, channel and receiver take turns */
    Bytes got;
    size_t sent = 0, pos = 0, next = 0, cut = wire.size();
    if (sim::faults_enabled() && !sim::choose(3)) { cut = sim::choose((uint32_t)wire.size() + 1); sim::fault("stream_cut"); }
    sim::log("%d records, %d bytes, cut at %d", (int)rec.size(), (int)wire.size(), (int)cut);
    while (sent < cut) {
        static const uint32_t most[] = { 1, 2, 3, 8, 64, 20000 };
        size_t n = 1 + sim::choose(most[sim::choose(6)]);
        if (n > cut - sent) n = cut - sent;
        if (sim::faults_enabled() && !sim::choose(4)) { sim::fault("stall"); world::advance_ns(1000000); sim::span(); }
        got.insert(got.end(), wire.begin() + (long)sent, wire.begin() + (long)(sent + n));
        sent += n;
        sim::fault("fragment");
        if (!sim::choose(4)) continue;
        /* Receiver looks at what it has */
        for (;;) {
            if (next >= rec.size()) break;
            const Record& r = rec[next];
            const size_t used = attempt(got, pos, r, true, "C18");
            if (sent >= r.end) {
                if (used != r.end - r.start)
                    sim::fail("C18", "complete", "%s is complete (%u bytes), %u bytes consumed", describe(r), (guint)(r.end - r.start), (guint)used);
                pos += used;
                next++;
            } else {
                sim::probe("datapack.incomplete_record");
                if (used) sim::fail("C18", "incomplete", "%s is incomplete (%u bytes of %u) but it has been decoded",
                    describe(r), (guint)(sent - r.start), (guint)(r.end - r.start));
                break;
            }
        }
        sim::state(sim::mix(sent - pos, next < rec.size() ? rec[next].kind : 9));
        sim::nontrivial();
    }
    while (next < rec.size() && rec[next].end <= cut) {
        const Record& r = rec[next];
        if (attempt(got, pos, r, true, "C18") != r.end - r.start) sim::fail("C18", "complete", "%s was lost", describe(r));
        pos += r.end - r.start;
        next++;
    }
}

/* ---- blocks of records ---- */

static void pick_tags(const std::vector<Record>& rec, std::vector<guint>* tags)
{
    std::vector<guint> seen;
    for (auto& r : rec) { bool dup = false; for (guint t : seen) if (t == r.tag) dup = true; if (!dup) seen.push_back(r.tag); }
    switch (sim::choose(6)) {
    case 0: *tags = seen; break;                                             /* exactly those */
    case 1: for (guint t : seen) if (sim::choose(2)) tags->push_back(t); break; /* some are unknown */
    case 2: break;
    default:
        for (guint t : seen) { if (!sim::choose(3)) tags->push_back(1000 + (guint)tags->size()); if (sim::choose(5)) tags->push_back(t); }
        break;
    case 5: /* many */
        while (tags->size() < 28 + sim::choose(6)) tags->push_back(2000 + (guint)tags->size());
        for (guint t : seen) if (tags->size() < 34) tags->push_back(t);
        break;
    }
}

static void tlvs(const Bytes& block, const std::vector<Record>& rec, size_t intact, bool exact)
{
    std::vector<guint> tags;
    pick_tags(rec, &tags);
    const bool skip = sim::choose(2), novals = !sim::choose(5);
    const size_t n = tags.size();
    guint* tl = (guint*)g_malloc((n + 1) * sizeof(guint));
    GUtilData* vals = (GUtilData*)g_malloc(n * sizeof(GUtilData) + 1);
    for (size_t i = 0; i < n; i++) { tl[i] = tags[i]; vals[i].bytes = (const guint8*)1; vals[i].size = 77; }
    tl[n] = 0;
    Block b(block);
    GUtilData in;
    in.bytes = b.begin();
    in.size = b.n;
    const int ret = gutil_tlvs_decode(&in, tl, novals ? NULL : vals,
        skip ? GUTIL_TLVS_DECODE_FLAG_SKIP_UNKNOWN_TAGS : GUTIL_TLVS_DECODE_NO_FLAGS);
    /* Reference */
    int mask = 0, want = 0;
    std::vector<const Record*> found(n, (const Record*)NULL);
    bool done = false;
    size_t pos = 0;
    for (auto& r : rec) {
        if (r.end > intact) break;
        pos = r.end;
        int idx = -1;
        for (size_t i = 0; i < n && i < 31 && idx < 0; i++) if (tags[i] == r.tag) idx = (int)i;
        if (idx < 0) {
            if (!skip) { want = GUTIL_TLVS_DECODE_UNKNOWN_TAG; done = true; break; }
        } else if (mask & (1 << idx)) {
            want = GUTIL_TLVS_DECODE_DUPLICATE_TAG; done = true; break;
        } else {
            mask |= 1 << idx;
            found[(size_t)idx] = &r;
        }
    }
    if (!done) want = pos == block.size() ? mask : GUTIL_TLVS_DECODE_ERROR;
    sim::checked();
    sim::log("block of %d: %d tags, %s unknown ones: %d", (int)block.size(), (int)n, skip ? "skip" : "reject", ret);
    if (exact || done) {
        if (ret != want) sim::fail("C18", "block", "block of %u bytes (%u intact records bytes): %d rather than %d", (guint)block.size(), (guint)pos, ret, want);
    } else if (ret >= 0 && (ret & mask) != mask) {
        sim::fail("C19", "block", "records in front of the damage are missing: %d without %d", ret, mask & ~ret);
    }
    if (ret < 0) sim::probe(ret == GUTIL_TLVS_DECODE_ERROR ? "datapack.block_error" : ret == GUTIL_TLVS_DECODE_DUPLICATE_TAG ? "datapack.block_duplicate" : "datapack.block_unknown");
    if (!novals) for (size_t i = 0; i < n; i++) {
        const char* props = exact ? "C18,C19" : "C19";
        if (vals[i].size && (vals[i].size > b.n || vals[i].bytes < b.begin() || vals[i].bytes > b.end() - vals[i].size))
            sim::fail("C19,C18", "contents-outside", "contents of tag %u (%llu bytes) is not inside of the block (%u bytes)",
                tags[i], (unsigned long long)vals[i].size, (guint)b.n);
        if (found[i]) {
            const Record* r = found[i];
            sim::checked();
            if (vals[i].size != r->data.size() || (vals[i].size && memcmp(vals[i].bytes, r->data.data(), vals[i].size)))
                sim::fail(props, "block-value", "contents of tag %u (%u bytes) is wrong, %u bytes expected", tags[i], (guint)vals[i].size, (guint)r->data.size());
        } else if (exact && (vals[i].size || vals[i].bytes)) {
            sim::fail("C18", "block-value", "contents of tag %u which has not been there", tags[i]);
        }
    }
    g_free(vals);
    g_free(tl);
}

static void block_run()
{
    std::vector<Record> rec;
    Bytes block;
    while (sim::more(5) && rec.size() < 36) {
        Record r = make_record(true);
        if (sim::choose(4)) {
            /* mostly without duplicates */
            for (auto& o : rec) if (o.tag == r.tag) r.tag = 100 + (guint)rec.size();
        }
        pack(&r, &block);
        rec.push_back(r);
    }
    sim::span();
    sim::log("%d records, %d bytes", (int)rec.size(), (int)block.size());
    tlvs(block, rec, block.size(), true);
    int k = (int)sim::choose(4);
    while (sim::faults_enabled() && k--) {
        sim::span();
        size_t cut = sim::choose((uint32_t)block.size() + 1);
        sim::fault("block_cut");
        tlvs(Bytes(block.begin(), block.begin() + (long)cut), rec, cut, true);
    }
    sim::nontrivial();
    sim::state(rec.size());
}

/* ---- damage ---- */

static void put_number(Bytes* b, size_t at, size_t old, guint64 v)
{
    Bytes n;
    do { n.insert(n.begin(), (uint8_t)((v & 0x7f) | (n.empty() ? 0 : 0x80))); v >>= 7; } while (v);
    if (at + old > b->size()) old = b->size() - at;
    b->erase(b->begin() + (long)at, b->begin() + (long)(at + old));
    b->insert(b->begin() + (long)at, n.begin(), n.end());
}

/* Returns the offset of the first byte that may be different from the original */
static size_t do_damage(Bytes* b, const std::vector<Record>& rec)
{
    size_t n = b->size(), at = n ? sim::choose((uint32_t)n) : 0;
    if (!n) return 0;
    switch (sim::choose(8)) {
    case 0: (*b)[at] ^= (uint8_t)(1 << sim::choose(8)); sim::fault("bit_flip"); break;
    case 1: {
        static const uint8_t v[] = { 0xff, 0x80, 0, 0x7f, 0x81 };
        uint8_t x = v[sim::choose(5)];
        size_t k = 1 + sim::choose(12);
        for (size_t i = at; i < n && i < at + k; i++) (*b)[i] = x;
        sim::fault("bytes_overwritten");
        break;
    }
    case 2: {
        size_t k = 1 + sim::choose(4);
        if (k > n - at) k = n - at;
        b->erase(b->begin() + (long)at, b->begin() + (long)(at + k));
        sim::fault("bytes_lost");
        break;
    }
    case 3: {
        size_t k = 1 + sim::choose(6);
        if (k > n - at) k = n - at;
        Bytes c(b->begin() + (long)at, b->begin() + (long)(at + k));
        b->insert(b->begin() + (long)(at + k), c.begin(), c.end());
        sim::fault("bytes_repeated");
        at += k;
        break;
    }
    case 4: b->resize(at); sim::fault("torn"); break;
    case 5: {
        /* the rest comes from an older version of the data */
        for (size_t i = at; i < n; i++) (*b)[i] = (uint8_t)sim::choose(256);
        sim::fault("stale_tail");
        break;
    }
    default: {
        /* Length or tag or number field gets another value */
        const Record& r = rec[sim::choose((uint32_t)rec.size())];
        guint64 v;
        size_t rest;
        if (r.end > n) { (*b)[at] ^= 1; sim::fault("bit_flip"); break; }
        rest = n - r.end + r.data.size();
        switch (sim::choose(10)) {
        case 0: v = (guint64)1 << 63; break;
        case 1: v = G_MAXUINT64; break;
        case 2: v = G_MAXUINT64 - sim::choose((uint32_t)n + 2); break;
        case 3: v = (guint64)rest + 1; break;
        case 4: v = ((guint64)1 << 32) + sim::choose(20); break;
        case 5: v = (guint64)INT_MAX + sim::choose(3); break;
        case 6: v = (guint64)G_MAXUINT32 - sim::choose(3); break;
        case 7: v = 0; break;
        case 8: v = ((guint64)1 << 63) + sim::choose((uint32_t)n + 2); break;
        default: v = rest; break;
        }
        if (r.kind == TLV && sim::choose(4)) { at = r.len_at; put_number(b, at, r.val_at - at, v); sim::fault("length_field_changed"); }
        else if (r.kind == TLV) { at = r.start; put_number(b, at, r.len_at - at, v); sim::fault("tag_changed"); }
        else { at = r.start; put_number(b, at, r.end - at, v); sim::fault("number_changed"); }
        break;
    }
    }
    return at;
}

static void damage_run()
{
    std::vector<Record> rec;
    Bytes wire;
    const bool tlv_only = sim::choose(2);
    do {
        Record r = make_record(tlv_only || sim::choose(3));
        if (tlv_only && sim::choose(4)) for (auto& o : rec) if (o.tag == r.tag) r.tag = 100 + (guint)rec.size();
        pack(&r, &wire);
        rec.push_back(r);
    } while (sim::more(4) && rec.size() < 30);
    sim::span();
    size_t intact = wire.size();
    int k = (int)sim::choose(3) + (sim::faults_enabled() ? 1 : 0);
    while (k--) {
        size_t at = do_damage(&wire, rec);
        if (at < intact) intact = at;
        sim::span();
    }
    sim::log("%d records, %d bytes, damaged at %d", (int)rec.size(), (int)wire.size(), (int)intact);
    sim::nontrivial();
    if (tlv_only) tlvs(wire, rec, intact, false);
    /* In pieces, too */
    Bytes got;
    size_t pos = 0, next = 0;
    Record any = rec[0];
    bool lost = false;
    for (size_t sent = 0; sent < wire.size(); ) {
        size_t n = 1 + sim::choose(sim::choose(2) ? 4 : 400);
        if (n > wire.size() - sent) n = wire.size() - sent;
        got.insert(got.end(), wire.begin() + (long)sent, wire.begin() + (long)(sent + n));
        sent += n;
        sim::fault("fragment");
        for (;;) {
            if (!lost && next < rec.size() && rec[next].end <= intact) {
                const Record& r = rec[next];
                if (r.end > sent) break;
                if (attempt(got, pos, r, true, "C19,C18") != r.end - r.start)
                    sim::fail("C19,C18", "intact-lost", "%s in front of the damage was lost", describe(r));
                pos = r.end;
                next++;
            } else {
                /* The receiver goes on with whatever it thinks is next */
                if (!lost) { lost = true; sim::probe("datapack.decoding_damaged_data"); }
                if (!tlv_only) any.kind = (Kind)sim::choose(3);
                const size_t used = attempt(got, pos, any, false, "C19");
                sim::state(sim::mix(any.kind, used));
                if (!used) break;
                pos += used;
            }
        }
    }
}

static void run()
{
    damage = false;
    if (sim::choose(2)) stream_run();
    else block_run();
    sim::ledger_check("C18,C22");
}

static void run_damage()
{
    damage = true;
    damage_run();
    sim::ledger_check("C19,C22");
}

} // namespace

SCENARIO(datapack, "datapack", "C18", run, "gutil_datapack.c", "sender, receiver and the channel between them (delays, fragmentation, cuts)")
SCENARIO(datapack_damage, "datapack_damage", "C19", run_damage, "gutil_datapack.c",
    "sender, receiver, the channel between them and storage (fragmentation, corruption)")
