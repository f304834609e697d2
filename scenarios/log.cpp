/* S11: logging: modules, sinks, streams which fail, a changing clock, several threads */
#define GLOG_MODULE_NAME sim_log_macro_module
#define GLOG_LEVEL_MAX GLOG_LEVEL_VERBOSE
#include "sim.h"
#include <gutil_log.h>
#include <gutil_misc.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <syslog.h>
#include <time.h>
#include <string>
#include <vector>
#include <deque>

GLOG_MODULE_DEFINE("macro");

extern "C" void gutil_log_assert(const GLogModule*, int, const char*, const char*, int);

namespace {

static const char PROPS[] = "C16,C17";

/* ---- streams ---- */

struct Stream {
    const char* name;
    FILE* fp;
    char vbuf[4096];
    std::string out;           /* what the stream has accepted so far, not compared yet */
    struct Line { std::string a, b; bool two; int id; };
    std::deque<Line> expected;
    int last_id;               /* with faults: the last message seen */
    bool lossy;
};
static Stream streams[2];
static bool stream_faults;

static ssize_t stream_write(void* cookie, const char* data, size_t size)
{
    Stream* s = (Stream*)cookie;
    if (stream_faults) switch (sim::choose(8)) {
    case 1: sim::fault("stream_write_error"); s->lossy = true; errno = sim::choose(2) ? ENOSPC : EIO; return 0;
    case 2: sim::fault("stream_short_write"); s->lossy = true; size /= 2; break;
    case 3: sim::fault("stream_write_nothing"); s->lossy = true; errno = EAGAIN; return 0;
    }
    s->out.append(data, size);
    return (ssize_t)size;
}

static void open_stream(int i)
{
    static const int sizes[] = { 4096, 16, 64, 600, 1024 };
    Stream* s = streams + i;
    cookie_io_functions_t io = {};
    io.write = stream_write;
    s->name = i ? "stderr" : "stdout";
    s->fp = fopencookie(s, "w", io);
    switch (sim::choose(3)) {
    case 0: setvbuf(s->fp, NULL, _IONBF, 0); break;
    case 1: setvbuf(s->fp, s->vbuf, _IOLBF, (size_t)sizes[sim::choose(5)]); break;
    case 2: setvbuf(s->fp, s->vbuf, _IOFBF, (size_t)sizes[sim::choose(5)]); break;
    }
    s->last_id = -1;
}

static std::string shown(const std::string& s)
{
    std::string r = s.substr(0, 120);
    if (s.size() > 120) r += "... (" + std::to_string(s.size()) + ")";
    return r;
}

static std::string id_tag(int id)
{
    return "<#" + std::to_string(id) + ":" + std::to_string(id) + ">";
}

/* Everything that has been logged must be there, nothing else */
static void compare(Stream* s)
{
    fflush(s->fp);
    if (s->lossy) {
        /* Whatever got through was said once and in order */
        size_t pos = 0;
        while ((pos = s->out.find("<#", pos)) != std::string::npos) {
            size_t end = s->out.find(">", pos);
            if (end == std::string::npos) break;
            /* The id is there twice: pieces of two ids don't make a third one */
            std::string tag = s->out.substr(pos, end - pos + 1);
            int id = atoi(tag.c_str() + 2);
            pos += 2;
            if (tag != id_tag(id)) continue;
            sim::checked();
            bool exists = false;
            for (auto& l : s->expected) if (l.id == id) exists = true;
            /* Part of an id followed by some other text */
            if (!exists) continue;
            if (id <= s->last_id) sim::fail("C17,C16", "repeated", "message %d appears on %s again after %d", id, s->name, s->last_id);
            s->last_id = id;
        }
        return;
    }
    size_t pos = 0;
    while (!s->expected.empty()) {
        Stream::Line& l = s->expected.front();
        sim::checked();
        if (!s->out.compare(pos, l.a.size(), l.a)) pos += l.a.size();
        else if (l.two && !s->out.compare(pos, l.b.size(), l.b)) pos += l.b.size();
        else sim::fail("C17,C16", "line", "%s: \"%s\" rather than \"%s\"", s->name, shown(s->out.substr(pos)).c_str(), shown(l.a).c_str());
        s->last_id = l.id;
        s->expected.pop_front();
    }
    if (pos < s->out.size()) sim::fail("C16,C17", "unexpected-output", "%s: unexpected \"%s\"", s->name, shown(s->out.substr(pos)).c_str());
    s->out.clear();
}

/* Faults are over: start afresh */
static void heal()
{
    stream_faults = false;
    for (int i = 0; i < 2; i++) {
        Stream* s = streams + i;
        fflush(s->fp);
        compare(s);
        s->lossy = false;
        s->out.clear();
        s->expected.clear();
    }
}

/* ---- model ---- */

enum Sink { NOWHERE, STDOUT, STDERR, SYSLOG, GLIB, CUSTOM, CUSTOM2 };
static const char* const sink_name[] = { "nowhere", "stdout", "stderr", "syslog", "glib", "custom", "custom2" };

enum { NMOD = 6 };
static GLogModule mods[NMOD] = {
    { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 },
    { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 },
    { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 },
    { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 },
    { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 },
    { NULL, NULL, NULL, GLOG_LEVEL_MAX, GLOG_LEVEL_INHERIT, 0, 0 },
};

struct Mod {
    GLogModule* m;
    const char* name;
    int parent;                /* -1: none, NMOD: the default one */
    Sink sink;                 /* NOWHERE: none of its own */
    int level, flags;
};
static Mod mod[NMOD + 2];      /* NMOD: default, NMOD+1: the one of the macros */
static Sink func;              /* gutil_log_func */
static int func2;              /* 0: none, 1: default, 2: custom */
static GLogProc2 default_proc2;
static std::string ts_format;
static bool ts_custom;
static int nextid, depth;
static bool quiet;             /* no re-entrant actions */

struct Expect {
    Sink sink;
    bool has_name;
    std::string name;
    const GLogModule* module;
    int level;
    std::string text;
    bool delivered;
    int calls;
};
static std::vector<Expect*> stack;

static bool enabled(int i, int level)
{
    if (level == GLOG_LEVEL_NONE || !func2) return false;
    int l;
    for (;;) {
        if (mod[i].flags & GLOG_FLAG_DISABLE) return false;
        l = mod[i].level;
        if (l != GLOG_LEVEL_INHERIT) break;
        if (mod[i].parent < 0) { l = mod[NMOD].level; break; }
        i = mod[i].parent;
    }
    return level == GLOG_LEVEL_ALWAYS || (level > GLOG_LEVEL_NONE && level <= l);
}

static void route(int i, Expect* e)
{
    Mod* m = mod + i;
    e->module = m->m;
    e->sink = m->sink;
    if (e->sink == NOWHERE) e->sink = func2 == 2 ? CUSTOM2 : func;
    e->has_name = m->name && !(m->flags & GLOG_FLAG_HIDE_NAME);
    e->name = e->has_name ? m->name : "";
}

static std::string timestamp(int64_t sec)
{
    if (!gutil_log_timestamp || ts_format.empty()) return "";
    char t[400];
    time_t s = (time_t)sec;
    struct tm tm;
    gmtime_r(&s, &tm);
    t[0] = 0;
    if (!strftime(t, sizeof(t), ts_format.c_str(), &tm)) t[0] = 0;
    return t;
}

static std::string stdio_line(const std::string& t, const char* name, int level, const std::string& text)
{
    std::string s;
    if (gutil_log_tid) s += "[" + std::to_string(world::current_tid()) + "] ";
    s += t;
    if (name && name[0]) s += std::string("[") + name + "] ";
    if (level == GLOG_LEVEL_WARN) s += "WARNING: ";
    if (level == GLOG_LEVEL_ERR) s += "ERROR: ";
    return s + text + "\n";
}

static std::string syslog_line(const char* name, int level, const std::string& text)
{
    std::string s;
    if (gutil_log_tid) s += "[" + std::to_string(world::current_tid()) + "] ";
    if (name && name[0] && g_strcmp0(name, mod[NMOD].name)) s += std::string("[") + name + "] ";
    if (level == GLOG_LEVEL_WARN) s += "WARNING! ";
    if (level == GLOG_LEVEL_ERR) s += "ERROR! ";
    return s + text;
}

static Expect* current(const char* what, const std::string& got)
{
    sim::checked();
    if (stack.empty()) sim::fail("C16", "stray", "%s: unexpected \"%s\"", what, shown(got).c_str());
    return stack.back();
}

static void delivered(Expect* e, Sink sink, const std::string& got, const std::string& want)
{
    sim::checked();
    if (e->sink != sink) sim::fail("C16", "wrong-sink", "\"%s\" has reached %s rather than %s", shown(got).c_str(), sink_name[sink], sink_name[e->sink]);
    if (e->calls++) sim::fail("C16", "twice", "\"%s\" has reached %s again", shown(got).c_str(), sink_name[sink]);
    if (got != want) sim::fail("C17,C16", "text", "%s got \"%s\" rather than \"%s\"", sink_name[sink], shown(got).c_str(), shown(want).c_str());
    e->delivered = true;
}

static void got_syslog(int prio, const char* text)
{
    Expect* e = current("syslog", text);
    delivered(e, SYSLOG, text, syslog_line(e->has_name ? e->name.c_str() : NULL, e->level, e->text));
    int p;
    switch (e->level) {
    case GLOG_LEVEL_VERBOSE: p = LOG_DEBUG; break;
    case GLOG_LEVEL_DEBUG: p = LOG_INFO; break;
    case GLOG_LEVEL_WARN: p = LOG_WARNING; break;
    case GLOG_LEVEL_ERR: p = LOG_ERR; break;
    default: p = LOG_NOTICE; break;
    }
    if (LOG_PRI(prio) != p) sim::fail("C17", "priority", "message of level %d has priority %d rather than %d", e->level, LOG_PRI(prio), p);
}

static void got_glib(const char* domain, int level, const char* text)
{
    Expect* e = current("glib", text ? text : "");
    delivered(e, GLIB, text ? text : "", e->text);
    int l;
    switch (e->level) {
    case GLOG_LEVEL_VERBOSE: l = G_LOG_LEVEL_DEBUG; break;
    case GLOG_LEVEL_DEBUG: l = G_LOG_LEVEL_INFO; break;
    case GLOG_LEVEL_WARN: l = G_LOG_LEVEL_WARNING; break;
    case GLOG_LEVEL_ERR: l = G_LOG_LEVEL_CRITICAL; break;
    default: l = G_LOG_LEVEL_MESSAGE; break;
    }
    if (level != l) sim::fail("C17", "glib-level", "message of level %d has GLib level %d rather than %d", e->level, level, l);
    if (g_strcmp0(domain ? domain : "", e->name.c_str()))
        sim::fail("C16,C17", "domain", "domain \"%s\" rather than \"%s\"", domain ? domain : "(none)", e->name.c_str());
}

static void reenter();

static void custom_common(Expect* e, Sink sink, int level, const char* format, va_list va)
{
    char* text = g_strdup_vprintf(format, va);
    delivered(e, sink, text, e->text);
    g_free(text);
    if (level != e->level) sim::fail("C16", "level", "level %d rather than %d", level, e->level);
    if (!quiet) reenter();
}

static void custom1(const char* name, int level, const char* format, va_list va)
{
    Expect* e = current("custom", format);
    if (!name != !e->has_name || (name && e->name != name))
        sim::fail("C16,C17", "name", "name %s rather than %s", name ? name : "(none)", e->has_name ? e->name.c_str() : "(none)");
    custom_common(e, CUSTOM, level, format, va);
}

static void custom2(const GLogModule* m, int level, const char* format, va_list va)
{
    Expect* e = current("custom2", format);
    if (m != e->module) sim::fail("C16", "module", "custom sink got a wrong module");
    custom_common(e, CUSTOM2, level, format, va);
}

/* ---- workload ---- */

static void line_expected(const Expect* e, int id)
{
    if (e->sink != STDOUT && e->sink != STDERR) return;
    Stream* s = streams + (e->sink == STDERR);
    const char* name = e->has_name ? e->name.c_str() : NULL;
    std::string t = timestamp(world::real_ns() / 1000000000);
    Stream::Line l;
    l.a = stdio_line(t, name, e->level, e->text);
    l.two = t.size() > 31;     /* too much for the timestamp */
    if (l.two) { l.b = stdio_line("", name, e->level, e->text); sim::probe("log.long_timestamp"); }
    l.id = id;
    s->expected.push_back(l);
    if (e->text.size() > 500) sim::probe("log.long_line");
}

static std::string make_text(int id)
{
    static const int lens[] = { 0, 1, 20, 100, 480, 500, 511, 512, 513, 530, 1023, 1024, 2000, 5000 };
    std::string s = id_tag(id);
    int n = lens[sim::choose(14)];
    if (n >= 480 && n < 1030) n += (int)sim::choose(5) - 2;
    while ((int)s.size() < n) s += (char)('a' + (s.size() * 7 + (size_t)id) % 26);
    switch (sim::choose(8)) {
    case 1: s += "%s%n%%"; break;
    case 2: s += "\ttab\nsecond line"; break;
    case 3: s += "\xd0\xb6"; break;
    }
    return s;
}

static void logv(const GLogModule* m, int level, const char* f, ...)
{
    va_list va;
    va_start(va, f);
    gutil_logv(m, level, f, va);
    va_end(va);
}

static void begin(Expect* e, int i, int level)
{
    route(i, e);
    e->level = level;
    e->delivered = false;
    e->calls = 0;
    stack.push_back(e);
}

static void end(Expect* e, bool en, int i, int id)
{
    stack.pop_back();
    sim::checked();
    const bool direct = e->sink != STDOUT && e->sink != STDERR && e->sink != NOWHERE;
    if (e->calls && !en) sim::fail("C16", "not-enabled", "message %d of level %d has been delivered though module %d does not allow it", id, e->level, i);
    if (en && direct && !e->delivered)
        sim::fail("C16", "lost", "message %d of level %d for module %d did not reach %s", id, e->level, i, sink_name[e->sink]);
}

static int pick_mod() { return (int)sim::choose(NMOD + 2); }

static int pick_level()
{
    static const int l[] = { GLOG_LEVEL_INFO, GLOG_LEVEL_ERR, GLOG_LEVEL_WARN, GLOG_LEVEL_DEBUG, GLOG_LEVEL_VERBOSE,
        GLOG_LEVEL_ALWAYS, GLOG_LEVEL_NONE, GLOG_LEVEL_INHERIT, 6, -3 };
    return l[sim::choose(10)];
}

static void query(int i, int level)
{
    const bool want = enabled(i, level);
    const bool is = gutil_log_enabled((i == NMOD && sim::choose(2)) ? NULL : mod[i].m, level);
    sim::checked();
    if (want != is) sim::fail("C16", "enabled", "level %d of module %d is %s", level, i, is ? "enabled" : "disabled");
}

static void message(int i, int level)
{
    Expect e;
    const int id = nextid++;
    const bool en = enabled(i, level);
    const GLogModule* m = mod[i].m;
    std::string s = make_text(id);
    if (i == NMOD && sim::choose(2)) m = NULL;
    e.text = s;
    query(i, level);
    begin(&e, i, level);
    sim::log("%*smessage %d: module %d level %d to %s (%senabled), %d chars", depth * 2, "", id, i, level,
        sink_name[e.sink], en ? "" : "not ", (int)s.size());
    if (en) line_expected(&e, id);
    switch (sim::choose(4)) {
    case 0: gutil_log(m, level, "%s", s.c_str()); break;
    case 1: logv(m, level, "%s", s.c_str()); break;
    case 2: {
        std::string a = s.substr(0, 2), b = s.substr(s.find(':'));
        gutil_log(m, level, "%s%d%s", a.c_str(), id, b.c_str());
        break;
    }
    case 3:
        if (s.find('%') == std::string::npos) gutil_log(m, level, s.c_str(), 0);
        else logv(m, level, "%.*s%c%s", (int)s.size() - 2, s.c_str(), s[s.size() - 2], s.c_str() + s.size() - 1);
        break;
    }
    end(&e, en, i, id);
}

static void macro()
{
    Expect e;
    const int i = NMOD + 1, id = nextid++;
    e.text = id_tag(id);
    int level = GLOG_LEVEL_ERR + (int)sim::choose(5);
    const bool en = enabled(i, level), fn = sim::choose(2);
    if (fn) e.text = "macro() " + e.text;
    begin(&e, i, level);
    sim::log("%*smacro message %d: level %d to %s (%senabled)", depth * 2, "", id, level, sink_name[e.sink], en ? "" : "not ");
    if (en) line_expected(&e, id);
    if (GLOG_ENABLED(level) != en) sim::fail("C16", "enabled", "level %d of the macro module", level);
    switch (level) {
    case GLOG_LEVEL_ERR: if (fn) GERR_("<#%d:%d>", id, id); else GERR("<#%d:%d>", id, id); break;
    case GLOG_LEVEL_WARN: if (fn) GWARN_("<#%d:%d>", id, id); else GWARN("<#%d:%d>", id, id); break;
    case GLOG_LEVEL_INFO: if (fn) GINFO_("<#%d:%d>", id, id); else GINFO("<#%d:%d>", id, id); break;
    case GLOG_LEVEL_DEBUG: if (fn) GDEBUG_("<#%d:%d>", id, id); else GDEBUG("<#%d:%d>", id, id); break;
    case GLOG_LEVEL_VERBOSE: if (fn) GVERBOSE_("<#%d:%d>", id, id); else GVERBOSE("<#%d:%d>", id, id); break;
    }
    end(&e, en, i, id);
}

static void assertion()
{
    Expect e;
    const int i = pick_mod(), level = pick_level(), id = nextid++;
    const bool en = enabled(i, level);
    std::string expr = id_tag(id);
    e.text = "Assert " + expr + " failed at file.c:77";
    begin(&e, i, level);
    sim::log("%*sassertion %d: module %d level %d to %s", depth * 2, "", id, i, level, sink_name[e.sink]);
    if (en) line_expected(&e, id);
    gutil_log_assert(mod[i].m, level, expr.c_str(), "file.c", 77);
    end(&e, en, i, id);
}

/* Lines of a dump are deliveries of their own */
static std::deque<std::string> dump_lines;
static Expect dump_expect;

static void next_dump_line(Expect* e)
{
    if (dump_lines.empty()) sim::fail("C17,C16", "dump", "too many lines of a dump");
    e->text = dump_lines.front();
    dump_lines.pop_front();
    e->calls = 0;
    e->delivered = false;
}

static std::string hexline(const char* prefix, size_t off, const uint8_t* p, size_t n)
{
    char tmp[40];
    std::string s = prefix ? prefix : "", txt;
    snprintf(tmp, sizeof(tmp), "%04X: ", (unsigned)off);
    s += tmp;
    for (size_t k = 0; k < 16; k++) {
        if (k) s += ' ';
        if (k == 8) s += ' ';
        if (k < n) { snprintf(tmp, sizeof(tmp), "%02x", p[k]); s += tmp; } else s += "  ";
    }
    s += "    ";
    for (size_t k = 0; k < n && k < 16; k++) {
        if (k == 8) s += ' ';
        s += (p[k] >= 0x20 && p[k] < 0x7f) ? (char)p[k] : '.';
    }
    return s;
}

static void dump_syslog(int prio, const char* text) { next_dump_line(&dump_expect); got_syslog(prio, text); }
static void dump_glib(const char* d, int l, const char* text) { next_dump_line(&dump_expect); got_glib(d, l, text); }
static void dump_custom1(const char* n, int l, const char* f, va_list va) { next_dump_line(&dump_expect); custom1(n, l, f, va); }
static void dump_custom2(const GLogModule* m, int l, const char* f, va_list va) { next_dump_line(&dump_expect); custom2(m, l, f, va); }

static void dump()
{
    static const int sizes[] = { 16, 0, 1, 7, 8, 9, 15, 17, 31, 32, 33, 100, 300 };
    static const char* const prefixes[] = { NULL, "", "> ", "100% " };
    const int i = pick_mod(), level = pick_level();
    const bool en = enabled(i, level);
    size_t n = (size_t)sizes[sim::choose(13)];
    if (sim::choose(300) == 299) { n = 0x10000 + sim::choose(100); sim::probe("log.long_dump"); }
    const char* prefix = prefixes[sim::choose(4)];
    bool use_bytes = sim::choose(2);
    Expect& e = dump_expect;
    uint8_t* data = (uint8_t*)g_malloc(n + 1);
    const uint32_t x0 = sim::choose(256), x1 = 1 + sim::choose(255);
    for (size_t k = 0; k < n; k++) data[k] = (uint8_t)(n <= 300 ? sim::choose(256) : x0 + k * x1 + (k >> 8));
    begin(&e, i, level);
    sim::log("%*sdump of %d: module %d level %d to %s (%senabled)", depth * 2, "", (int)n, i, level, sink_name[e.sink], en ? "" : "not ");
    dump_lines.clear();
    if (en) for (size_t off = 0; off < n; off += 16) {
        std::string l = hexline(prefix, off, data + off, n - off);
        if (e.sink == STDOUT || e.sink == STDERR) { e.text = l; line_expected(&e, -1); }
        else if (e.sink != NOWHERE) dump_lines.push_back(l);
    }
    /* custom sinks are replaced for a while */
    world::on_syslog = dump_syslog;
    world::on_glog = dump_glib;
    GLogProc f = gutil_log_func;
    GLogProc2 f2 = gutil_log_func2, p2 = mod[i].m->log_proc;
    if (f == custom1) gutil_log_func = dump_custom1;
    if (f2 == custom2) gutil_log_func2 = dump_custom2;
    if (p2 == custom2) mod[i].m->log_proc = dump_custom2;
    bool q = quiet;
    quiet = true;
    if (use_bytes) {
        GBytes* b = g_bytes_new(data, n);
        gutil_log_dump_bytes(mod[i].m, level, prefix, b);
        g_bytes_unref(b);
        if (!sim::choose(8)) gutil_log_dump_bytes(mod[i].m, level, prefix, NULL);
    } else {
        gutil_log_dump(mod[i].m, level, prefix, data, n);
    }
    quiet = q;
    gutil_log_func = f;
    gutil_log_func2 = f2;
    mod[i].m->log_proc = p2;
    world::on_syslog = got_syslog;
    world::on_glog = got_glib;
    stack.pop_back();
    if (!dump_lines.empty()) sim::fail("C17,C16", "dump", "%d lines of a dump are missing", (int)dump_lines.size());
    sim::probe("log.dump");
    g_free(data);
}

static GLogProc2 proc2_of(Sink s)
{
    switch (s) {
    case STDOUT: return gutil_log_stdout2;
    case STDERR: return gutil_log_stderr2;
    case SYSLOG: return gutil_log_syslog2;
    case GLIB: return gutil_log_glib2;
    case CUSTOM2: return custom2;
    default: return NULL;
    }
}

static const char* pick_name(int i)
{
    static const char* const own[] = { "mod0", "mod1", "mod2", "mod3", "mod4", "mod5", "default", "macro" };
    switch (sim::choose(8)) {
    default: return own[i];
    case 4: return NULL;
    case 5: return "";
    case 6: return sim::choose(2) ? "a%sb%n" : "a name which is somewhat longer than names of modules use to be";
    case 7: {
        /* Same as another one's, or the default name, but not the same string */
        static char copy[10][8] = { "mod0", "mod1", "mod2", "mod3", "mod4", "mod5", "default", "macro", "app", "app" };
        return copy[sim::choose(10)];
    }
    }
}

static void set_format(const char* f)
{
    /* The library keeps a copy */
    char tmp[200];
    if (f) g_strlcpy(tmp, f, sizeof(tmp));
    gutil_log_set_timestamp_format(f ? tmp : NULL);
    memset(tmp, 'Z', sizeof(tmp) - 1);
    tmp[sizeof(tmp) - 1] = 0;
    ts_format = f ? f : "%Y-%m-%d %H:%M:%S ";
    ts_custom = f != NULL;
}

/* Configuration from the command line: [module:]level */
static void option()
{
    static const char* const lnames[] = { "none", "error", "warning", "info", "debug", "verbose" };
    GLogModule* list[NMOD + 2];
    int ids[NMOD + 2], n = 0;
    for (int j = 0; j < NMOD + 2; j++) if (mod[j].name && sim::choose(3)) {
        ids[n] = j;
        list[n++] = mod[j].m;
    }
    /* They are searched in the order given */
    if (n > 1 && sim::choose(2)) {
        int a = (int)sim::choose((uint32_t)n), b = (int)sim::choose((uint32_t)n);
        std::swap(ids[a], ids[b]);
        std::swap(list[a], list[b]);
    }
    std::string opt, lev;
    const bool has_mod = sim::choose(3) != 0;
    if (has_mod) {
        if (n && sim::choose(8)) opt = mod[ids[sim::choose((uint32_t)n)]].name;
        else opt = sim::choose(2) ? "nosuch" : "mod";
        switch (sim::choose(12)) {
        case 0: if (!opt.empty()) opt.resize(opt.size() - 1); break;
        case 1: opt += "x"; break;
        case 2: for (char& c : opt) c = g_ascii_toupper(c); break;
        case 3: if (!opt.empty()) opt[0] = g_ascii_toupper(opt[0]); break;
        }
    }
    const std::string name = opt;
    if (has_mod) opt += ":";
    switch (sim::choose(9)) {
    case 0: case 1: lev = (char)('0' + sim::choose(10)); break;
    case 2: case 3: case 4: lev = lnames[sim::choose(6)]; break;
    case 5: lev = lnames[sim::choose(6)]; lev.resize(1 + sim::choose((uint32_t)lev.size())); break;
    case 6: lev = lnames[sim::choose(6)]; lev += sim::choose(2) ? "s" : " "; break;
    case 7: {
        static const char* const bad[] = { "", "-1", "05", "10", "3 ", " 3", "x", "Info", "always", "inherit", "errror", "2:3", "/", ":" };
        lev = bad[sim::choose(14)];
        break;
    }
    case 8: lev = std::string(1 + sim::choose(3), (char)(1 + sim::choose(126))); break;
    }
    if (!has_mod && lev.find(':') != std::string::npos) return;
    opt += lev;
    /* What does this mean? */
    int level = -1;
    if (lev.size() == 1 && lev[0] >= '0' && lev[0] <= '5') level = lev[0] - '0';
    else if (!lev.empty()) for (int k = 0; k < 6 && level < 0; k++)
        if (!strncmp(lnames[k], lev.c_str(), lev.size())) level = k;
    int target = -1;
    if (!has_mod) target = NMOD;
    else for (int k = 0; k < n && target < 0; k++)
        if (!g_ascii_strcasecmp(mod[ids[k]].name, name.c_str())) target = ids[k];
    const bool good = level >= 0 && target >= 0;
    GError* err = NULL;
    const bool report = sim::choose(8) != 0;
    sim::log("%*soption \"%s\" for %d modules", depth * 2, "", shown(opt).c_str(), n);
    char* buf = g_strdup(opt.c_str());
    const bool ok = gutil_log_parse_option(buf, list, n, report ? &err : NULL);
    memset(buf, 'Z', opt.size());
    g_free(buf);
    sim::checked();
    if (ok != good) sim::fail("C28,C16", "option", "option \"%s\" was %s", shown(opt).c_str(), ok ? "accepted" : "rejected");
    if (report && ok != !err) sim::fail("C28,C16", "option-error", "option \"%s\" %s an error", shown(opt).c_str(), err ? "left" : "came without");
    if (err) g_error_free(err);
    if (good) {
        mod[target].level = level;
        if (has_mod) sim::probe("log.option_for_module");
        else sim::probe("log.option_for_default");
    } else {
        sim::probe(level < 0 ? "log.option_bad_level" : "log.option_bad_module");
    }
    for (int j = 0; j < NMOD + 2; j++) if (mod[j].m->level != mod[j].level)
        sim::fail("C28,C16", "option", "option \"%s\" has set the level of %d to %d", shown(opt).c_str(), j, mod[j].m->level);
}

/* What there's to choose from */
static void describe()
{
    static const char* const lnames[] = { "none", "error", "warning", "info", "debug", "verbose" };
    GLogModule* list[NMOD + 2];
    std::vector<std::string> want;
    for (int j = 0; j < NMOD + 2; j++) if (mod[j].name && sim::choose(3)) {
        list[want.size()] = mod[j].m;
        want.push_back(g_strstrip(std::string(mod[j].name).data()));
    }
    const bool none = !sim::choose(5);
    if (none) want.clear();
    sim::log("%*sdescription of %d modules", depth * 2, "", (int)want.size());
    char* text = gutil_log_description(none ? NULL : list, none ? (int)sim::choose(3) : (int)want.size());
    std::vector<std::string> lines;
    char** sv = g_strsplit(text, "\n", -1);
    for (char** p = sv; *p; p++) lines.push_back(g_strstrip(*p));
    g_strfreev(sv);
    /* The last one isn't necessarily complete */
    if (!lines.empty() && lines.back().empty()) lines.pop_back();
    sim::checked();
    size_t pos = 0;
    for (int k = 0; k < 6; k++) {
        const std::string num = std::to_string(k), name = lnames[k];
        while (pos < lines.size() && (lines[pos].compare(0, 1, num) || lines[pos].find(name) == std::string::npos)) pos++;
        if (pos++ >= lines.size()) sim::fail("C28", "description", "no level %d: \"%s\"", k, shown(text).c_str());
    }
    const size_t left = lines.size() - pos;
    bool ok = left >= want.size() && left <= want.size() + 2;
    for (size_t k = 0; ok && k < want.size(); k++) ok = lines[lines.size() - want.size() + k] == want[k];
    if (!ok) sim::fail("C28", "description", "wrong modules: \"%s\"", shown(text).c_str());
    g_free(text);
}

static void configure()
{
    static const char* const formats[] = { NULL, "", "%H:%M:%S ", "%s ", "%Y-%m-%d %H:%M:%S %j %U xxx ",
        "%Y-%m-%d %H:%M:%S %j %U xxxx ", "%Y-%m-%d %H:%M:%S %j %U xxxxx ", "x",
        "%A %B %d %Y %H:%M:%S and quite a bit more than that ", "100%% ", "%Y-%m-%d %H:%M:%S " };
    const int i = pick_mod();
    Mod* m = mod + i;
    switch (sim::choose(9)) {
    case 0:
        m->level = m->m->level = (int)sim::choose(8) - 1;
        sim::log("%*slevel of %d is %d", depth * 2, "", i, m->level);
        break;
    case 1:
        m->flags = m->m->flags = (int)(sim::choose(3) ? sim::choose(2) : sim::choose(4));
        sim::log("%*sflags of %d are %d", depth * 2, "", i, m->flags);
        break;
    case 2:
        if (i == NMOD) break;
        /* No loops: ancestors have lower numbers */
        m->parent = (int)sim::choose((uint32_t)i + 2) - 1;
        if (m->parent == i || m->parent > NMOD) m->parent = NMOD;
        m->m->parent = m->parent < 0 ? NULL : mod[m->parent].m;
        sim::log("%*sparent of %d is %d", depth * 2, "", i, m->parent);
        break;
    case 3: {
        static const Sink own[] = { NOWHERE, NOWHERE, CUSTOM2, STDOUT, STDERR, SYSLOG, GLIB };
        m->sink = own[sim::choose(7)];
        m->m->log_proc = proc2_of(m->sink);
        sim::log("%*s%d logs to %s", depth * 2, "", i, sink_name[m->sink]);
        break;
    }
    case 4:
        if (i == NMOD + 1) break;
        m->m->name = m->name = pick_name(i);
        sim::log("%*sname of %d is %s", depth * 2, "", i, m->name ? m->name : "(none)");
        break;
    case 5:
        if (sim::choose(3)) {
            static const char* const types[] = { "stdout", "stderr", "syslog", "glib", "STDOUT", "StdErr", "SysLog", "GLIB" };
            static const Sink sinks[] = { STDOUT, STDERR, SYSLOG, GLIB };
            static const char* const names[] = { NULL, "app", "", "default" };
            const int t = (int)sim::choose(8);
            const char* name = names[sim::choose(4)];
            sim::checked();
            sim::log("%*slog type %s, name %s", depth * 2, "", types[t], name ? name : "unchanged");
            if (!gutil_log_set_type(types[t], name)) sim::fail("C16", "set-type", "type %s not accepted", types[t]);
            func = sinks[t & 3];
            if (name) mod[NMOD].name = name;
            if (gutil_log_default.name != mod[NMOD].name) sim::fail("C16", "default-name", "default name is %s", gutil_log_default.name);
            if (strcmp(gutil_log_get_type(), types[t & 3])) sim::fail("C16", "get-type", "type is %s", gutil_log_get_type());
        } else if (sim::choose(2)) {
            if (gutil_log_set_type(sim::choose(2) ? "std" : "syslogg", NULL)) sim::fail("C16", "set-type", "bad type accepted");
        } else {
            const bool none = !sim::choose(4);
            gutil_log_func = none ? NULL : custom1;
            func = none ? NOWHERE : CUSTOM;
            sim::log("%*sglobal sink: %s", depth * 2, "", sink_name[func]);
            if (strcmp(gutil_log_get_type(), GLOG_TYPE_CUSTOM)) sim::fail("C16", "get-type", "type is %s", gutil_log_get_type());
        }
        break;
    case 6: {
        static const int v[] = { 1, 1, 1, 2, 2, 0 };
        func2 = v[sim::choose(6)];
        gutil_log_func2 = func2 == 2 ? custom2 : func2 ? default_proc2 : NULL;
        sim::log("%*sglobal function %d", depth * 2, "", func2);
        break;
    }
    case 7:
        switch (sim::choose(4)) {
        case 0: gutil_log_timestamp = (gboolean)sim::choose(2); break;
        case 1: gutil_log_tid = (gboolean)sim::choose(2); break;
        default: set_format(formats[sim::choose(11)]); break;
        }
        sim::log("%*stimestamps %d \"%s\", tid %d", depth * 2, "", gutil_log_timestamp, ts_format.c_str(), gutil_log_tid);
        break;
    case 8: if (sim::choose(6)) option(); else describe(); break;
    }
}

static void action()
{
    static const int w[8] = { 12, 8, 3, 2, 3, 2, 1, 2 };
    switch (sim::pickw(w, 8)) {
    case 0: message(pick_mod(), pick_level()); break;
    case 1: configure(); break;
    case 2: macro(); break;
    case 3: assertion(); break;
    case 4: dump(); break;
    case 5: query(pick_mod(), pick_level()); break;
    case 7: if (sim::choose(8)) option(); else describe(); break;
    case 6: {
        static const int64_t steps[] = { 1, 59, 3600, 86400 * 29, 86400 * 400, -1, -86400, 999999 };
        world::step_real_ns(steps[sim::choose(8)] * 1000000000 + (int64_t)sim::choose(1000) * 1000000);
        sim::fault("clock_step");
        break;
    }
    }
}

static void reenter()
{
    if (depth >= 2) return;
    depth++;
    while (sim::flip(350)) {
        sim::probe("log.reentrant_action");
        sim::nontrivial();
        if (sim::choose(2)) configure();
        else if (sim::choose(2)) message(pick_mod(), pick_level());
        else macro();
    }
    depth--;
}

static void init_mods()
{
    static const char* const names[] = { "mod0", "mod1", "mod2", "mod3", "mod4", "mod5", NULL, "macro" };
    for (int i = 0; i < NMOD + 2; i++) {
        Mod* m = mod + i;
        m->m = i < NMOD ? mods + i : i == NMOD ? &gutil_log_default : &sim_log_macro_module;
        m->m->name = m->name = names[i];
        m->parent = -1;
        m->m->parent = NULL;
        m->sink = NOWHERE;
        m->m->log_proc = NULL;
        m->flags = m->m->flags = 0;
        m->level = m->m->level = i == NMOD ? GLOG_LEVEL_INFO : GLOG_LEVEL_INHERIT;
    }
    default_proc2 = gutil_log_func2;
    func2 = 1;
    func = STDOUT;
    gutil_log_func = gutil_log_stdout;
    gutil_log_timestamp = gutil_log_tid = FALSE;
    set_format(NULL);
}

static void run()
{
    FILE* o = stdout;
    FILE* e = stderr;
    init_mods();
    for (int i = 0; i < 2; i++) open_stream(i);
    stdout = streams[0].fp;
    stderr = streams[1].fp;
    world::on_syslog = got_syslog;
    world::on_glog = got_glib;
    const bool bad_streams = sim::faults_enabled() && sim::choose(3) == 1;
    while (sim::more(24)) {
        if (bad_streams) {
            const bool on = sim::choose(3) == 1;
            if (stream_faults && !on) { stream_faults = false; heal(); }
            stream_faults = on;
        }
        action();
        if (!stream_faults && sim::choose(2)) for (int i = 0; i < 2; i++) compare(streams + i);
        sim::state(sim::mix((uint64_t)func * 8 + (uint64_t)func2, (uint64_t)mod[NMOD].level + 16 * (uint64_t)mod[0].level));
    }
    sim::span();
    heal();
    /* Works again */
    message(0, GLOG_LEVEL_ERR);
    message(NMOD, GLOG_LEVEL_ALWAYS);
    for (int i = 0; i < 2; i++) compare(streams + i);
    stdout = o;
    stderr = e;
    for (int i = 0; i < 2; i++) fclose(streams[i].fp);
    world::on_syslog = NULL;
    world::on_glog = NULL;
    gutil_log_func = gutil_log_stdout;
    gutil_log_func2 = default_proc2;
    set_format(NULL);
    sim::nontrivial();
    sim::ledger_check("C17,C22");
}

/* ---- several threads ---- */

enum { MAX_THR = 4 };
struct Said { int to; int64_t t0, t1; bool tid; int tidno; const char* name; int level; std::string text; };
static std::deque<Said> said[MAX_THR];
static const char* open_name[MAX_THR];
static int nthr;
static int thr_sys[MAX_THR];
static std::vector<std::string> sys_lines;

static void thr_syslog(int, const char* text) { sys_lines.push_back(text); }

static void thr_body(gpointer arg)
{
    const int who = GPOINTER_TO_INT(arg);
    int n = 1 + (int)sim::choose(6), k = 0;
    while (n--) {
        Said s;
        s.to = (int)sim::choose(3);
        s.level = GLOG_LEVEL_ERR + (int)sim::choose(3);
        s.text = "<t" + std::to_string(who) + ":" + std::to_string(k++) + ">";
        static const int lens[] = { 0, 30, 505, 512, 900 };
        size_t len = (size_t)lens[sim::choose(5)];
        while (s.text.size() < len) s.text += (char)('a' + who);
        s.name = mods[who].name;
        s.t0 = world::real_ns() / 1000000000;
        s.tidno = world::current_tid();
        mods[who].log_proc = s.to == 0 ? gutil_log_stdout2 : s.to == 1 ? gutil_log_stderr2 : gutil_log_syslog2;
        s.t1 = -1;
        said[who].push_back(s);
        sim::log("thread %d says %d to %s", who, k - 1, s.to == 0 ? "stdout" : s.to == 1 ? "stderr" : "syslog");
        gutil_log(mods + who, s.level, "%s", s.text.c_str());
        said[who].back().t1 = world::real_ns() / 1000000000;
        if (sim::choose(2)) { world::step_real_ns((int64_t)sim::choose(3) * 700000000); }
        sched::yield();
    }
}

static void thr_match(int to, std::string out, const char* where)
{
    std::deque<Said*> q[MAX_THR];
    for (int t = 0; t < nthr; t++) for (auto& s : said[t]) if (s.to == to) q[t].push_back(&s);
    size_t pos = 0;
    while (pos < out.size()) {
        bool found = false;
        for (int t = 0; t < nthr && !found; t++) if (!q[t].empty()) {
            Said* s = q[t].front();
            int64_t last = gutil_log_timestamp ? s->t1 : s->t0;
            for (int64_t sec = s->t0; sec <= last && !found; sec++) {
                std::string l;
                if (gutil_log_tid) l = "[" + std::to_string(s->tidno) + "] ";
                l += timestamp(sec);
                l += std::string("[") + s->name + "] ";
                if (s->level == GLOG_LEVEL_WARN) l += "WARNING: ";
                if (s->level == GLOG_LEVEL_ERR) l += "ERROR: ";
                l += s->text + "\n";
                if (!out.compare(pos, l.size(), l)) {
                    pos += l.size();
                    q[t].pop_front();
                    found = true;
                    sim::checked();
                }
            }
        }
        if (!found) sim::fail("C17,C16", "threads", "%s: \"%s\" is not what any of the threads has to say", where, shown(out.substr(pos)).c_str());
    }
    for (int t = 0; t < nthr; t++) if (!q[t].empty())
        sim::fail("C17,C16", "threads", "%s: \"%s\" is missing", where, shown(q[t].front()->text).c_str());
}

static void run_threads()
{
    static const char* const names[] = { "t0", "t1", "t2", "t3" };
    FILE* o = stdout;
    FILE* e = stderr;
    init_mods();
    for (int i = 0; i < 2; i++) open_stream(i);
    stdout = streams[0].fp;
    stderr = streams[1].fp;
    world::on_syslog = thr_syslog;
    gutil_log_timestamp = (gboolean)sim::choose(2);
    gutil_log_tid = (gboolean)sim::choose(2);
    set_format(sim::choose(2) ? "%H:%M:%S " : NULL);
    nthr = 2 + (int)sim::choose(3);
    if (sim::faults_enabled()) sched::set_preemption(4 + 6 * (int)sim::choose(4), 20 << sim::choose(5));
    for (int t = 0; t < nthr; t++) sched::spawn(thr_body, GINT_TO_POINTER(t), names[t]);
    sched::run();
    for (int i = 0; i < 2; i++) {
        fflush(streams[i].fp);
        thr_match(i, streams[i].out, streams[i].name);
    }
    /* syslog lines */
    std::deque<Said*> q[MAX_THR];
    for (int t = 0; t < nthr; t++) for (auto& s : said[t]) if (s.to == 2) q[t].push_back(&s);
    for (auto& got : sys_lines) {
        bool found = false;
        for (int t = 0; t < nthr && !found; t++) if (!q[t].empty()) {
            Said* s = q[t].front();
            std::string l;
            if (gutil_log_tid) l = "[" + std::to_string(s->tidno) + "] ";
            l += std::string("[") + s->name + "] ";
            if (s->level == GLOG_LEVEL_WARN) l += "WARNING! ";
            if (s->level == GLOG_LEVEL_ERR) l += "ERROR! ";
            l += s->text;
            if (l == got) { found = true; q[t].pop_front(); sim::checked(); }
        }
        if (!found) sim::fail("C17,C16", "threads", "syslog: \"%s\" is not what any of the threads has to say", shown(got).c_str());
    }
    for (int t = 0; t < nthr; t++) if (!q[t].empty()) sim::fail("C17,C16", "threads", "syslog: \"%s\" is missing", shown(q[t].front()->text).c_str());
    stdout = o;
    stderr = e;
    for (int i = 0; i < 2; i++) fclose(streams[i].fp);
    world::on_syslog = NULL;
    gutil_log_timestamp = gutil_log_tid = FALSE;
    set_format(NULL);
    sim::nontrivial();
    sim::ledger_check("C17,C22");
}

} // namespace

SCENARIO(log, "log", "C16,C17,C28", run, "gutil_log.c, gutil_misc.c (hexdump)",
    "wall clock, thread ids, stdout and stderr streams (failing writes), syslog, GLib log writer")
SCENARIO(log_threads, "log_threads", PROPS, run_threads, "gutil_log.c",
    "thread scheduling (all switches decided by the seed), wall clock, thread ids, stdout and stderr streams, syslog")
