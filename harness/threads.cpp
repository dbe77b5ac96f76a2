// Runs small concurrent programs against a scripted bus, under many schedules
// (turns.h), and reports what could be observed: one log for every distinct
// history.  Every run is a process of its own.
#include "common.h"
#include "turns.h"
#include <algorithm>
#include <csignal>
#include <cstddef>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

namespace M = DBus::Message;

// The driver's own code is no part of the program whose schedules are explored.
template <int level> struct Level {
    const int was = sched::quiet(level);
    ~Level() { sched::quiet(was); }
};
typedef Level<1> Quiet;
typedef Level<0> Loud;
static void turn()
{
    Loud l;
    sched::point();
}

// -------------------------------------------------------------------------
// The log: lines "class source json" in memory shared with the parent

struct Log {
    static const size_t Max = 1 << 20;
    size_t n;
    bool done;
    char text[Max];
};
static Log* g_log;
static void record(char cls, const std::string& source, const js::object& e)
{
    const std::string s = std::string(1, cls) + source + " " + js::serialize(e) + "\n";
    if (g_log->n + s.size() > Log::Max)
        return;
    memcpy(g_log->text + g_log->n, s.data(), s.size());
    g_log->n += s.size();
}
static void doom(const std::string& kind, const std::string& what)
{
    record('|', "doom", js::object { { "e", "doom" }, { "k", kind }, { "w", what } });
    g_log->done = true;
}
static void onSignal(int s)
{
    static const char* names[] = { "", "1", "2", "3", "ill", "trap", "abort", "bus", "fpe", "9", "usr1", "segv", "usr2", "pipe" };
    std::string l = "|doom {\"e\":\"doom\",\"k\":\"crash\",\"w\":\"signal ";
    l += s < 14 ? names[s] : "?";
    l += "\"}\n";
    memcpy(g_log->text + g_log->n, l.data(), l.size());
    g_log->n += l.size();
    g_log->done = true;
    _exit(4);
}
// sources compiled elsewhere may leave strings and numbers in JSON objects
static std::string who();

// -------------------------------------------------------------------------
// The world of one run

static const js::object* g_case;
static DBus::Native* g_native;
static int g_lis = -1, g_client = -1, g_peer = -1;
static std::string g_name;
static std::vector<int> g_throttle;
static size_t g_writes;
static int g_sndbuf;

struct Item {
    size_t end;       // octets of the client's stream up to its end
    std::string kind; // nul, line, msg, bad
    std::string id;
};
static std::string g_stream; // all that the client has written
static size_t g_parsed;
static bool g_begun, g_bad;
static std::vector<Item> g_items;
struct Op {
    std::string id, octets, member, arg;
    bool seen = false;
};
static std::vector<Op> g_ops; // in the order in which they began
static std::map<std::string, std::string> g_serials;
static std::vector<std::string> g_created;
static size_t g_sentToClient, g_authToClient;
static bool g_stop, g_hold, g_closed;

static uint32_t u32(const std::string& s, size_t at)
{
    return (uint8_t)s[at] | (uint8_t)s[at + 1] << 8 | (uint8_t)s[at + 2] << 16 | (uint32_t)(uint8_t)s[at + 3] << 24;
}

static void got(const std::string& kind, const std::string& id, const std::string& serial, size_t end)
{
    g_items.push_back({ end, kind, id });
    js::object x { { "t", kind } };
    if (kind == "line")
        x["s"] = id;
    else if (kind != "nul")
        x["id"] = id;
    js::object e { { "e", "got" }, { "x", x } };
    if (kind == "msg")
        e["n"] = serial;
    record('-', "wire", e);
}

// A string as it stands in a message.
static void put(std::string& s, uint32_t v);
static std::string text(const std::string& t)
{
    std::string s;
    put(s, t.size());
    return s + t + '\0';
}

// Items that are complete are recorded.
static void onWire(const char* p, size_t n)
{
    g_stream.append(p, n);
    while (!g_bad && g_parsed < g_stream.size()) {
        if (g_parsed == 0) {
            g_parsed = 1;
            if (g_stream[0])
                g_bad = true;
            got(g_bad ? "bad" : "nul", "first octet", "", 1);
        } else if (!g_begun) {
            const size_t e = g_stream.find("\r\n", g_parsed);
            if (e == std::string::npos)
                return;
            std::string line = g_stream.substr(g_parsed, e - g_parsed);
            if (line.find('\0') != std::string::npos)
                line = "?";
            for (char& c : line)
                if (c < 32 || c > 126)
                    c = '?';
            g_parsed = e + 2;
            g_begun = line == "BEGIN";
            got("line", line, "", g_parsed);
        } else {
            if (g_stream.size() - g_parsed < 16)
                return;
            const uint64_t size = ((16 + (uint64_t)u32(g_stream, g_parsed + 12) + 7) & ~7ULL) + u32(g_stream, g_parsed + 4);
            if (g_stream[g_parsed] != 'l' || size > (1 << 27)) {
                g_bad = true;
                got("bad", "not a message", "", g_stream.size());
                return;
            }
            if (g_stream.size() - g_parsed < size)
                return;
            const std::string m = g_stream.substr(g_parsed, size);
            const std::string serial = std::to_string(u32(m, 8));
            g_parsed += size;
            Op* op = nullptr;
            for (auto& o : g_ops)
                if (!op && !o.seen
                    && (o.octets.empty() ? m.find(text(o.member)) != std::string::npos && m.find(text(o.arg)) != std::string::npos : o.octets == m))
                    op = &o;
            if (!op)
                for (auto& o : g_ops) // once more?
                    if (!op && !o.octets.empty() && o.octets == m)
                        op = &o;
            if (!op) {
                g_bad = true;
                got("bad", "not what was sent", "", g_parsed);
                return;
            }
            op->seen = true;
            g_serials[op->id] = serial;
            got("msg", op->id, serial, g_parsed);
        }
    }
}

// -------------------------------------------------------------------------
// The client's socket

extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n)
{
    g_client = fd;
    if (g_sndbuf)
        setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &g_sndbuf, sizeof g_sndbuf);
    return (int)syscall(SYS_connect, fd, a, n);
}
static void waitFor(int fd, short what)
{
    if (sched::on() && !(fcntl(fd, F_GETFL) & O_NONBLOCK))
        sched::wait([fd, what] {
            pollfd p { fd, what, 0 };
            return (int)syscall(SYS_poll, &p, 1, 0) > 0;
        }, "the socket");
}
static ssize_t clientWrite(int fd, const struct iovec* v, size_t n, int flags)
{
    sched::point();
    Quiet q;
    waitFor(fd, POLLOUT);
    std::string d;
    for (size_t i = 0; i < n; ++i)
        d.append((const char*)v[i].iov_base, v[i].iov_len);
    int k = g_throttle.empty() || d.size() == 1 ? 0 : g_throttle[g_writes++ % g_throttle.size()];
    if (k < 0) {
        errno = EAGAIN;
        return -1;
    }
    if (k && (size_t)k < d.size())
        d.resize(k);
    ssize_t r = syscall(SYS_sendto, fd, d.data(), d.size(), flags, nullptr, 0);
    if (r > 0)
        onWire(d.data(), r);
    return r;
}
extern "C" {
ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
    return fd == g_client && sched::on() ? clientWrite(fd, m->msg_iov, m->msg_iovlen, flags) : syscall(SYS_sendmsg, fd, m, flags);
}
ssize_t sendto(int fd, const void* p, size_t n, int flags, const struct sockaddr* a, socklen_t l)
{
    iovec v { (void*)p, n };
    return fd == g_client && sched::on() ? clientWrite(fd, &v, 1, flags) : syscall(SYS_sendto, fd, p, n, flags, a, l);
}
ssize_t send(int fd, const void* p, size_t n, int flags) { return sendto(fd, p, n, flags, nullptr, 0); }
ssize_t write(int fd, const void* p, size_t n)
{
    iovec v { (void*)p, n };
    return fd == g_client && sched::on() ? clientWrite(fd, &v, 1, 0) : syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    return fd == g_client && sched::on() ? clientWrite(fd, v, n, 0) : syscall(SYS_writev, fd, v, n);
}
#define READING(fd)           \
    if (fd == g_client && sched::on()) { \
        sched::point();       \
        waitFor(fd, POLLIN);  \
    }
ssize_t recvmsg(int fd, struct msghdr* m, int flags)
{
    READING(fd)
    return syscall(SYS_recvmsg, fd, m, flags);
}
ssize_t recv(int fd, void* p, size_t n, int flags)
{
    READING(fd)
    return syscall(SYS_recvfrom, fd, p, n, flags, nullptr, nullptr);
}
ssize_t read(int fd, void* p, size_t n)
{
    READING(fd)
    return syscall(SYS_read, fd, p, n);
}
ssize_t readv(int fd, const struct iovec* v, int n)
{
    READING(fd)
    return syscall(SYS_readv, fd, v, n);
}
}

// -------------------------------------------------------------------------
// The application

static std::map<std::string, size_t> g_runs;
static thread_local int t_inHandler;
static std::string who() { return t_inHandler ? "io" : sched::self(); }
static void perform(const js::object& op);

struct Failure : std::runtime_error {
    Failure()
        : std::runtime_error("handler failure")
    {
    }
};

static void invoked(const std::string& h, uint32_t serial)
{
    Quiet q;
    ++t_inHandler;
    record('-', "io", js::object { { "e", "enter" }, { "h", h }, { "m", "m" + std::to_string(serial) } });
    turn();
    const size_t n = g_runs[h]++;
    bool fail = false;
    if (auto* all = g_case->if_contains("scripts"))
        if (auto* s = all->as_object().if_contains(h))
            if (n < s->as_array().size())
                for (auto& op : s->as_array()[n].as_array())
                    if (str(op, "f") == "throw")
                        fail = true;
                    else
                        perform(op.as_object());
    turn();
    turn();
    record('+', "io", js::object { { "e", "leave" }, { "h", h } });
    --t_inHandler;
    if (fail)
        throw Failure();
}
// A copy of it is what a registration refers to; it must be alive when invoked.
struct Handler {
    std::shared_ptr<int> alive;
    std::string h;
    Handler(const std::string& s)
        : alive(new int(1))
        , h(s)
    {
    }
    template <class Msg> void operator()(const Msg& m) const
    {
        const std::string name = h;
        invoked(name, m.getSerial());
    }
};
template <class Msg> static std::function<void(const Msg&)> handler(const std::string& h)
{
    return h == "none" || h.empty() ? std::function<void(const Msg&)>() : std::function<void(const Msg&)>(Handler(h));
}

static void stats()
{
    js::object v;
    std::string text;
    {
        Loud l;
        text = g_native->getStats();
    }
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        const size_t c = line.find(": ");
        if (c != std::string::npos) {
            const size_t b = line.find_first_not_of(' ');
            v[line.substr(b, c - b)] = strtoll(line.c_str() + c + 2, nullptr, 10);
        }
    }
    int unread = 0;
    if (g_peer >= 0)
        ioctl(g_peer, TIOCOUTQ, &unread);
    record('|', "stats", js::object { { "e", "stats" }, { "v", v }, { "read", g_sentToClient }, { "auth", g_authToClient }, { "sent", g_stream.size() } });
}

template <class Msg> static void created(const Msg& m)
{
    Quiet q;
    g_created.push_back(std::to_string(m.getSerial()));
}
static void announce(const std::string& id, const std::string& octets, const std::string& member = "", const std::string& arg = "")
{
    Op o;
    o.id = id;
    o.octets = octets;
    o.member = member;
    o.arg = arg;
    g_ops.push_back(o);
}
template <class Msg> static std::string expected(const Msg& m, const std::string& dest)
{
    Quiet q;
    return m.marshall(dest);
}

static void perform(const js::object& op)
{
    Quiet q;
    const std::string f = str(op, "f"), id = str(op, "id"), me = who();
    auto ok = handler<M::MethodReturn>(str(op, "ok"));
    auto err = handler<M::Error>(str(op, "err"));
    const std::string dest = str(op, "dest").empty() ? ":1.7" : str(op, "dest");
    std::unique_ptr<M::MethodCall> mc;
    std::unique_ptr<M::MethodReturn> mr;
    std::unique_ptr<M::Error> me_;
    std::unique_ptr<M::Signal> ms;
    const std::string kind = str(op, "kind");
    const std::string body(num(op, "size"), 'x');
    if (f == "call") {
        M::MethodCallParametersIn ps;
        if (!body.empty())
            ps.add(body);
        {
            Loud l;
            mc.reset(new M::MethodCall(M::MethodCallIdentifier("/o", "i.f", id), ps, num(op, "reply", 1) ? 0 : 1));
        }
        created(*mc);
        announce(id, expected(*mc, dest));
    } else if (f == "send") {
        if (kind == "return") {
            {
                Loud l;
                mr.reset(new M::MethodReturn((uint32_t)num(op, "to", 77)));
            }
            if (!body.empty())
                mr->addParameter(DBus::Type::String(body));
            created(*mr);
            announce(id, expected(*mr, dest));
        } else if (kind == "error") {
            {
                Loud l;
                me_.reset(new M::Error((uint32_t)num(op, "to", 77), "e.E", body));
            }
            created(*me_);
            announce(id, expected(*me_, dest));
        } else {
            {
                Loud l;
                ms.reset(new M::Signal(M::MethodCallIdentifier("/o", "i.f", id)));
            }
            if (!body.empty())
                ms->addParameter(DBus::Type::String(body));
            created(*ms);
            announce(id, expected(*ms, kind == "bcast" ? "" : dest));
        }
    } else if (f == "bus")
        announce(id, "", str(op, "m"), str(op, "arg"));
    else if (f == "addmatch")
        announce(id, "", "AddMatch", str(op, "text"));
    else if (f == "remmatch")
        announce(id, "", "RemoveMatch", str(op, "text"));
    record('+', me, js::object { { "e", "b" }, { "t", me }, { "o", op } });
    const int64_t t0 = sched::elapsed();
    std::string r = "ok";
    try {
        Loud l;
        if (f == "auth")
            g_native->BeginAuth(num(op, "neg") ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
        else if (f == "regc")
            g_native->registerMethodCallHandler(str(op, "name"), handler<M::MethodCall>(str(op, "h")));
        else if (f == "regs")
            g_native->registerSignalHandler(str(op, "name"), handler<M::Signal>(str(op, "h")));
        else if (f == "unregc")
            g_native->unRegisterMethodCallHandler(str(op, "name"));
        else if (f == "unregs")
            g_native->unRegisterSignalHandler(str(op, "name"));
        else if (f == "addmatch")
            g_native->callAddMatch(str(op, "text"), ok, err, handler<M::Signal>(str(op, "h")));
        else if (f == "remmatch")
            g_native->callRemoveMatch(str(op, "text"));
        else if (f == "call")
            g_native->sendMethodCall(dest, *mc, ok, err);
        else if (f == "send" && mr)
            g_native->sendMethodReturn(dest, *mr);
        else if (f == "send" && me_)
            g_native->sendError(dest, *me_);
        else if (f == "send" && kind == "bcast")
            g_native->broadcastSignal(*ms);
        else if (f == "send")
            g_native->sendSignal(dest, *ms);
        else if (f == "bus") {
            const std::string m = str(op, "m"), arg = str(op, "arg");
            if (m == "RequestName")
                g_native->callRequestName(arg, 0, ok, err);
            else if (m == "ReleaseName")
                g_native->callReleaseName(arg, ok, err);
            else if (m == "NameHasOwner")
                g_native->callNameHasOwner(arg, ok, err);
            else if (m == "Hello")
                g_native->callHello(ok, err);
        } else if (f == "new") {
            for (int i = 0; i < num(op, "n", 1); ++i) {
                if (i % 3 == 0)
                    created(M::Signal(M::MethodCallIdentifier("/o", "i.f", "S")));
                else if (i % 3 == 1)
                    created(M::MethodCall(M::MethodCallIdentifier("/o", "i.f", "C")));
                else
                    created(M::MethodReturn(9));
            }
        } else if (f == "getstats")
            (void)g_native->getStats();
        else if (f == "destroy") {
            delete g_native; // (a handler that is still running may use it)
            g_native = nullptr;
        }
    } catch (const std::exception& x) {
        r = "throw";
    }
    js::object e { { "e", "e" }, { "t", me }, { "r", r } };
    if (f == "destroy")
        e["ms"] = sched::elapsed() - t0;
    record('-', me, e);
    turn();
}

// -------------------------------------------------------------------------
// The bus

static void put(std::string& s, uint32_t v)
{
    for (int i = 0; i < 4; ++i)
        s += (char)(v >> (8 * i));
}
static void fieldOf(std::string& s, int code, char type, const std::string& v)
{
    while (s.size() % 8)
        s += '\0';
    s += (char)code;
    s += '\1';
    s += type;
    s += '\0';
    if (type == 'u')
        put(s, (uint32_t)std::stoul(v));
    else if (type == 'g') {
        s += (char)v.size();
        s += v;
        s += '\0';
    } else {
        put(s, v.size());
        s += v;
        s += '\0';
    }
}
static std::string message(const js::value& it)
{
    const int kind = (int)num(it, "kind");
    std::string fs, body, name = str(it, "name");
    if (kind == 1 || kind == 4) {
        const size_t dot = name.rfind('.');
        fieldOf(fs, 1, 'o', "/o");
        fieldOf(fs, 2, 's', name.substr(0, dot));
        fieldOf(fs, 3, 's', name.substr(dot + 1));
    } else {
        std::string to = str(it, "to");
        auto s = g_serials.find(to);
        fieldOf(fs, 5, 'u', s == g_serials.end() ? "4000000000" : s->second);
        if (kind == 3)
            fieldOf(fs, 4, 's', "e.E");
    }
    fieldOf(fs, 7, 's', ":1.9");
    if (size_t n = num(it, "size")) {
        fieldOf(fs, 8, 'g', "s");
        put(body, n);
        body += std::string(n, 'y') + '\0';
    }
    std::string m = "l";
    m += (char)kind;
    m += '\0';
    m += '\1';
    put(m, body.size());
    put(m, (uint32_t)std::stoul(str(it, "id").substr(1)));
    put(m, fs.size());
    m += fs;
    while (m.size() % 8)
        m += '\0';
    return m + body;
}

// Several items in one write; the first `cut` octets of it in a write of their own.
static bool g_writing; // what one thread of the bus writes is not interleaved with what another writes
static bool g_mute;    // nothing whole can be written any more
struct Writing {
    Writing()
    {
        sched::wait([] { return !g_writing; }, "the bus to write");
        g_writing = true;
    }
    ~Writing() { g_writing = false; }
};
static void serve(const std::vector<js::value>& items, size_t cut)
{
    Writing w;
    if (g_mute)
        return;
    std::string all;
    for (auto& it : items)
        all += it.as_object().contains("w") ? str(it, "w") + "\r\n" : message(it);
    size_t at = 0;
    if (cut > 0 && cut < all.size()) {
        if (g_peer < 0)
            return;
        turn();
        if (syscall(SYS_sendto, g_peer, all.data(), cut, MSG_NOSIGNAL, nullptr, 0) == (ssize_t)cut)
            g_sentToClient += cut;
        at = cut;
        turn();
    }
    if (g_peer < 0)
        return;
    for (auto& it : items) {
        js::object e { { "e", "srv" }, { "x", it } };
        record('+', "srv", e);
        if (it.as_object().contains("w"))
            g_authToClient += str(it, "w").size() + 2;
    }
    while (at < all.size() && g_peer >= 0) {
        ssize_t r = syscall(SYS_sendto, g_peer, all.data() + at, all.size() - at, MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0);
        if (r > 0) {
            at += r;
            g_sentToClient += r;
        } else if (errno == EAGAIN)
            sched::wait([] {
                pollfd p { g_peer, POLLOUT, 0 };
                return g_peer < 0 || (int)syscall(SYS_poll, &p, 1, 0) > 0;
            }, "the client to read");
        else
            break;
    }
    turn();
}
static std::vector<js::value> list(const js::value& v) { return std::vector<js::value>(v.as_array().begin(), v.as_array().end()); }

static void closePeer()
{
    if (g_peer < 0)
        return;
    Writing w;
    record('+', "srv", js::object { { "e", "close" } });
    ::close(g_peer);
    g_peer = -1;
    g_closed = true;
}

static bool g_beginSeen;
static void serverLoop(const js::object& s)
{
    Quiet q;
    size_t seen = 0, at = 0;
    char buf[4096];
    auto* replies = s.if_contains("replies");
    size_t auths = 0;
    for (;;) {
        sched::wait([] {
            if (g_stop || g_peer < 0)
                return true;
            if (g_hold)
                return false;
            pollfd p { g_peer, POLLIN, 0 };
            return (int)syscall(SYS_poll, &p, 1, 0) > 0;
        }, "the client");
        if (g_stop || g_peer < 0)
            return;
        ssize_t r = syscall(SYS_recvfrom, g_peer, buf, sizeof buf, MSG_DONTWAIT, nullptr, nullptr);
        if (r == 0 || (r < 0 && errno != EAGAIN))
            return;
        if (r > 0)
            seen += r;
        while (at < g_items.size() && g_items[at].end <= seen) {
            const Item it = g_items[at++];
            if (it.kind == "line" && it.id.compare(0, 4, "AUTH") == 0) {
                auto& a = s.at("auth").as_array();
                if (auths < a.size()) {
                    const size_t k = auths++;
                    serve(list(a[k]), 0);
                }
            } else if (it.kind == "line" && it.id == "NEGOTIATE_UNIX_FD")
                serve(list(s.at("neg")), 0);
            else if (it.kind == "line" && it.id == "BEGIN") {
                g_beginSeen = true;
                g_hold = num(s, "hold");
            } else if (it.kind == "msg" && replies)
                if (auto* l = replies->as_object().if_contains(it.id))
                    serve(list(*l), 0);
        }
    }
}
static void pusher(const js::object& s, const js::array& pushes)
{
    Quiet q;
    sched::wait([] { return g_beginSeen || g_stop || g_peer < 0; }, "BEGIN");
    for (auto& p : pushes) {
        if (g_stop || g_peer < 0)
            return;
        if (p.as_object().contains("close"))
            closePeer();
        else if (p.as_object().contains("half")) {
            Writing w;
            g_mute = true;
            record('+', "srv", js::object { { "e", "close" } });
            shutdown(g_peer, SHUT_WR);
            return;
        } else if (p.as_object().contains("part")) { // the beginning of a message
            Writing w;
            g_mute = true;
            std::string m = message(p.at("part"));
            m.resize(std::min(m.size() - 1, (size_t)num(p, "n", 1)));
            ssize_t r = syscall(SYS_sendto, g_peer, m.data(), m.size(), MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0);
            if (r > 0)
                g_sentToClient += r;
        } else if (p.as_object().contains("free"))
            g_hold = false;
        else
            serve(list(p.at("items")), num(p, "cut"));
        turn();
    }
}

// -------------------------------------------------------------------------
// Serials.  Which words of the program follow the serials that are given out?

extern "C" char __data_start, _end;
static std::vector<std::pair<volatile uint32_t*, uint32_t>> g_counters; // and by how much they are ahead
static uint32_t newSerial() { return M::MethodReturn(9).getSerial(); }
static void findCounters()
{
    newSerial();
    const uint32_t first = newSerial();
    uintptr_t from = ((uintptr_t)&__data_start + 3) & ~(uintptr_t)3;
    for (uintptr_t p = from; p + 4 <= (uintptr_t)&_end; p += 4)
        if (uint32_t ahead = *(volatile uint32_t*)p - first; ahead <= 1)
            g_counters.push_back({ (volatile uint32_t*)p, ahead });
    for (int round = 0; round < 30; ++round) {
        uint32_t last = 0;
        for (int k = 0; k <= round * 7 % 11; ++k)
            last = newSerial();
        std::vector<std::pair<volatile uint32_t*, uint32_t>> left;
        for (auto& c : g_counters)
            if (*c.first == last + c.second)
                left.push_back(c);
        g_counters.swap(left);
    }
}
// The state after so many messages: the last serial given out is `last`.
static void setCounters(uint32_t last)
{
    for (auto& c : g_counters)
        *c.first = last + c.second;
}
// Many messages, made by several threads that are left to themselves.
static void bulk(size_t n)
{
    std::vector<std::vector<uint32_t>> got(4);
    std::vector<std::thread> ts;
    for (auto& g : got)
        ts.emplace_back([&g, n] {
            for (size_t i = 0; i < n; ++i)
                g.push_back(i % 3 ? newSerial() : i % 2 ? M::Signal(M::MethodCallIdentifier("/o", "i.f", "S")).getSerial()
                                                        : M::MethodCall(M::MethodCallIdentifier("/o", "i.f", "C")).getSerial());
        });
    std::vector<uint32_t> all;
    for (auto& t : ts)
        t.join();
    for (auto& g : got)
        all.insert(all.end(), g.begin(), g.end());
    std::sort(all.begin(), all.end());
    const size_t zero = std::count(all.begin(), all.end(), 0u), count = all.size();
    all.erase(std::unique(all.begin(), all.end()), all.end());
    record('|', "bulk", js::object { { "e", "bulk" }, { "n", count }, { "distinct", all.size() }, { "zeros", zero } });
}

static void runOnce(const js::object& c, const sched::Plan& plan, sched::Shared* shared)
{
    g_case = &c;
    if (c.contains("last"))
        setCounters((uint32_t)std::stoul(str(c, "last")));
    if (c.contains("bulk")) {
        bulk(num(c, "bulk"));
        g_log->done = true;
        _exit(0);
    }
    if (auto* t = c.if_contains("throttle"))
        for (auto& k : t->as_array())
            g_throttle.push_back(k.to_number<int>());
    g_sndbuf = (int)num(c, "sndbuf");
    g_hold = false;
    sched::onDoom = doom;
    for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPIPE })
        signal(s, onSignal);
    alarm(20);
    signal(SIGALRM, onSignal);
    sched::begin(plan, shared);
    Quiet q;
    const js::object& srv = c.at("server").as_object();
    const js::array none;
    {
        Loud l;
        g_native = new DBus::Native(g_name);
    }
    g_peer = ::accept(g_lis, nullptr, nullptr);
    sched::spawn("server", [&] { serverLoop(srv); });
    if (srv.contains("push"))
        sched::spawn("pusher", [&] { pusher(srv, srv.at("push").as_array()); });
    if (c.contains("main"))
        for (auto& op : c.at("main").as_array())
            perform(op.as_object());
    if (num(c, "settle"))
        sched::rest();
    size_t k = 0;
    bool destroys = false;
    for (auto& t : c.at("threads").as_array()) {
        for (auto& op : t.as_array())
            destroys |= str(op, "f") == "destroy";
        sched::spawn("app" + std::to_string(++k), [&t] {
            Quiet q;
            for (auto& op : t.as_array())
                perform(op.as_object());
        });
    }
    sched::rest();
    if (!sched::finished("app") || !sched::waiting("a lock").empty()) {
        std::string w = "application not finished";
        for (const char* why : { "a lock", "a condition", "a value", "events", "the socket", "a thread" })
            if (!sched::waiting(why).empty())
                w += "; " + sched::waiting(why) + " waits for " + why;
        doom("dead", w);
        _exit(3);
    }
    if (!destroys) {
        record('|', "rest", js::object { { "e", "rest" }, { "left", g_stream.size() - g_parsed }, { "hold", g_hold } });
        if (!g_closed)
            stats();
        js::object d { { "f", "destroy" }, { "id", "destroy" } };
        perform(d);
    }
    sched::rest(); // nothing may happen any more
    g_stop = true;
    sched::rest();
    if (!sched::finished("io"))
        doom("dead", "threads of the connection remain");
    js::array s;
    for (auto& x : g_created)
        s.push_back(js::value(x));
    record('|', "fin", js::object { { "e", "fin" }, { "serials", s } });
    g_log->done = true;
    sched::end();
    _exit(0);
}

struct Line {
    char cls;
    std::string source, text;
};
// Adjacent events of which the order cannot matter are put into one order.
static std::string normal(const std::string& text)
{
    std::vector<Line> ls;
    std::istringstream in(text);
    std::string l;
    while (std::getline(in, l)) {
        const size_t sp = l.find(' ');
        ls.push_back({ l[0], l.substr(1, sp - 1), l.substr(sp + 1) });
    }
    for (size_t i = 0; i < ls.size();) {
        size_t j = i;
        while (j < ls.size() && ls[j].cls == ls[i].cls && ls[i].cls != '|')
            ++j;
        if (j > i)
            std::stable_sort(ls.begin() + i, ls.begin() + j, [](const Line& a, const Line& b) { return a.source < b.source; });
        i = std::max(j, i + 1);
    }
    std::string out;
    for (auto& x : ls)
        out += (out.empty() ? "" : ",") + x.text;
    return "[" + out + "]";
}

static double clockNow()
{
    timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// threads <cases> <out> <cpu> <seconds per case> <runs per case> <seed>
int main(int argc, char** argv)
{
    if (argc < 7)
        return 2;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "a");
    const int cpu = atoi(argv[3]);
    const double seconds = atof(argv[4]);
    const long runs = atol(argv[5]);
    const uint64_t seed0 = strtoull(argv[6], nullptr, 10);
    cpu_set_t set;
    CPU_ZERO(&set);
    CPU_SET(cpu % (int)sysconf(_SC_NPROCESSORS_ONLN), &set);
    sched_setaffinity(0, sizeof set, &set);
    rlimit nocore { 0, 0 };
    setrlimit(RLIMIT_CORE, &nocore);
    DBus::Log::setLevel(getenv("VERIF_LOG") ? atoi(getenv("VERIF_LOG")) : 9);
    g_log = (Log*)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto* shared = (sched::Shared*)mmap(nullptr, sizeof(sched::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_name = std::string(1, '\0') + "verif-t-" + std::to_string(getpid());
    g_lis = socket(AF_UNIX, SOCK_STREAM, 0);
    sockaddr_un a {};
    a.sun_family = AF_UNIX;
    memcpy(a.sun_path, g_name.data(), g_name.size());
    if (bind(g_lis, (sockaddr*)&a, offsetof(sockaddr_un, sun_path) + g_name.size()) || listen(g_lis, 4)) {
        perror("bind");
        return 2;
    }
    findCounters();
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty())
            continue;
        const js::value c = js::parse(line);
        memset(shared, 0, sizeof *shared);
        std::map<std::string, std::pair<long, std::string>> logs;
        const double start = clockNow();
        long done = 0, bad = 0;
        long lenS = 200, lenM = 1000;
        const long most = std::min(runs, (long)num(c, "runs", runs));
        for (long i = 0; i < most && clockNow() - start < seconds && bad < 4; ++i) {
            sched::Plan p;
            p.seed = seed0 * 1000003 + i;
            const long kind = i % 8;
            shared->learn = i < 6;
            p.lenSync = lenS;
            p.lenMem = lenM;
            if (kind < 2) {
                p.strategy = sched::WALK;
                p.pSync = kind ? 0.5 : 0.1;
                p.pMem = i % 16 < 8 ? 0 : 0.02;
            } else {
                p.strategy = sched::PCT;
                p.changeSync = kind == 2 ? 0 : kind < 6 ? 1 + (i / 8) % 3 : (i / 8) % 2;
                p.changeMem = kind < 6 ? 0 : 1 + (i / 16) % 2;
            }
            g_log->n = 0;
            g_log->done = false;
            pid_t pid = fork();
            if (pid == 0)
                runOnce(c.as_object(), p, shared);
            int st = 0;
            waitpid(pid, &st, 0);
            std::string text(g_log->text, g_log->n);
            if (!g_log->done)
                text += "|doom {\"e\":\"doom\",\"k\":\"crash\",\"w\":\"ended\"}\n";
            if (text.find("|doom") != std::string::npos)
                ++bad;
            else {
                lenS = std::max(lenS, shared->steps);
                lenM = std::max(lenM, shared->memSteps);
            }
            auto& l = logs[normal(text)];
            if (l.first++ == 0)
                l.second = std::to_string(p.strategy) + "/" + std::to_string(p.seed) + "/" + std::to_string(i);
            ++done;
            if (getenv("VERIF_SHOW"))
                fprintf(stderr, "%ld steps %ld %ld\n%s\n", i, shared->steps, shared->memSteps, text.c_str());
        }
        fprintf(out, "{\"counters\":%zu,\"id\":%s,\"runs\":%ld,\"steps\":%ld,\"mem\":%ld,\"logs\":[", g_counters.size(), js::serialize(c.at("id")).c_str(), done, lenS, lenM);
        bool first = true;
        for (auto& l : logs) {
            fprintf(out, "%s{\"n\":%ld,\"plan\":\"%s\",\"log\":%s}", first ? "" : ",", l.second.first, l.second.second.c_str(), l.first.c_str());
            first = false;
        }
        fprintf(out, "]}\n");
        fflush(out);
    }
    fclose(out);
    return 0;
}
