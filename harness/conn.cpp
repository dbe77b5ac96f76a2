// Drives one connection after another through recorded histories: a scripted
// application and a scripted bus on the other end of a Unix socket.  Every
// event that can be seen from outside is recorded, in order.
#include "common.h"
#include "see.h"
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstddef>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <poll.h>
#include <dirent.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <linux/sockios.h>
#include <thread>
#include <unistd.h>

namespace M = DBus::Message;
typedef std::chrono::steady_clock Clock;

// -------------------------------------------------------------------------
// What the client's thread is doing

static std::atomic<int> g_waiting { 0 };       // in epoll_wait
static std::atomic<int> g_epfd { -1 };
static std::atomic<long> g_turns { 0 };        // times it has left epoll_wait
static std::atomic<int> g_threads { 0 };       // threads that have ever waited and live
static std::atomic<long> g_seen { 0 };
static thread_local struct Mark {
    bool used = false;
    ~Mark()
    {
        if (used)
            --g_threads;
    }
} t_mark;

extern "C" int epoll_wait(int epfd, struct epoll_event* ev, int n, int timeout)
{
    if (!t_mark.used) {
        t_mark.used = true;
        ++g_threads;
        ++g_seen;
    }
    if (timeout != 0) {
        g_epfd = epfd;
        g_waiting = 1;
    }
    int r = (int)syscall(SYS_epoll_pwait, epfd, ev, n, timeout, nullptr, 8);
    if (timeout != 0) {
        g_waiting = 0;
        ++g_turns;
    }
    return r;
}

// -------------------------------------------------------------------------
// The client's socket: short and refused writes, a small buffer

static std::atomic<int> g_client { -1 };
static std::vector<int> g_throttle;
static size_t g_writes;
static std::mutex g_throttleLock;
static int g_sndbuf;

// Octets this write may take: -1 none now, 0 no limit.
static int allowance(int fd)
{
    if (fd != g_client || g_throttle.empty())
        return 0;
    std::lock_guard<std::mutex> l(g_throttleLock);
    return g_throttle[g_writes++ % g_throttle.size()];
}
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n)
{
    g_client = fd;
    if (g_sndbuf)
        setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &g_sndbuf, sizeof g_sndbuf);
    return (int)syscall(SYS_connect, fd, a, n);
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
    int k = allowance(fd);
    if (k < 0) {
        errno = EAGAIN;
        return -1;
    }
    if (k == 0)
        return syscall(SYS_sendmsg, fd, m, flags);
    msghdr h = *m;
    std::vector<iovec> v(m->msg_iov, m->msg_iov + m->msg_iovlen);
    size_t left = k;
    for (auto& i : v) {
        i.iov_len = std::min(i.iov_len, left);
        left -= i.iov_len;
    }
    h.msg_iov = v.data();
    return syscall(SYS_sendmsg, fd, &h, flags);
}
extern "C" ssize_t sendto(int fd, const void* p, size_t n, int flags, const struct sockaddr* a, socklen_t l)
{
    int k = allowance(fd);
    if (k < 0) {
        errno = EAGAIN;
        return -1;
    }
    return syscall(SYS_sendto, fd, p, k ? std::min(n, (size_t)k) : n, flags, a, l);
}
extern "C" ssize_t send(int fd, const void* p, size_t n, int flags) { return sendto(fd, p, n, flags, nullptr, 0); }

// -------------------------------------------------------------------------
// Who we are

static uid_t g_uid;
extern "C" uid_t getuid() noexcept { return g_uid; }
extern "C" uid_t geteuid() noexcept { return g_uid; }

// -------------------------------------------------------------------------

struct Failure : std::runtime_error {
    Failure()
        : std::runtime_error("handler failure")
    {
    }
};

static js::array octets4(uint32_t x) { return js::array { x >> 24, (x >> 16) & 255, (x >> 8) & 255, x & 255 }; }

struct Bus {
    int lis = -1, fd = -1;
    std::string name, got; // got: drained, not reported
    bool hold = false, eof = false;

    void listenOn(const std::string& id)
    {
        name = std::string(1, '\0') + "verif-" + id;
        lis = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un a {};
        a.sun_family = AF_UNIX;
        memcpy(a.sun_path, name.data(), name.size());
        if (bind(lis, (sockaddr*)&a, offsetof(sockaddr_un, sun_path) + name.size()) || listen(lis, 4)) {
            perror("bind");
            _exit(2);
        }
    }
    void accept()
    {
        fd = ::accept(lis, nullptr, nullptr);
        fcntl(fd, F_SETFL, O_NONBLOCK);
        hold = eof = false;
        got.clear();
    }
    void close()
    {
        if (fd >= 0)
            ::close(fd);
        fd = -1;
    }
    // Octets read from the client now; 0 if none.
    size_t drain(size_t limit = (size_t)-1)
    {
        char buf[65536];
        size_t n = 0;
        while (fd >= 0 && !eof && n < limit) {
            ssize_t r = ::read(fd, buf, std::min(sizeof buf, limit - n));
            if (r > 0) {
                got.append(buf, r);
                n += r;
            } else {
                eof = r == 0 || (errno != EAGAIN && errno != EINTR);
                break;
            }
        }
        return n;
    }
    int unread()
    {
        int n = 0;
        if (fd < 0 || ioctl(fd, SIOCOUTQ, &n))
            return 0;
        return n;
    }
};

static Bus g_bus;
static js::array* g_log;
static std::mutex g_logLock;
static std::unique_ptr<DBus::Native> g_native;
static std::string g_wireSoFar; // everything the client has written

static void record(js::object e)
{
    std::lock_guard<std::mutex> l(g_logLock);
    g_log->push_back(std::move(e));
}

// Whether every thread but this one sleeps in the kernel.
static bool othersSleep()
{
    bool all = true;
    DIR* d = opendir("/proc/self/task");
    const int me = (int)syscall(SYS_gettid);
    while (dirent* e = d ? readdir(d) : nullptr) {
        const int tid = atoi(e->d_name);
        if (tid <= 0 || tid == me)
            continue;
        char path[64], buf[512];
        snprintf(path, sizeof path, "/proc/self/task/%d/stat", tid);
        int fd = ::open(path, O_RDONLY);
        if (fd < 0)
            continue;
        ssize_t r = syscall(SYS_read, fd, buf, sizeof buf - 1);
        ::close(fd);
        buf[r > 0 ? r : 0] = 0;
        const char* p = strrchr(buf, ')');
        all &= p && p[1] && p[2] != 'R' && p[2] != 'D';
    }
    if (d)
        closedir(d);
    return all;
}

// Nothing moves any more: the client's thread waits for events, there are
// none, it has read all that was sent, and we have read all that it wrote.
static bool quiesce()
{
    const auto start = Clock::now(), end = start + std::chrono::seconds(6);
    while (Clock::now() < end) {
        if (!g_bus.hold && g_bus.drain())
            continue;
        if (g_seen == 0 && Clock::now() - start > std::chrono::milliseconds(300) && g_bus.unread() == 0)
            return true; // it does not use epoll: a pause has to do
        const long turns = g_turns;
        const bool gone = g_seen > 0 && g_threads == 0;
        if (gone)
            return true;
        if (g_waiting) {
            pollfd p { g_epfd, POLLIN, 0 };
            if (g_bus.unread() == 0 && poll(&p, 1, 0) == 0 && g_waiting && g_turns == turns) {
                if (!g_bus.hold && g_bus.drain())
                    continue;
                // (woken, but not back from the kernel yet?)
                if (othersSleep() && g_turns == turns && g_waiting && g_bus.unread() == 0)
                    return true;
            }
        }
        usleep(20);
    }
    return false;
}

static void reportWire()
{
    js::object e;
    e["e"] = "wire";
    e["all"] = !g_bus.hold;
    e["d"] = toRle(g_bus.got);
    g_wireSoFar += g_bus.got;
    g_bus.got.clear();
    record(e);
}

// -------------------------------------------------------------------------
// The application

static const js::object* g_scripts;
static std::map<std::string, size_t> g_runs;
static std::map<std::string, uint32_t> g_serials; // operation id -> serial
static std::vector<std::string> g_sent;           // operation ids in the order of their messages
static std::map<std::string, std::pair<uint32_t, std::function<void()>>> g_kept; // messages that can be sent again
static void perform(const js::object& op);

static void invoked(const std::string& h, js::array see)
{
    js::object e;
    e["e"] = "enter";
    e["h"] = h;
    e["see"] = std::move(see);
    record(e);
    const size_t n = g_runs[h]++;
    bool fail = false;
    if (auto* s = g_scripts->if_contains(h))
        if (n < s->as_array().size())
            for (auto& op : s->as_array()[n].as_array())
                if (str(op, "f") == "throw")
                    fail = true;
                else
                    perform(op.as_object());
    e = js::object();
    e["e"] = "leave";
    e["h"] = h;
    record(e);
    if (fail)
        throw Failure();
}
template <class Msg> static std::function<void(const Msg&)> handler(const std::string& h)
{
    if (h == "none")
        return std::function<void(const Msg&)>();
    return [h](const Msg& m) { invoked(h, see(m, true)); };
}

static uint32_t be32(const js::value& c, const char* key)
{
    uint32_t x = 0;
    for (auto& b : c.at(key).as_array())
        x = x << 8 | b.to_number<uint32_t>();
    return x;
}

// The name of the text argument n of a bus operation.
static std::string arg(const js::object& op, size_t n) { return fromRle(op.at("args").as_array()[n].at("s")); }

static void perform(const js::object& op)
{
    const std::string f = str(op, "f"), id = str(op, "id");
    auto ok = handler<M::MethodReturn>(str(op, "ok"));
    auto err = handler<M::Error>(str(op, "err"));
    js::object e;
    e["e"] = "op";
    e["o"] = op;
    e["r"] = "ok";
    DBus::Native& n = *g_native;
    try {
        if (f == "auth")
            n.BeginAuth(num(op, "neg") ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
        else if (f == "regc")
            n.registerMethodCallHandler(str(op, "name"), handler<M::MethodCall>(str(op, "h")));
        else if (f == "regs")
            n.registerSignalHandler(str(op, "name"), handler<M::Signal>(str(op, "h")));
        else if (f == "unregc")
            n.unRegisterMethodCallHandler(str(op, "name"));
        else if (f == "unregs")
            n.unRegisterSignalHandler(str(op, "name"));
        else if (f == "addmatch") {
            n.callAddMatch(str(op, "text"), ok, err, handler<M::Signal>(str(op, "h")));
            g_sent.push_back(id);
        } else if (f == "remmatch") {
            g_sent.push_back(id);
            n.callRemoveMatch(str(op, "text"));
        } else if (f == "bus") {
            g_sent.push_back(id);
            const std::string m = str(op, "m");
            if (m == "Hello")
                n.callHello(ok, err);
            else if (m == "RequestName")
                n.callRequestName(arg(op, 0), be32(op.at("args").as_array()[1], "b"), ok, err);
            else if (m == "ReleaseName")
                n.callReleaseName(arg(op, 0), ok, err);
            else if (m == "ListQueuedOwners")
                n.callListQueuedOwners(arg(op, 0), ok, err);
            else if (m == "ListNames")
                n.callListNames(ok, err);
            else if (m == "ListActivatableNames")
                n.callListActivatableNames(ok, err);
            else if (m == "NameHasOwner")
                n.callNameHasOwner(arg(op, 0), ok, err);
            else if (m == "GetConnectionUnixProcessID")
                n.callGetUnixProcessId(arg(op, 0), ok, err);
            else if (m == "GetConnectionUnixUser")
                n.callGetConnectionUnixUser(arg(op, 0), ok, err);
        } else if (f == "call" || f == "send") {
            const js::value& c = op.at("c");
            const std::string kind = str(c, "kind"), dest = str(c, "dest");
            M::MethodCallIdentifier name(str(c, "path"), str(c, "iface"), str(c, "member"));
            uint32_t serial = 0;
            const bool keep = num(op, "keep");
            g_sent.push_back(id);
            if (op.if_contains("again")) {
                auto& k = g_kept.at(str(op, "again"));
                serial = k.first;
                k.second();
            } else if (kind == "call") {
                M::MethodCall m(name, params(c), (uint32_t)num(c, "flags"));
                g_serials[id] = serial = m.getSerial();
                n.sendMethodCall(dest, m, ok, err);
            } else if (kind == "return") {
                M::MethodReturn m(be32(c, "rserial"));
                for (auto& v : c.at("params").as_array())
                    m.addParameter(build(v));
                serial = m.getSerial();
                n.sendMethodReturn(dest, m);
                if (keep)
                    g_kept[id] = { serial, [=] { g_native->sendMethodReturn(dest, m); } };
            } else if (kind == "error") {
                M::Error m(be32(c, "rserial"), str(c, "ename"), str(c, "etext"));
                serial = m.getSerial();
                n.sendError(dest, m);
                if (keep)
                    g_kept[id] = { serial, [=] { g_native->sendError(dest, m); } };
            } else {
                M::Signal m(name);
                for (auto& v : c.at("params").as_array())
                    m.addParameter(build(v));
                serial = m.getSerial();
                if (dest.empty())
                    n.broadcastSignal(m);
                else
                    n.sendSignal(dest, m);
                if (keep)
                    g_kept[id] = { serial, [=] { dest.empty() ? g_native->broadcastSignal(m) : g_native->sendSignal(dest, m); } };
            }
            e["serial"] = octets4(serial);
        }
    } catch (const std::exception& x) {
        e["r"] = "throw";
        e["what"] = x.what();
    }
    record(e);
}

// -------------------------------------------------------------------------
// The bus

static uint32_t serialOf(const std::string& id)
{
    auto it = g_serials.find(id);
    if (it != g_serials.end())
        return it->second;
    // its message on the wire
    std::string w = g_wireSoFar + g_bus.got;
    size_t pos = w.find("BEGIN\r\n");
    if (pos == std::string::npos)
        return 0xeeeeeeee;
    pos += 7;
    for (size_t k = 0; k < g_sent.size() && pos + 16 <= w.size(); ++k) {
        auto u = [&](size_t at) { return (uint32_t)(uint8_t)w[at] | (uint8_t)w[at + 1] << 8 | (uint8_t)w[at + 2] << 16 | (uint32_t)(uint8_t)w[at + 3] << 24; };
        if (g_sent[k] == id)
            return u(pos + 8);
        pos += ((16 + u(pos + 12) + 7) & ~7u) + u(pos + 4);
    }
    return 0xeeeeeeee;
}

static std::string item(const js::value& it)
{
    std::string d = fromRle(it.at("d"));
    if (auto* ps = it.as_object().if_contains("patch"))
        for (auto& p : ps->as_array()) {
            const uint32_t s = serialOf(str(p, "op")) + (uint32_t)num(p, "add");
            const size_t off = num(p, "off");
            for (int i = 0; i < 4; ++i)
                d[off + i] = (char)(s >> (num(p, "le") ? 8 * i : 24 - 8 * i));
        }
    return d;
}

static bool g_closed;
static void sendChunk(const std::string& d)
{
    js::object e;
    e["e"] = "srv";
    e["d"] = toRle(d);
    record(e);
    size_t done = 0;
    const auto end = Clock::now() + std::chrono::seconds(6);
    while (done < d.size() && Clock::now() < end) {
        ssize_t r = syscall(SYS_sendto, g_bus.fd, d.data() + done, d.size() - done, MSG_NOSIGNAL, nullptr, 0);
        if (r > 0)
            done += r;
        else if (errno == EAGAIN) {
            if (!g_bus.hold)
                g_bus.drain();
            usleep(50);
        } else
            break;
    }
}

static bool serve(const js::value& step, bool& stuck)
{
    std::string all;
    for (auto& it : step.at("items").as_array())
        all += item(it);
    size_t pos = 0, k = 0;
    auto& cuts = step.at("cut").as_array();
    while (pos < all.size()) {
        size_t n = all.size() - pos;
        if (!cuts.empty())
            n = std::min(n, cuts[k++ % cuts.size()].to_number<size_t>());
        sendChunk(all.substr(pos, n));
        pos += n;
        if (!quiesce()) {
            stuck = true;
            return false;
        }
    }
    return true;
}

static void stats()
{
    js::object e;
    e["e"] = "stats";
    js::array v;
    std::istringstream in(g_native->getStats());
    std::string line;
    while (std::getline(in, line)) {
        size_t c = line.find(": ");
        if (c == std::string::npos)
            continue;
        size_t b = line.find_first_not_of(' ');
        v.push_back(js::array { line.substr(b, c - b), strtoll(line.c_str() + c + 2, nullptr, 10) });
    }
    e["v"] = v;
    record(e);
}

static void opConn(const js::value& c, js::object& o)
{
    js::array log;
    g_log = &log;
    g_runs.clear();
    g_serials.clear();
    g_sent.clear();
    g_kept.clear();
    g_wireSoFar.clear();
    static const js::object none;
    g_scripts = c.as_object().if_contains("scripts") ? &c.at("scripts").as_object() : &none;
    g_throttle.clear();
    g_writes = 0;
    if (auto* t = c.as_object().if_contains("throttle"))
        for (auto& k : t->as_array())
            g_throttle.push_back(k.to_number<int>());
    g_sndbuf = (int)num(c, "sndbuf");
    g_seen = g_threads = 0;
    g_waiting = 0;
    g_closed = false;
    bool stuck = false;

    g_native.reset(new DBus::Native(g_bus.name));
    g_bus.accept();
    stuck = !quiesce();
    reportWire();
    for (auto& s : c.at("steps").as_array()) {
        if (stuck)
            break;
        const std::string k = str(s, "k");
        if (k == "op")
            perform(s.at("o").as_object());
        else if (k == "srv")
            serve(s, stuck);
        else if (k == "stats")
            stats();
        else if (k == "hold")
            g_bus.hold = true;
        else if (k == "free")
            g_bus.hold = false;
        else if (k == "sip") // read a little, and hold on
            g_bus.drain(num(s, "n"));
        else if (k == "close" || k == "half") {
            js::object e;
            e["e"] = "close";
            if (k == "half")
                shutdown(g_bus.fd, SHUT_WR);
            else
                g_bus.close();
            record(e);
        } else if (k == "destroy") {
            auto t = Clock::now();
            g_native.reset();
            js::object e;
            e["e"] = "destroy";
            e["ms"] = std::chrono::duration_cast<std::chrono::milliseconds>(Clock::now() - t).count();
            record(e);
            break;
        }
        if (!quiesce())
            stuck = true;
        else
            reportWire();
    }
    if (stuck) {
        o["r"] = "hang";
        o["what"] = "the connection does not come to rest";
    }
    g_native.reset();
    usleep(0);
    g_bus.hold = false;
    g_bus.drain();
    o["log"] = log;
    g_bus.close();
}

static void onHang(int)
{
    static const char m[] = "@@HANG\n";
    if (write(2, m, sizeof m - 1)) { }
    _exit(77);
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "a");
    const int limit = argc > 3 ? atoi(argv[3]) : 10;
    signal(SIGALRM, onHang);
    stderr = fopen("/dev/null", "w"); // where the library writes its log
    signal(SIGPIPE, SIG_DFL);
    const char* sock = getenv("VERIF_SOCKET");
    g_bus.listenOn(std::to_string(getpid()) + "-" + std::to_string(Clock::now().time_since_epoch().count() % 1000000));
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty())
            continue;
        js::parse_options po;
        po.max_depth = 1000;
        js::value c = js::parse(line, {}, po);
        js::object o;
        g_uid = (uid_t)num(c, "uid", (int64_t)syscall(SYS_getuid));
        buildWay = (int)num(c, "way");
        sayToo = (int)num(c, "say");
        DBus::Log::setLevel(num(c, "log", 9));
        alarm(limit);
        o["r"] = "val";
        o["uid"] = std::to_string(g_uid);
        try {
            opConn(c, o);
        } catch (const std::exception& e) {
            o["r"] = "throw";
            o["what"] = e.what();
        }
        alarm(0);
        js::object res;
        res["id"] = c.at("id");
        res["obs"] = o;
        std::string text = js::serialize(res) + "\n";
        fwrite(text.data(), 1, text.size(), out);
        fflush(out);
    }
    fclose(out);
    return 0;
}
