// Driver for the parts of the library that are functions of their input:
// marshalling, unmarshalling, messages, framing, match rules, addresses,
// introspection.  Reads cases (one JSON object per line), writes observations.
#include "common.h"
#include "see.h"
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <memory>
#include <new>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <unistd.h>

namespace T = DBus::Type;

// Live heap octets, for "memory proportional to the input".
static size_t g_live, g_peak;
void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    g_live += malloc_usable_size(p);
    if (g_live > g_peak)
        g_peak = g_live;
    return p;
}
void operator delete(void* p) noexcept
{
    if (p)
        g_live -= malloc_usable_size(p);
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }

static size_t kib(size_t base) { return (g_peak - base) / 1024; }

// Exact-size heap copy, so that reading beyond the octets is noticed.
struct Exact {
    explicit Exact(const std::string& s)
        : n(s.size())
        , p((uint8_t*)malloc(n ? n : 1))
    {
        memcpy(p, s.data(), n);
    }
    ~Exact() { free(p); }
    size_t n;
    uint8_t* p;
};

static T::Generic decode(const std::string& sig, const std::string& data, size_t off, bool le, std::string* rest)
{
    Exact e(data);
    DBus::MessageIStream in(e.p, e.n, !le);
    std::vector<uint8_t> skip(off + 1);
    in.read(skip.data(), off);
    T::Generic g = T::create(sig);
    T::unmarshallData(g, in);
    if (rest)
        while (!in.empty())
            rest->push_back((char)in.read());
    return g;
}

static void opEnc(const js::value& c, js::object& o)
{
    T::Generic g = build(c.at("v"));
    say(g);
    o["sig"] = T::getMarshallingSignature(g);
    o["d"] = toRle(marshalAt(g, num(c, "off")));
}

static T::Generic wrapped(const T::Generic& g, const std::string& how)
{
    if (how == "copy") {
        T::Generic a = g;
        T::Generic b;
        b = a;
        a = T::Generic(T::Byte(1));
        return b;
    }
    if (how == "dict")
        return T::DictEntry(T::Byte(5), g);
    js::value dummy;
    if (how == "struct" || how == "array") {
        // typed add() exists for everything but arrays
#define TRY(X)                                                       \
    if (g.type() == typeid(T::X)) {                                  \
        if (how == "struct") {                                       \
            T::Struct s;                                             \
            s.add(T::Byte(5));                                       \
            s.add(boost::any_cast<const T::X&>(g));                  \
            return s;                                                \
        }                                                            \
        T::Array a;                                                  \
        a.add(boost::any_cast<const T::X&>(g));                      \
        a.add(boost::any_cast<const T::X&>(g));                      \
        return a;                                                    \
    }
        TRY(Byte)
        TRY(Boolean) TRY(Int16) TRY(Uint16) TRY(Int32) TRY(Uint32) TRY(Int64) TRY(Uint64) TRY(Double) TRY(String)
            TRY(ObjectPath) TRY(Signature) TRY(Variant) TRY(Struct) TRY(DictEntry)
#undef TRY
                throw Unsupported();
    }
    return g;
}

static void opDec(const js::value& c, js::object& o)
{
    std::string rest;
    T::Generic g = decode(str(c, "sig"), fromRle(c.at("d")), num(c, "off"), num(c, "le"), &rest);
    js::array t;
    say(g);
    tokens(g, t);
    o["toks"] = t;
    o["rest"] = toRle(rest);
    T::Generic w = wrapped(g, str(c, "wrap"));
    say(w);
    o["resig"] = T::getMarshallingSignature(w);
    o["re"] = toRle(marshalAt(w, num(c, "off2")));
}

static void opMal(const js::value& c, js::object& o)
{
    const std::string data = fromRle(c.at("d"));
    const std::string sig = str(c, "sig");
    const size_t base = g_peak = g_live;
    try {
        T::Generic g = decode(sig, data, num(c, "off"), num(c, "le"), nullptr);
        o["kib"] = kib(base);
        say(g);
    } catch (...) {
        o["kib"] = kib(base);
        throw;
    }
}

static void opOut(const js::value& c, js::object& o)
{
    namespace M = DBus::Message;
    const std::string kind = str(c, "kind"), dest = str(c, "dest");
    const uint32_t rs = (uint32_t)num(c, "rserial_hi") << 16 | (uint32_t)num(c, "rserial_lo");
    std::string d;
    uint32_t serial = 0;
    M::MethodCallIdentifier id(str(c, "path"), str(c, "iface"), str(c, "member"));
    if (kind == "call") {
        M::MethodCall m(id, params(c), (uint32_t)num(c, "flags"));
        serial = m.getSerial();
        d = m.marshall(dest);
        if (d != m.marshall(dest))
            o["unstable"] = true;
    } else if (kind == "return") {
        M::MethodReturn m(rs);
        for (auto& v : c.at("params").as_array())
            m.addParameter(build(v));
        serial = m.getSerial();
        d = m.marshall(dest);
    } else if (kind == "error") {
        M::Error m(rs, str(c, "ename"), str(c, "etext"));
        serial = m.getSerial();
        d = m.marshall(dest);
    } else {
        M::Signal m(id);
        for (auto& v : c.at("params").as_array())
            m.addParameter(build(v));
        serial = m.getSerial();
        d = m.marshall(dest);
    }
    o["d"] = toRle(d);
    o["serial"] = js::array { serial >> 24, (serial >> 16) & 255, (serial >> 8) & 255, serial & 255 };
}

struct Thrown : std::runtime_error {
    Thrown()
        : std::runtime_error("handler failure")
    {
    }
};

// Deliver a stream in chunks; report what each chunk delivered.
static std::unique_ptr<DBus::Native> g_native;
static void opFrame(const js::value& c, js::object& o)
{
    const bool full = num(c, "full"), native = str(c, "via") == "native";
    const std::string d = fromRle(c.at("d"));
    std::vector<std::string> bad;
    for (auto& s : c.at("throws").as_array())
        bad.push_back(std::string("serial ") + s.as_string().c_str());
    auto log = std::make_shared<js::array>();
    js::array per;
    auto rec = [&](js::array a) {
        js::value serial = a[1];
        log->push_back(std::move(a));
        for (auto& b : bad)
            if (serial.as_string() == b)
                throw Thrown();
    };
    const size_t b0 = g_peak = g_live;
    DBus::MessageProtocol p;
    std::function<void(DBus::OctetBuffer&)> feed;
    if (native) {
        g_native.reset(new DBus::Native(getenv("VERIF_SOCKET")));
        for (auto& n : c.at("calls").as_array())
            g_native->registerMethodCallHandler(n.as_string().c_str(),
                [=](const DBus::Message::MethodCall& m) { rec(see(m, full)); });
        for (auto& n : c.at("signals").as_array())
            g_native->registerSignalHandler(n.as_string().c_str(),
                [=](const DBus::Message::Signal& m) { rec(see(m, full)); });
        feed = [&](DBus::OctetBuffer& b) { g_native->onReceiveMessageData(b); };
    } else {
        p.setMethodCallHandler([&](const DBus::Message::MethodCall& m) { rec(see(m, full)); });
        p.setMethodReturnHandler([&](const DBus::Message::MethodReturn& m) { rec(see(m, full)); });
        p.setErrorHandler([&](const DBus::Message::Error& m) { rec(see(m, full)); });
        p.setSignalHandler([&](const DBus::Message::Signal& m) { rec(see(m, full)); });
        feed = [&](DBus::OctetBuffer& b) {
            try {
                p.onReceiveData(b);
            } catch (const std::exception&) {
                p.reset(); // as the connection does
            }
        };
    }
    size_t pos = 0;
    for (auto& n : c.at("chunks").as_array()) {
        const size_t k = n.to_number<size_t>();
        {
            Exact e(d.substr(pos, k));
            DBus::OctetBuffer b(e.p, e.n);
            log->clear();
            feed(b);
        }
        pos += k;
        per.push_back(*log);
    }
    o["kib"] = kib(b0);
    g_native.reset();
    o["per"] = per;
}

static void opRule(const js::value& c, js::object& o)
{
    const std::string text = fromRle(c.at("rule"));
    std::unique_ptr<DBus::MatchRule> rule;
    int invoked = 0;
    bool threw = false;
    try {
        rule.reset(new DBus::MatchRule(text, [&](const DBus::Message::Signal&) { ++invoked; }));
    } catch (const std::exception&) {
        threw = true;
    }
    o["reject"] = threw;
    js::array res;
    if (rule) {
        DBus::MatchRule copy(*rule);
        DBus::MessageProtocol p;
        p.setSignalHandler([&](const DBus::Message::Signal& m) {
            bool a = rule->isMatched(m), b = copy.isMatched(m);
            res.push_back(a == b ? (a ? "yes" : "no") : "unstable");
            int before = invoked;
            copy.invoke(m);
            if (invoked != before + 1)
                res.push_back("not invoked");
        });
        for (auto& s : c.at("signals").as_array()) {
            const size_t before = res.size();
            Exact e(fromRle(s));
            DBus::OctetBuffer b(e.p, e.n);
            try {
                p.onReceiveData(b);
            } catch (const std::exception&) {
                res.push_back("throw");
            }
            if (res.size() == before)
                res.push_back("exception"); // swallowed by the protocol
        }
    }
    o["res"] = res;
}

static void opAddr(const js::value& c, js::object& o)
{
    const std::string text = fromRle(c.at("addr"));
    const bool none = num(c, "none");
    const char* p = none ? nullptr : text.c_str();
    o["system"] = toRle(DBus::Platform::getSystemBus(p));
    o["session"] = toRle(DBus::Platform::getSessionBus(p));
    if (p) {
        setenv("DBUS_SYSTEM_BUS_ADDRESS", p, 1);
        setenv("DBUS_SESSION_BUS_ADDRESS", p, 1);
    } else {
        unsetenv("DBUS_SYSTEM_BUS_ADDRESS");
        unsetenv("DBUS_SESSION_BUS_ADDRESS");
    }
    o["envsystem"] = toRle(DBus::Platform::getSystemBus());
    o["envsession"] = toRle(DBus::Platform::getSessionBus());
    if (num(c, "connect")) {
        // is the socket that is named the one that is reached?
        const std::string name = fromRle(c.at("listen"));
        sockaddr_un a {};
        a.sun_family = AF_UNIX;
        memcpy(a.sun_path, name.data(), name.size());
        int s = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
        if (bind(s, (sockaddr*)&a, offsetof(sockaddr_un, sun_path) + name.size() + (name[0] ? 1 : 0)) || listen(s, 1)) {
            perror("bind");
            _exit(2);
        }
        bool reached = false;
        try {
            DBus::Native n(DBus::Platform::getSessionBus());
            int t = accept(s, nullptr, nullptr);
            reached = t >= 0;
            if (reached)
                close(t);
        } catch (const std::exception&) {
        }
        close(s);
        o["connected"] = reached;
    }
}

static void opXml(const js::value& c, js::object& o)
{
    namespace I = DBus::Introspectable;
    I::Introspection root;
    for (auto& f : c.at("ifaces").as_array()) {
        I::Interface face(str(f, "name"));
        for (auto& x : f.at("items").as_array()) {
            const std::string k = str(x, "k");
            if (k == "p") {
                const std::string a = str(x, "access");
                if (a == "default")
                    face.addProperty(I::Property(str(x, "name"), str(x, "type")));
                else
                    face.addProperty(I::Property(str(x, "name"), str(x, "type"),
                        a == "read" ? (size_t)I::Property::PROPERTY_READ
                                    : a == "write" ? (size_t)I::Property::PROPERTY_WRITE : (size_t)I::Property::PROPERTY_READWRITE));
            } else if (k == "m")
                face.addMethod(I::Method(str(x, "name"), str(x, "in"), str(x, "out")));
            else
                face.addSignal(I::Signal(str(x, "name"), str(x, "type")));
        }
        root.addInterface(face);
    }
    o["xml"] = root.serialize();
}


static void onHang(int)
{
    static const char m[] = "@@HANG\n";
    if (write(2, m, sizeof m - 1)) { }
    _exit(77);
}

int main(int argc, char** argv)
{
    if (argc < 3)
        return 2;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "a");
    const int limit = argc > 3 ? atoi(argv[3]) : 10;
    signal(SIGALRM, onHang);
    stderr = fopen("/dev/null", "w"); // where the library writes its log

    int lis = -1;
    if (const char* path = getenv("VERIF_SOCKET")) {
        lis = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un a {};
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, path, sizeof a.sun_path - 1);
        unlink(path);
        if (bind(lis, (sockaddr*)&a, sizeof a) || listen(lis, 8))
            return 2;
    }
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty())
            continue;
        js::parse_options po;
        po.max_depth = 1000;
        js::value c = js::parse(line, {}, po);
        js::object o;
        const std::string op = str(c, "op");
        buildWay = (int)num(c, "way");
        sayToo = (int)num(c, "say");
        DBus::Log::setLevel(num(c, "log", 9));
        alarm(limit);
        try {
            o["r"] = "val";
            if (op == "enc")
                opEnc(c, o);
            else if (op == "dec")
                opDec(c, o);
            else if (op == "mal")
                opMal(c, o);
            else if (op == "out")
                opOut(c, o);
            else if (op == "frame") {
                opFrame(c, o);
                int s;
                if (str(c, "via") == "native" && lis >= 0 && (s = accept(lis, nullptr, nullptr)) >= 0)
                    close(s);
            } else if (op == "rule")
                opRule(c, o);
            else if (op == "addr")
                opAddr(c, o);
            else if (op == "xml")
                opXml(c, o);
            else
                o["r"] = "badop";
        } catch (const Unsupported&) {
            o["r"] = "unsupported";
        } catch (const std::exception& e) {
            o["r"] = "throw";
            o["what"] = e.what();
        } catch (...) {
            o["r"] = "throw";
            o["what"] = "?";
        }
        alarm(0);
        js::object res;
        res["id"] = c.at("id");
        res["obs"] = o;
        std::string text = js::serialize(res) + "\n";
        fwrite(text.data(), 1, text.size(), out);
        fflush(out);
    }
    fclose(out);
    return 0;
}
