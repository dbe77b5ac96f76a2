#include "common.h"
#include "dbus_type_array.h"
#include "dbus_type_boolean.h"
#include "dbus_type_byte.h"
#include "dbus_type_dictentry.h"
#include "dbus_type_double.h"
#include "dbus_type_int16.h"
#include "dbus_type_int32.h"
#include "dbus_type_int64.h"
#include "dbus_type_objectpath.h"
#include "dbus_type_signature.h"
#include "dbus_type_string.h"
#include "dbus_type_struct.h"
#include "dbus_type_uint16.h"
#include "dbus_type_uint32.h"
#include "dbus_type_uint64.h"
#include "dbus_type_variant.h"
#include <cstring>

namespace T = DBus::Type;

std::string fromRle(const js::value& runs)
{
    std::string s;
    for (auto& r : runs.as_array()) {
        auto& p = r.as_array();
        s.append(p[1].to_number<size_t>(), (char)p[0].to_number<int>());
    }
    return s;
}

template <class F> static void eachRun(const std::string& o, F f)
{
    for (size_t i = 0; i < o.size();) {
        size_t j = i + 1;
        while (j < o.size() && o[j] == o[i])
            ++j;
        f((unsigned)(uint8_t)o[i], j - i);
        i = j;
    }
}

js::array toRle(const std::string& o)
{
    js::array a;
    eachRun(o, [&](unsigned b, size_t n) { a.push_back(js::array { b, n }); });
    return a;
}

std::string rleText(const std::string& o)
{
    std::string s;
    eachRun(o, [&](unsigned b, size_t n) { s += std::to_string(b) + "x" + std::to_string(n) + " "; });
    return s;
}

std::string str(const js::value& v, const char* key)
{
    auto* p = v.as_object().if_contains(key);
    return p && p->is_string() ? std::string(p->as_string().c_str()) : std::string();
}

int64_t num(const js::value& v, const char* key, int64_t dflt)
{
    auto* p = v.as_object().if_contains(key);
    if (!p)
        return dflt;
    if (p->is_bool())
        return p->as_bool();
    return p->to_number<int64_t>();
}

static uint64_t big(const js::value& v)
{
    uint64_t x = 0;
    for (auto& b : v.at("b").as_array())
        x = (x << 8) | b.to_number<uint64_t>();
    return x;
}

template <class C> static void addTo(C& c, const T::Generic& g)
{
#define ADD(X)                                     \
    if (g.type() == typeid(T::X)) {                \
        c.add(boost::any_cast<const T::X&>(g));    \
        return;                                    \
    }
    ADD(Byte) ADD(Boolean) ADD(Int16) ADD(Uint16) ADD(Int32) ADD(Uint32) ADD(Int64) ADD(Uint64)
        ADD(Double) ADD(String) ADD(ObjectPath) ADD(Signature) ADD(Variant) ADD(Struct) ADD(DictEntry)
#undef ADD
            throw Unsupported();
}

int buildWay = 0;
int sayToo = 0;
void say(const T::Generic& g)
{
    if (!sayToo)
        return;
    static volatile size_t n;
    const std::string a = T::toString(g), b = T::toString(g, "   ");
    n += a.size() + b.size();
    n += T::asString(g).size();
    if (T::toString(g) != a || T::toString(g, "   ") != b)
        throw std::runtime_error("two renderings differ");
}

T::Generic build(const js::value& v)
{
    const char t = v.at("t").as_string()[0];
    switch (t) {
    case 'y':
        return T::Byte((size_t)big(v));
    case 'b':
        return T::Boolean((uint32_t)big(v));
    case 'n':
        return T::Int16((int16_t)big(v));
    case 'q':
        return T::Uint16((uint16_t)big(v));
    case 'i':
        return T::Int32((int32_t)big(v));
    case 'u':
        return T::Uint32((uint32_t)big(v));
    case 'x':
        return T::Int64((int64_t)big(v));
    case 't':
        return T::Uint64((uint64_t)big(v));
    case 'd': {
        uint64_t x = big(v);
        double d;
        memcpy(&d, &x, 8);
        return T::Double(d);
    }
    case 's':
        return T::String(fromRle(v.at("s")));
    case 'o':
        return T::ObjectPath(fromRle(v.at("s")));
    case 'g':
        return T::Signature(fromRle(v.at("s")));
    case 'a': {
        T::Array a;
        if (!(buildWay & 1) || v.at("c").as_array().empty())
            a.setSignature("a" + str(v, "e"));
        for (auto& c : v.at("c").as_array())
            addTo(a, build(c));
        if (buildWay & 8) { // a copy that goes its own way
            T::Array b(a);
            b.add(T::Byte(1));
        }
        return a;
    }
    case '(': {
        T::Struct s;
        if (buildWay & 8) {
            s.add(T::Byte(1));
            s.clear();
        }
        for (auto& c : v.at("c").as_array())
            addTo(s, build(c));
        return s;
    }
    case '{': {
        auto& c = v.at("c").as_array();
        if ((buildWay & 4) && str(c[0], "t") == "s" && str(c[1], "t") == "u")
            return T::DictEntry(fromRle(c[0].at("s")), (uint32_t)big(c[1]));
        if ((buildWay & 4) && str(c[0], "t") == "s" && str(c[1], "t") == "s") {
            std::string x = fromRle(c[1].at("s"));
            return T::DictEntry(fromRle(c[0].at("s")), x);
        }
        if (buildWay & 2) {
            T::DictEntry d;
            d.set(build(c[0]), build(c[1]));
            return d;
        }
        return T::DictEntry(build(c[0]), build(c[1]));
    }
    case 'v': {
        T::Generic g = build(v.at("c").as_array()[0]);
        if (g.type() == typeid(T::String))
            return T::Variant(boost::any_cast<const T::String&>(g));
        if (g.type() == typeid(T::ObjectPath))
            return T::Variant(boost::any_cast<const T::ObjectPath&>(g));
        if (g.type() == typeid(T::Uint32))
            return T::Variant(boost::any_cast<const T::Uint32&>(g));
        if (g.type() == typeid(T::Signature))
            return T::Variant(boost::any_cast<const T::Signature&>(g));
        throw Unsupported();
    }
    }
    throw Unsupported();
}

std::string marshalAt(const T::Generic& g, size_t off)
{
    DBus::MessageOStream o;
    o.write(std::string(off, (char)0xAA));
    T::marshallData(g, o);
    return o.data.substr(off);
}

void tokens(const T::Generic& g, js::array& out)
{
    auto& ti = g.type();
    if (g.empty()) {
        out.push_back("empty");
        return;
    }
#define SCALAR(X, c)                                     \
    if (ti == typeid(T::X)) {                            \
        out.push_back(js::string(c ":" + T::asString(g))); \
        return;                                          \
    }
    if (ti == typeid(T::Byte)) {
        out.push_back(js::string("y:" + T::asString(g) + " " + std::to_string(T::asByte(g))));
        return;
    }
    if (ti == typeid(T::Uint32)) {
        out.push_back(js::string("u:" + T::asString(g) + " " + std::to_string(T::asUint32(g))));
        return;
    }
    SCALAR(Boolean, "b") SCALAR(Int16, "n") SCALAR(Uint16, "q") SCALAR(Int32, "i")
        SCALAR(Int64, "x") SCALAR(Uint64, "t")
#undef SCALAR
            if (ti == typeid(T::Double))
    {
        out.push_back(js::string("d:" + rleText(marshalAt(g, 0))));
        return;
    }
#define STRINGY(X, c)                                               \
    if (ti == typeid(T::X)) {                                       \
        out.push_back(js::string(c ":" + rleText(T::asString(g)))); \
        return;                                                     \
    }
    STRINGY(String, "s") STRINGY(ObjectPath, "o") STRINGY(Signature, "g")
#undef STRINGY
        if (ti == typeid(T::Array))
    {
        auto& a = T::refArray(g);
        out.push_back(js::string(a.getSignature()));
        for (auto& c : a.getContents())
            tokens(c, out);
        out.push_back("]");
        return;
    }
    if (ti == typeid(T::Struct)) {
        auto& s = T::refStruct(g);
        out.push_back("(");
        for (size_t i = 0; i < s.getEntries(); ++i)
            tokens(s[i], out);
        out.push_back(")");
        return;
    }
    if (ti == typeid(T::DictEntry)) {
        // No accessors: its encoding stands for its contents.
        out.push_back(js::string("{" + rleText(marshalAt(g, 0))));
        return;
    }
    if (ti == typeid(T::Variant)) {
        out.push_back("v");
        tokens(T::refVariant(g).getValue(), out);
        return;
    }
    out.push_back("?");
}
