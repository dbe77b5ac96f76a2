#pragma once
#include "common.h"

// What a handler can see of a message.
static void base(const DBus::Message::Base& m, js::array& a, bool full)
{
    a.push_back(js::string("serial " + std::to_string(m.getSerial())));
    if (!full)
        return;
    a.push_back(js::string("path " + rleText(m.getHeaderPath())));
    a.push_back(js::string("interface " + rleText(m.getHeaderInterface())));
    a.push_back(js::string("member " + rleText(m.getHeaderMember())));
    a.push_back(js::string("sender " + rleText(m.getHeaderSender())));
    a.push_back(js::string("destination " + rleText(m.getHeaderDestination())));
    a.push_back(js::string("reply " + std::to_string(m.getReplySerial())));
    a.push_back(js::string(std::string("expected ") + (m.isReplyExpected() ? "1" : "0")));
    a.push_back(js::string("count " + std::to_string(m.getParameterCount())));
    for (size_t i = 0; i < m.getParameterCount(); ++i) {
        say(m.getParameter(i));
        tokens(m.getParameter(i), a);
    }
    for (size_t i : { m.getParameterCount(), m.getParameterCount() + 1, (size_t)-1 }) {
        bool threw = false;
        try {
            m.getParameter(i).empty();
        } catch (const std::exception&) {
            threw = true;
        }
        a.push_back(threw ? "throws" : "no throw");
    }
}

static js::array see(const DBus::Message::MethodCall& m, bool full)
{
    js::array a { "call" };
    base(m, a, full);
    if (full) {
        a.push_back(js::string("object " + rleText(m.getObject())));
        a.push_back(js::string("interface " + rleText(m.getInterface())));
        a.push_back(js::string("method " + rleText(m.getMethod())));
        a.push_back(js::string("name " + rleText(m.getFullName())));
    }
    return a;
}
static js::array see(const DBus::Message::MethodReturn& m, bool full)
{
    js::array a { "return" };
    base(m, a, full);
    if (full)
        a.push_back(js::string("to " + std::to_string(m.m_SerialReplyingTo)));
    return a;
}
static js::array see(const DBus::Message::Error& m, bool full)
{
    js::array a { "error" };
    base(m, a, full);
    if (full) {
        a.push_back(js::string("to " + std::to_string(m.getSerialOfReply())));
        a.push_back(js::string("text " + rleText(m.getMessage())));
    }
    return a;
}
static js::array see(const DBus::Message::Signal& m, bool full)
{
    js::array a { "signal" };
    base(m, a, full);
    return a;
}

static DBus::Message::MethodCallParametersIn params(const js::value& c)
{
    typedef DBus::Message::MethodCallParametersIn In;
    auto& vs = c.at("params").as_array();
    auto is = [&](size_t i, const char* t) { return str(vs[i], "t") == t; };
    auto word = [&](size_t i) {
        uint32_t x = 0;
        for (auto& b : vs[i].at("b").as_array())
            x = x << 8 | b.to_number<uint32_t>();
        return x;
    };
    if (buildWay & 16) {
        if (vs.size() == 1 && is(0, "s"))
            return In(fromRle(vs[0].at("s")));
        if (vs.size() == 2 && is(0, "s") && is(1, "u"))
            return In(fromRle(vs[0].at("s")), word(1));
        if (vs.size() == 1)
            return In(build(vs[0]));
    }
    In p;
    for (size_t i = 0; i < vs.size(); ++i)
        if ((buildWay & 16) && is(i, "s"))
            p.add(fromRle(vs[i].at("s")));
        else if ((buildWay & 16) && is(i, "u"))
            p.add(word(i));
        else if ((buildWay & 16) && is(i, "y"))
            p.add((uint8_t)word(i));
        else
            p.add(build(vs[i]));
    return p;
}
