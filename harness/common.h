// Shared by the drivers: JSON, octet strings as runs, values as spec terms.
#pragma once
#include <boost/json.hpp>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>

#include "dbus.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"

namespace js = boost::json;

std::string fromRle(const js::value& runs);
js::array toRle(const std::string& octets);
std::string rleText(const std::string& octets);

struct Unsupported {
};

// In which of the ways that the API offers values are built (bits, see build()).
extern int buildWay;
// Whether values are rendered as text before and after they are used.
extern int sayToo;
void say(const DBus::Type::Generic& g);
// A value of the specification (see spec/Wire.tla) built with the library's API.
DBus::Type::Generic build(const js::value& v);
// What the accessors report, as a flat list of strings (Wire.tla: Toks).
void tokens(const DBus::Type::Generic& g, js::array& out);
std::string marshalAt(const DBus::Type::Generic& g, size_t off);

std::string str(const js::value& v, const char* key);
int64_t num(const js::value& v, const char* key, int64_t dflt = 0);
