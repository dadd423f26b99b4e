// The server's log file is not part of any property: nothing is written to disk while exploring.
#pragma once
#include "logger.h"
namespace hlasm_plugin::language_server {
logger::logger() {}
logger::~logger() {}
void logger::log(const std::string&) {}
void logger::log(const char*) {}
std::string logger::current_time() { return {}; }
} // namespace hlasm_plugin::language_server
