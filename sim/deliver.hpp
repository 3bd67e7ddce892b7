// shared by the scenarios that run the command-line tools
#pragma once
#include "smt.hpp"
#include "tool.hpp"
namespace sim {
std::vector<std::string> tokens(std::string const& t);
Delivery draw(Sched& s, std::string const& text, std::vector<size_t> const& spots);
std::vector<std::string> tool_args(Case const& c);
void note(Result& r, Tool_out const& t);
std::string clip(std::string const& s);
} // namespace sim
