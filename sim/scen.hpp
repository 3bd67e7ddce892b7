#pragma once
#include "smt.hpp"
namespace sim {
Cnf read_cnf(std::string const& text);
int search_cnf(Case const& c, Cnf const& f, Session& ses, std::string& bad, std::string* assignment = nullptr);
int cnf_truth(Cnf const& f, uint64_t limit);
Case make_search(std::string const& prop, uint64_t seed, bool thorough);
void exec_search(Case const& c, Result& r, Logs& logs);
Case make_prop(std::string const& prop, uint64_t seed, bool thorough);
void exec_prop(Case const& c, Result& r, Logs& logs);
Case make_agree(uint64_t seed, bool thorough);
void exec_agree(Case const& c, Result& r, Logs& logs);
Case make_deliver(std::string const& prop, uint64_t seed, bool thorough);
void exec_deliver(Case const& c, Result& r, Logs& logs);
Case make_deliver_cnf(std::string const& prop, uint64_t seed, bool thorough);
void exec_deliver_cnf(Case const& c, Result& r, Logs& logs);
Case make_number(std::string const& prop, uint64_t seed, bool thorough);
void exec_number(Case const& c, Result& r, Logs& logs);
Case make_overlap(std::string const& prop, uint64_t seed, bool thorough);
void exec_overlap(Case const& c, Result& r, Logs& logs);
Case make_repeat(std::string const& prop, uint64_t seed, bool thorough);
void exec_repeat(Case const& c, Result& r, Logs& logs);
Case make_oom(std::string const& prop, uint64_t seed, bool thorough);
void exec_oom(Case const& c, Result& r, Logs& logs);
Case make_term(std::string const& prop, uint64_t seed, bool thorough);
void exec_term(Case const& c, Result& r, Logs& logs);
Case make_policy(std::string const& prop, uint64_t seed, bool thorough);
void exec_policy(Case const& c, Result& r, Logs& logs);
Case make_lib(std::string const& prop, uint64_t seed, bool thorough);
void exec_lib(Case const& c, Result& r, Logs& logs);
Case make_lra(std::string const& prop, uint64_t seed, bool thorough);
void exec_lra(Case const& c, Result& r, Logs& logs);
Case make_tool_options(uint64_t seed, bool thorough);
void exec_tool_options(Case const& c, Result& r, Logs& logs);
Case make_damage(std::string const& prop, uint64_t seed, bool thorough);
void exec_damage(Case const& c, Result& r, Logs& logs);
std::string cnf_layout(Case const& c);
Case make_lex(std::string const& prop, uint64_t seed, bool thorough);
void exec_lex(Case const& c, Result& r, Logs& logs);
Case make_damage_cnf(std::string const& prop, uint64_t seed, bool thorough);
void exec_damage_cnf(Case const& c, Result& r, Logs& logs);
} // namespace sim
