#include "scen.hpp"

namespace sim {

Case make_case(std::string const& prop, uint64_t seed, bool thorough)
{
    Rng r(mix(seed, 0xd15));
    if (prop == "C01") return make_prop(prop, seed, thorough);
    if (prop == "C13") return make_deliver(prop, seed, thorough);
    if (prop == "C14") return make_deliver_cnf(prop, seed, thorough);
    if (prop == "C18") return make_number(prop, seed, thorough);
    if (prop == "C16") return make_overlap(prop, seed, thorough);
    if (prop == "C10") return make_repeat(prop, seed, thorough);
    if (prop == "C15") return make_oom(prop, seed, thorough);
    if (prop == "C19" || prop == "C23" || (prop == "C12" && r.chance(1, 2))) return make_lra(prop, seed, thorough);
    if (prop == "C25") return make_term(prop, seed, thorough);
    if (prop == "C20") return make_policy(prop, seed, thorough);
    if (prop == "C07" && r.chance(1, 3)) return make_lra(prop, seed, thorough);
    if (prop == "C26") return make_damage_cnf(prop, seed, thorough);
    if (prop == "C27") return make_lib(prop, seed, thorough);
    if (prop == "C21") return make_lex(prop, seed, thorough);
    if (prop == "C22") return make_damage(prop, seed, thorough);
    if (prop == "C24" && r.chance(1, 8)) return make_tool_options(seed, thorough);
    if (prop == "C24" && r.chance(1, 4)) return make_prop(prop, seed, thorough);
    if (prop == "C11") return make_agree(seed, thorough);
    if ((prop == "C05" || prop == "C06" || prop == "C07" || prop == "C08" || prop == "C09") && r.chance(1, 4)) return make_prop(prop, seed, thorough);
    return make_search(prop, seed, thorough);
}

void exec_case(Case const& c, Result& r, Logs& logs)
{
    if (c.scen == "script") exec_search(c, r, logs);
    else if (c.scen == "clauses") exec_prop(c, r, logs);
    else if (c.scen == "agree") exec_agree(c, r, logs);
    else if (c.scen == "deliver") exec_deliver(c, r, logs);
    else if (c.scen == "deliver-cnf") exec_deliver_cnf(c, r, logs);
    else if (c.scen == "numbers") exec_number(c, r, logs);
    else if (c.scen == "overlap") exec_overlap(c, r, logs);
    else if (c.scen == "repeat") exec_repeat(c, r, logs);
    else if (c.scen == "oom") exec_oom(c, r, logs);
    else if (c.scen == "terms") exec_term(c, r, logs);
    else if (c.scen == "policy") exec_policy(c, r, logs);
    else if (c.scen == "damage") exec_damage(c, r, logs);
    else if (c.scen == "damage-cnf") exec_damage_cnf(c, r, logs);
    else if (c.scen == "lexer") exec_lex(c, r, logs);
    else if (c.scen == "library") exec_lib(c, r, logs);
    else if (c.scen == "options") exec_tool_options(c, r, logs);
    else if (c.scen == "plugin") exec_lra(c, r, logs);
    else r.fail("bad-case", "unknown scenario " + c.scen);
}

std::vector<int> script_truths(std::string const& text) { return truths(parse_script(text), 3000000); }
int cnf_text_truth(std::string const& text) { return cnf_truth(read_cnf(text), 20000000); }

char text_kind(std::string const& key)
{
    if (key == "script" || key.compare(0, 7, "script.") == 0) return 's';
    if (key == "cnf" || key.compare(0, 4, "cnf.") == 0) return 'c';
    if (key == "ops" || (key.size() == 2 && key[0] == 't' && isdigit(static_cast<unsigned char>(key[1])))) return 'l';
    return 0;
}

} // namespace sim
