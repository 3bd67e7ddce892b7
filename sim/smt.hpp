// Running scripts through the real front end, and judging what comes out.
#pragma once
#include "case.hpp"
#include "gen.hpp"
#include "plug.hpp"

namespace sim {

struct Run_out {
    std::string out;        // the tool's standard output
    std::string stats;      // what it printed as statistics
    std::string error;      // exception that reached the caller
    bool limited = false;   // cut off by the step limit
    bool abandoned = false; // an invariant was violated on the way
};

yaga::Options read_options(Case const& c);

// run a script through Smt2_parser with `session` owning the choices (nullptr: nobody)
Run_out run_script(std::istream& in, yaga::Options const& o, Session* session);
Run_out run_script(std::string const& text, yaga::Options const& o, Session* session);

struct Answer {
    enum Kind { SAT, UNSAT, UNKNOWN, MODEL, ERROR, JUNK } kind;
    std::string text;
    SExp exp; // MODEL
};
std::vector<Answer> read_answers(std::string const& out);

// truth about each check-sat of a script: 1 sat, 0 unsat, -1 unknown (work limit)
std::vector<int> truths(Script const& s, uint64_t limit);

// does the model (printed after the n-th check, counting from 0) satisfy what was asserted by then?
// empty string if so; otherwise what is wrong
std::string judge_model(Script const& s, size_t check, SExp const& model);

// compare all answers of a script with the truth and check its models
void judge_script(Script const& s, Run_out const& o, std::vector<int> const& truth, Result& r, bool verdicts, bool models);

// common to all scenarios that search
void finish_session(Session& s, Result& r, Logs& logs);
void random_plug(Case& c, Rng& r);
void random_options(Case& c, Rng& r);

} // namespace sim
