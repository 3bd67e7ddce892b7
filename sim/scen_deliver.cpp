// C13, C14: the command-line tools reading their input through a simulated device.
#include "scen.hpp"
#include "deliver.hpp"
#include <algorithm>

namespace sim {

// ------------------------------------------------------------------ layout of scripts

// tokens of a script without its comments
std::vector<std::string> tokens(std::string const& t)
{
    std::vector<std::string> r;
    SReader rd(t);
    for (;;)
    {
        rd.ws();
        if (rd.i >= t.size()) break;
        size_t b = rd.i, e = b + 1;
        if (t[b] == '(' || t[b] == ')') {}
        else if (t[b] == '|' || t[b] == '"')
        {
            e = t.find(t[b], b + 1);
            // "" inside of a string is a quotation mark
            while (t[b] == '"' && e != std::string::npos && e + 1 < t.size() && t[e + 1] == '"') e = t.find('"', e + 2);
            e = e == std::string::npos ? t.size() : e + 1;
        }
        else
            while (e < t.size() && !isspace((unsigned char)t[e]) && !strchr("();|\"", t[e])) ++e;
        r.push_back(t.substr(b, e - b));
        rd.i = e;
    }
    return r;
}

// the same tokens with other white space and comments between them
static std::string lay_out(std::string const& t, Rng r)
{
    auto tok = tokens(t);
    std::string o;
    int style = r.below(4);
    size_t big = r.below(tok.size() + 1);
    auto filler = [&](size_t n) {
        std::string f;
        while (f.size() < n)
        {
            switch (r.below(8))
            {
            case 6: f += std::string("; \f (check-sat)\v\t(assert false) \xc3\xa9 \x01 |\"") + (r.chance(1, 2) ? "\r\n" : "\n"); break;
            case 7: f += ";;; a comment ; in (a comment\n"; break;
            case 0: f += "; (check-sat)\n"; break;
            case 1: f += "; (assert false) |\n"; break;
            case 2: f += ";\"\n"; break;
            case 3: f += std::string(1 + r.below(200), ' '); break;
            case 4: f += "\n\n\t\r\n"; break;
            default: f += ";" + std::string(r.below(300), ')') + "\r\n";
            }
        }
        return f;
    };
    for (size_t i = 0; i < tok.size(); ++i)
    {
        if (i == big && r.chance(1, 2))
        {
            // so that what follows lies across the end of the reader's buffer
            size_t edge = (r.chance(1, 2) ? 8192 : 16384) * (1 + r.below(2));
            size_t want = o.size() < edge ? edge - o.size() : 10;
            std::string f = filler(want);
            f.resize(want > 12 ? want - r.below(12) : want);
            // whole lines only
            size_t nl = f.rfind('\n');
            std::string rest = nl == std::string::npos ? "" : std::string(f.size() - nl - 1, ' ');
            o += (nl == std::string::npos ? std::string(f.size(), ' ') : f.substr(0, nl + 1) + rest);
        }
        bool tight = i > 0 && (tok[i] == "(" || tok[i] == ")" || tok[i - 1] == "(" || tok[i - 1] == ")");
        if (tight && r.chance(1, 2)) {}
        else if (style == 0) o += " ";
        else if (style == 1) o += "\n";
        else if (style == 2) o += r.chance(1, 2) ? "\t" : "\r\n";
        else o += r.chance(1, 6) ? filler(1 + r.below(60)) : std::string(1 + r.below(3), ' ');
        o += tok[i];
    }
    if (r.chance(2, 3)) o += r.chance(1, 2) ? "\n" : " ; the end";
    return o;
}

// where the answering commands of a script end: after the name and after the whole command
struct Mark { size_t named, whole; };
static std::vector<Mark> marks(std::string const& t)
{
    std::vector<Mark> m;
    SReader rd(t);
    while (!rd.done())
    {
        size_t b = rd.i;
        SExp e = rd.read();
        std::string h = e.kids.empty() ? "" : e.kids[0].s;
        if (h == "exit") break;
        if (h != "check-sat" && h != "get-model") continue;
        SReader in(t);
        in.i = b + 1;
        in.ws();
        m.push_back({in.i + h.size(), rd.i});
    }
    return m;
}

Delivery draw(Sched& s, std::string const& text, std::vector<size_t> const& spots)
{
    Delivery d;
    d.bytes = text;
    uint32_t kind = s.choose(K_READ, 5, 850);
    if (kind >= 1)
    {
        static int const sizes[] = {1, 1, 2, 3, 5, 7, 8, 13, 16, 64, 100, 255, 511, 1000, 4095, 4096, 8191, 0};
        int n = 1 + s.choose(K_READ, 6, 1000);
        for (int i = 0; i < n; ++i)
        {
            int c = sizes[s.choose(K_READ, 18, 1000)];
            // byte by byte is slow on large inputs
            if (kind == 4 && i == 0) c = 1;
            if (text.size() > 6000 && kind != 4 && c && c < 64) c += 60;
            d.chunks.push_back(c);
        }
        if (kind == 2) d.eintr = 2 + s.choose(K_READ, 9, 1000);
    }
    return d;
}

static long draw_spot(Sched& s, std::string const& text, std::vector<size_t> const& spots)
{
    long at;
    if (!spots.empty() && s.choose(K_OP, 2, 600))
    {
        // close to where an answering command lies
        at = static_cast<long>(spots[s.choose(K_OP, spots.size(), 1000)]) + 10 - static_cast<long>(s.choose(K_OP, 30, 1000));
    }
    else at = s.choose(K_OP, text.size() + 1, 1000);
    return std::clamp<long>(at, 0, text.size());
}

std::vector<std::string> tool_args(Case const& c)
{
    std::vector<std::string> a;
    if (c.get("prop_rational")) a.push_back("--prop-rational");
    if (c.get("prop_bounds")) a.push_back("--deduce-bounds");
    if (c.get("stats")) a.push_back("--print-stats");
    int p = c.get("phase");
    if (p) { a.push_back("--phase"); a.push_back(p == 1 ? "negative" : p == 2 ? "cache" : "positive"); }
    return a;
}

void note(Result& r, Tool_out const& t)
{
    r.st["tool_runs"] += 1;
    r.st["reads"] += t.reads;
    r.st["fault.short_read"] += t.shorts;
    r.st["fault.interrupted_read"] += t.interrupted;
    Hash h;
    h.add(t.out);
    h.add(t.code);
    h.add(t.sig);
    h.add(t.reads);
    r.hash = mix(r.hash, h.h);
    r.steps += t.reads;
}

std::string clip(std::string const& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

// ------------------------------------------------------------------ C13

Case make_deliver(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "deliver";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    random_options(c, r);
    c.cfg["stats"] = r.chance(1, 3);
    c.cfg["phase"] = r.below(4);
    Rng g(mix(seed, 0x9e4));
    Script s = gen_smt(g, r.chance(1, 3), 0, mix(seed, 0xb001) % 3 == 0, true), t;
    for (auto& cmd : s.cmds)
    {
        if (cmd.kind == C_ASSERT && r.chance(1, 8))
        {
            Gen::add(t, C_CHECK);
            if (r.chance(1, 2)) Gen::add(t, C_MODEL);
        }
        t.cmds.push_back(cmd);
        if (cmd.kind == C_ASSERT && r.chance(1, 5))
        {
            Gen::add(t, C_CHECK);
            if (r.chance(1, 2)) Gen::add(t, C_MODEL);
        }
    }
    if (r.chance(1, 10)) Gen::add(t, C_MODEL);
    Gen::add(t, C_CHECK);
    if (r.chance(2, 3)) Gen::add(t, C_MODEL);
    if (r.chance(1, 10)) Gen::add(t, C_EXIT);
    // some unusual names
    std::string text;
    std::map<std::string, std::string> rename;
    for (auto v : {"x0", "x1", "b0", "f0", "x2"})
    {
        if (!r.chance(1, 6)) continue;
        switch (r.below(9))
        {
        case 5: rename[v] = std::string(v) + "^-?%&.*/_$"; break;
        case 6: rename[v] = std::string(".") + v + ".0"; break;
        case 7: rename[v] = std::string("|\t") + v + "\"\xc3\xa9\f|"; break;
        case 8: rename[v] = std::string("?") + v; break;
        case 0: rename[v] = "|(check-sat)|"; break;
        case 1: rename[v] = std::string("|") + v + " ; (check-sat)(get-model)\n|"; break;
        case 2: rename[v] = std::string(v) + "!" + std::string(r.chance(1, 6) ? 1500 : 50 + r.below(200), 'n'); break;
        case 3: rename[v] = std::string("check-sat") + v; break;
        case 4: rename[v] = std::string("~@") + v + "<=>"; break;
        }
        bool taken = false;
        for (auto& [k, w] : rename) taken |= k != v && w == rename[v];
        if (taken) rename.erase(v);
    }
    // attributes, which change nothing
    static char const* const attributes[] = {"(set-info :status sat)", "(set-info :status unsat)", "(set-info :smt-lib-version 2.6)",
        "(set-info :source |several\nlines; of (assert false)\n(check-sat)|)", "(set-info :notes \"a \"\"quoted\"\" word; (exit)\nand a line\")",
        "(set-option :produce-models true)", "(set-option :random-seed 0042)", "(set-info :category \"industrial\")", "(set-info :license \"\")",
        "(set-option :bits #b01)", "(set-info :mask #xFf)", "(set-info :x-1.2_$ ||)", "(set-option :verbosity 1)", "(set-info :name |QF_LRA|)", "(set-info :authors (a (\"b ) c\" |) (|) ()))", "(set-info :empty ())"};
    int every = r.chance(1, 3) ? 1 + r.below(6) : 0;
    for (auto& cmd : t.cmds)
    {
        while (every && r.chance(1, 1 + every)) text += std::string(attributes[r.below(std::size(attributes))]) + "\n";
        for (auto& k : tokens(print_cmd(cmd)))
        {
            auto it = rename.find(k);
            text += (text.empty() || text.back() == '(' || text.back() == '\n' || k == ")" ? "" : " ") + (it == rename.end() ? k : it->second);
        }
        text += "\n";
    }
    c.text["script"] = text;
    c.cfg["deliveries"] = thorough ? 10 : 5;
    c.cfg["layout"] = r.chance(1, 3) ? 0 : 1 + r.below(1000000);
    return c;
}

void exec_deliver(Case const& c, Result& r, Logs& logs)
{
    auto args = tool_args(c);
    std::string const& plain = c.str("script");
    std::string other = c.get("layout") ? lay_out(plain, Rng(mix(c.get("layout"), 0x1a))) : plain;
    Sched s = c.sched(0);
    Delivery whole;
    whole.bytes = plain;
    auto base = run_smt_tool(whole, args);
    note(r, base);
    Hash shape;
    shape.add(plain.size());
    if (base.sig) r.fail("crash", "the tool is ended by signal " + std::to_string(base.sig) + " on a valid script");
    auto want = read_answers(base.out);
    // statistics are printed among the answers: leave lines of the form "Name = value" out
    auto answers = [](std::string const& out) {
        std::string o;
        std::istringstream in(out);
        std::string line;
        while (std::getline(in, line))
            if (line.find(" = ") == std::string::npos || line[0] == '(' || line[0] == ' ') o += line + "\n";
        return o;
    };
    want = read_answers(answers(base.out));
    for (int i = 0; i < c.get("deliveries"); ++i)
    {
        bool use_other = s.choose(K_READ, 2, 600);
        std::string const& text = use_other ? other : plain;
        auto mk = marks(text);
        std::vector<size_t> spots;
        for (auto& m : mk) spots.push_back(m.named);
        Delivery d = draw(s, text, spots);
        bool stream = s.choose(K_READ, 2, 300);
        uint32_t fault = s.choose(K_FAULT, 5, 550);
        if (fault == 4) fault = s.choose(K_FAULT, 8, 400) ? 1 : 4;
        long at = fault >= 1 && fault <= 3 ? draw_spot(s, text, spots) : -1;
        if (fault == 1) { d.cut = at; ++r.st["fault.truncated"]; }
        if (fault == 2) { d.eio = at; ++r.st["fault.read_error"]; }
        if (fault == 3) { d.pause = at; ++r.st["fault.early_end_of_file"]; }
        if (fault == 4) { d.missing = !stream; ++r.st["fault.missing_file"]; }
        if (fault == 4 && stream) fault = 0;
        auto got = stream ? run_smt_stream(d, args) : run_smt_tool(d, args);
        note(r, got);
        shape.add(fault);
        shape.add(at + 1);
        shape.add(d.chunks.size() + 8 * d.eintr + stream);
        r.nontrivial = true;
        std::string how = "delivery " + std::to_string(i + 1) + (stream ? " (stream" : " (file") + (use_other ? ", other layout" : "");
        if (fault == 1) how += ", ends after byte " + std::to_string(at);
        if (fault == 2) how += ", read error at byte " + std::to_string(at);
        if (fault == 3) how += ", early end of file at byte " + std::to_string(at);
        how += ")";
        if (fault == 0)
        {
            ++r.st["complete_deliveries"];
            if (got.sig) r.fail("crash", how + ": ended by signal " + std::to_string(got.sig));
            else if (got.out != base.out)
                r.fail("delivery-changes-answer", how + " prints " + clip(got.out) + " instead of " + clip(base.out));
            else if (!stream && got.code != base.code) r.fail("delivery-changes-status", how + " exits with " + std::to_string(got.code) + " instead of " + std::to_string(base.code));
            continue;
        }
        auto have = read_answers(answers(got.out));
        if (fault == 4)
        {
            if (!have.empty()) r.fail("invented-answer", "a file that cannot be opened is answered by " + clip(got.out));
            continue;
        }
        ++r.st["faulty_deliveries"];
        size_t may = 0, must = 0;
        for (auto& m : mk) { may += m.named <= static_cast<size_t>(at); must += m.whole <= static_cast<size_t>(at); }
        size_t j = 0;
        while (j < have.size() && j < want.size() && have[j].text == want[j].text) ++j;
        if (j > may)
        {
            // complaints about the fault may look like an answer that was due later
            bool ok = true;
            for (size_t k = may; k < j; ++k) ok &= have[k].kind == Answer::ERROR;
            if (!ok) r.fail("invented-answer", how + ": " + std::to_string(j) + " answers although only " + std::to_string(may) +
                " of the commands that ask for one have begun to arrive: " + clip(got.out));
        }
        for (size_t k = j; k < have.size(); ++k)
            if (have[k].kind != Answer::ERROR)
                r.fail("invented-answer", how + ": prints " + clip(have[k].text) + " as answer number " + std::to_string(k + 1) + ", which the complete input does not give there");
        if (fault == 1 && j < must)
            r.fail("lost-answer", how + ": only " + std::to_string(j) + " of the " + std::to_string(must) + " answers that could be given");
    }
    r.shape = shape.h;
    r.sample = plain.substr(0, 1500);
    for (int k = 0; k < K_NUM; ++k)
        if (s.counts[k] && k == K_READ) r.st["fault.delivery_choice"] += s.counts[k];
    logs.push_back(s.log);
}

// ------------------------------------------------------------------ C24

Case make_tool_options(uint64_t seed, bool thorough)
{
    Case c;
    c.prop = "C24";
    c.scen = "options";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e)), g(mix(seed, 0x9e4));
    c.cfg["prop_rational"] = r.chance(1, 2);
    c.cfg["prop_bounds"] = r.chance(1, 2);
    c.cfg["stats"] = r.chance(3, 4);
    c.cfg["phase"] = r.below(4);
    c.cfg["turn"] = r.below(24); // order of the options
    if (r.chance(1, 6)) c.cfg["odd"] = 1 + r.below(9); // an option that does not exist
    Script s = gen_smt(g, r.chance(1, 3), r.chance(1, 3), r.chance(1, 2)), t;
    for (auto& cmd : s.cmds)
    {
        t.cmds.push_back(cmd);
        if (cmd.kind == C_ASSERT && r.chance(1, 8)) Gen::add(t, C_CHECK);
    }
    Gen::add(t, C_CHECK);
    Gen::add(t, C_MODEL);
    c.text["script"] = t.text();
    c.cfg["step_limit"] = 3000;
    return c;
}

void exec_tool_options(Case const& c, Result& r, Logs& logs)
{
    auto args = tool_args(c);
    // options in any order, --phase stays with its value
    std::vector<std::vector<std::string>> groups;
    for (auto& a : args)
        if (a[0] == '-') groups.push_back({a});
        else groups.back().push_back(a);
    Rng o(c.get("turn"));
    for (size_t i = groups.size(); i > 1; --i) std::swap(groups[i - 1], groups[o.below(i)]);
    args.clear();
    for (auto& g : groups) args.insert(args.end(), g.begin(), g.end());
    std::string shown;
    static char const* const odd[] = {"--prop-rationals", "--prop_rational", "--deduce", "-d", "--", "--phase=positive", "--PRINT-STATS", "-", "--no-deduce-bounds"};
    if (long k = c.get("odd"))
    {
        size_t at = c.get("turn") % (args.size() + 1);
        if (at && args[at - 1] == "--phase") at = 0;
        args.insert(args.begin() + at, odd[k - 1]);
    }
    for (auto& a : args) shown += " " + a;
    if (c.get("odd"))
    {
        Delivery d;
        d.bytes = c.str("script");
        auto got = run_smt_tool(d, args);
        note(r, got);
        r.nontrivial = true;
        Hash h;
        h.add(c.str("script") + shown);
        r.shape = h.h;
        ++r.st["unknown_options"];
        if (got.sig) r.fail("crash", "the tool is ended by signal " + std::to_string(got.sig) + " with" + shown);
        else if (got.code == 0 || !got.out.empty() || got.err.empty())
            r.fail("tool-options", "with" + shown + " the tool ends with status " + std::to_string(got.code) + " and prints " + clip(got.out) + "; an option does not exist");
        return;
    }
    Plug_cfg pc;
    pc.intrude = false;
    pc.step_limit = c.get("step_limit");
    Session ses(pc, c.sched(0), r);
    Run_out lib = run_script(c.str("script"), read_options(c), &ses);
    finish_session(ses, r, logs);
    if (lib.limited || lib.abandoned) return;
    Delivery d;
    d.bytes = c.str("script");
    auto got = run_smt_tool(d, args);
    note(r, got);
    r.nontrivial = true;
    Hash h;
    h.add(lib.out + lib.stats + shown);
    r.shape = h.h;
    r.sample = c.str("script").substr(0, 1500);
    if (got.sig) { r.fail("crash", "the tool is ended by signal " + std::to_string(got.sig) + " on a valid script"); return; }
    std::string answers, stats, line;
    std::istringstream in(got.out);
    while (std::getline(in, line))
        (line.find(" = ") == std::string::npos || line[0] == '(' || line[0] == ' ' ? answers : stats) += line + "\n";
    ++r.st["tool_and_library_compared"];
    if (stats != lib.stats) r.fail("tool-options", "the tool with" + shown + " prints the statistics " + clip(stats) + " but the library with these options " + clip(lib.stats));
    if (answers != lib.out) r.fail("tool-options", "the tool with" + shown + " prints " + clip(answers) + " but the library with these options " + clip(lib.out));
}

// ------------------------------------------------------------------ C14

static std::string lay_out_cnf(Cnf const& f, Rng r, bool plain)
{
    if (plain) return f.dimacs();
    std::ostringstream o;
    bool crlf = r.chance(1, 5), comments = r.chance(1, 2), split = r.chance(1, 2), join = r.chance(1, 3);
    std::string nl = crlf ? "\r\n" : "\n";
    auto comment = [&] {
        // comments are whole lines
        if (o.tellp() > 0 && o.str().back() != '\n') return;
        static char const* const t[] = {"c", "c p cnf 1 1", "c 1 -1 0", "c 0", "c generated file  ", "cnf 1 0", "c\t0", "comment 1 0", "c%", "c1 0"};
        if (comments && r.chance(1, 3)) o << (r.chance(1, 6) ? "\t" : "") << std::string(r.below(3), ' ') << t[r.below(10)] << (r.chance(1, 20) ? std::string(9000, 'x') : "") << nl;
        if (r.chance(1, 12)) o << (r.chance(1, 2) ? "" : "  \t") << nl;
    };
    comment();
    if (r.chance(1, 8)) o << "\t";
    o << std::string(r.chance(1, 4) ? 2 : 0, ' ') << "p cnf " << std::string(r.below(3), ' ') << f.vars << " " << f.clauses.size() << nl;
    for (auto& k : f.clauses)
    {
        comment();
        if (r.chance(1, 5)) o << (r.chance(1, 2) ? "\t" : "   ");
        for (int l : k)
        {
            o << l << (r.chance(1, 8) ? "\t" : " ");
            if (split && r.chance(1, 6)) { o << nl; comment(); }
        }
        o << "0" << (join && r.chance(1, 2) ? std::string(" ") : (r.chance(1, 6) ? " " : "") + nl);
    }
    if (r.chance(1, 8)) o << nl << "%" << nl << "0" << nl;
    std::string t = o.str();
    if (r.chance(1, 6)) while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
    return t;
}

std::string cnf_layout(Case const& c)
{
    return lay_out_cnf(read_cnf(c.str("cnf")), Rng(mix(c.get("layout"), 0x1a)), !c.get("layout"));
}

// clauses that are complete in a prefix of a DIMACS text
static Cnf read_prefix(std::string const& t, size_t n)
{
    Cnf f;
    std::istringstream in(t.substr(0, n));
    std::string line;
    std::vector<int> k;
    while (std::getline(in, line))
    {
        size_t b = line.find_first_not_of(" \t\r");
        if (b != std::string::npos && line[b] == '%') break;
        if (b == std::string::npos || line[b] == 'c' || line[b] == 'p') continue;
        std::istringstream l(line);
        int v;
        while (l >> v)
        {
            if (v == 0) { f.clauses.push_back(k); k.clear(); }
            else { k.push_back(v); f.vars = std::max(f.vars, std::abs(v)); }
        }
    }
    return f;
}

Case make_deliver_cnf(std::string const& prop, uint64_t seed, bool thorough)
{
    Case c;
    c.prop = prop;
    c.scen = "deliver-cnf";
    c.seed = seed;
    Rng r(mix(seed, 0xca5e));
    Rng g(mix(seed, 0x9e4));
    Cnf f = gen_cnf(g, r.chance(1, 4));
    if (r.chance(1, 3))
    {
        // literals that repeat or oppose each other in a clause, repeated clauses
        for (auto& k : f.clauses)
        {
            if (k.empty() || !r.chance(1, 4)) continue;
            int l = r.pick(k);
            k.insert(k.begin() + r.below(k.size() + 1), r.chance(2, 3) ? l : -l);
            if (r.chance(1, 3)) k.insert(k.begin() + r.below(k.size() + 1), l);
        }
        if (!f.clauses.empty() && r.chance(1, 2))
        {
            auto k = r.pick(f.clauses);
            f.clauses.push_back(k);
        }
    }
    if (r.chance(1, 12)) f.clauses.insert(f.clauses.begin() + r.below(f.clauses.size() + 1), std::vector<int>{});
    if (r.chance(1, 12)) f.vars += r.below(5);
    c.text["cnf"] = f.dimacs();
    c.cfg["layout"] = r.chance(1, 4) ? 0 : 1 + r.below(1000000);
    c.cfg["deliveries"] = thorough ? 10 : 5;
    return c;
}

void exec_deliver_cnf(Case const& c, Result& r, Logs& logs)
{
    Cnf f = read_cnf(c.str("cnf"));
    std::string text = lay_out_cnf(f, Rng(mix(c.get("layout"), 0x1a)), !c.get("layout"));
    Sched s = c.sched(0);
    int truth = cnf_truth(f, 3000000);
    auto known = [](Tool_out const& t) {
        std::string k = t.out.substr(0, t.out.find('\n'));
        return k == "SAT" ? 1 : k == "UNSAT" ? 0 : -1;
    };
    // everything but the time taken
    auto kept = [](Tool_out const& t) {
        std::string o, line;
        std::istringstream in(t.out);
        while (std::getline(in, line))
            if (line.compare(0, 4, "time") != 0) o += line + "\n";
        return o;
    };
    Delivery whole;
    whole.bytes = text;
    auto base = run_sat_tool(whole);
    note(r, base);
    Hash hh; // the time is not part of the history
    hh.add(kept(base)); hh.add(base.code); hh.add(base.sig);
    r.hash = hh.h;
    r.sample = text.substr(0, 1500);
    Hash shape;
    shape.add(text.size());
    shape.add(f.clauses.size());
    int v = known(base);
    if (base.sig) r.fail("crash", "the tool is ended by signal " + std::to_string(base.sig));
    else if (v < 0) r.fail("no-verdict", "a complete file gets no verdict: " + clip(base.out) + clip(base.err));
    else if (truth >= 0 && v != truth) r.fail("wrong-verdict", std::string("the file is answered ") + (v ? "SAT" : "UNSAT"));
    ++r.st[v == 1 ? "files_sat" : "files_unsat"];
    std::vector<size_t> spots;
    for (size_t i = 0; i < text.size(); ++i)
        if (text[i] == '0') spots.push_back(i);
    if (spots.size() > 6) spots.erase(spots.begin(), spots.end() - 6);
    for (int i = 0; i < c.get("deliveries"); ++i)
    {
        Delivery d = draw(s, text, spots);
        uint32_t fault = s.choose(K_FAULT, 5, 600);
        if (fault == 4) fault = s.choose(K_FAULT, 8, 400) ? 1 : 4;
        long at = fault >= 1 && fault <= 3 ? draw_spot(s, text, spots) : -1;
        if (fault == 1) { d.cut = at; ++r.st["fault.truncated"]; }
        if (fault == 2) { d.eio = at; ++r.st["fault.read_error"]; }
        if (fault == 3) { d.pause = at; ++r.st["fault.early_end_of_file"]; }
        if (fault == 4) { d.missing = true; ++r.st["fault.missing_file"]; }
        auto got = run_sat_tool(d);
        r.st["tool_runs"] += 1;
        r.st["reads"] += got.reads;
        r.st["fault.short_read"] += got.shorts;
        r.st["fault.interrupted_read"] += got.interrupted;
        r.steps += got.reads;
        Hash h;
        h.add(kept(got)); h.add(got.code); h.add(got.sig); h.add(got.reads);
        r.hash = mix(r.hash, h.h);
        shape.add(fault); shape.add(at + 1); shape.add(d.chunks.size() + 8 * d.eintr);
        r.nontrivial = true;
        std::string how = "delivery " + std::to_string(i + 1);
        if (fault == 1) how += ", ending after byte " + std::to_string(at) + ",";
        if (fault == 2) how += ", with a read error at byte " + std::to_string(at) + ",";
        if (fault == 3) how += ", with an early end of file at byte " + std::to_string(at) + ",";
        int w = known(got);
        if (got.sig) { r.fail("crash", how + " ends the tool by signal " + std::to_string(got.sig)); continue; }
        if (fault == 0)
        {
            ++r.st["complete_deliveries"];
            if (kept(got) != kept(base) || got.code != base.code)
                r.fail("delivery-changes-verdict", how + " gives " + clip(kept(got)) + " exit " + std::to_string(got.code) + " instead of " + clip(kept(base)) + " exit " + std::to_string(base.code));
            continue;
        }
        ++r.st["faulty_deliveries"];
        if (w < 0)
        {
            if (got.code == 0 || got.code == 1) r.fail("error-as-verdict", how + " gives no verdict but exit status " + std::to_string(got.code));
            continue;
        }
        if (fault == 4) { r.fail("invented-verdict", "a file that cannot be opened is answered " + std::string(w ? "SAT" : "UNSAT")); continue; }
        Cnf part = read_prefix(text, at);
        bool all = part.clauses.size() >= f.clauses.size();
        int pt = all ? truth : cnf_truth(part, 3000000);
        if (!all && (w == 1 || pt == 1))
            r.fail("invented-verdict", how + " is answered " + (w ? "SAT" : "UNSAT") + " although only " + std::to_string(part.clauses.size()) + " of " + std::to_string(f.clauses.size()) + " clauses arrived");
        else if (truth >= 0 && w != truth) r.fail("wrong-verdict", how + " is answered " + (w ? "SAT" : "UNSAT"));
    }
    r.shape = shape.h;
    logs.push_back(s.log);
}

} // namespace sim
