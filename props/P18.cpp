// P18: engines survive export to and import from the Fuzzy Control Language.
#include "build.h"
#include <fstream>
#include <unistd.h>
using namespace pbt;

struct Resolution {
    int old = fl::IntegralDefuzzifier::defaultResolution();
    explicit Resolution(int r) { fl::IntegralDefuzzifier::setDefaultResolution(r); }
    ~Resolution() { fl::IntegralDefuzzifier::setDefaultResolution(old); }
};

// an engine with what the language expresses
static model::Engine gen(Src& s, int resolution, bool flags) {
    model::GenOptions o;
    o.tall = true;
    o.disabled = flags;
    o.lockFlags = true;
    o.activations = false;
    o.randomText = true;
    o.hedgesAnywhere = true;
    o.emptyTermsAllowed = true;
    model::Engine e = model::genEngine(s, o);
    for (auto& v : e.inputs)
        v.lockRange = false;
    for (auto& v : e.outputs) {
        v.lockRange = flags && v.lockRange;
        v.weightedType = "Automatic";
        v.resolution = resolution;
        if (s.chance(1, 14)) v.defuzzifier = "";
        if (s.chance(1, 14)) v.aggregation = "";
    }
    for (auto* vs : {&e.inputs, &e.outputs})
        for (auto& v : *vs)
            for (auto& t : v.terms)
                if (t.cls == "Discrete")
                    t.height = 1;
    for (auto& b : e.blocks) {
        b.enabled = b.enabled || !flags;
        for (auto& r : b.rules)
            r.enabled = true;
        if (s.chance(1, 14)) b.conjunction = "";
        if (s.chance(1, 14)) b.disjunction = "";
        if (s.chance(1, 14)) b.implication = "";
    }
    return e;
}
static bool behaviour(Case& c, const model::Engine& e, fl::Engine& a, fl::Engine& b, const std::vector<std::vector<double>>& in) {
    auto ra = build::run(a, in), rb = build::run(b, in);
    std::string diff = build::diff(ra, rb, 1e-12, 1e-12);
    c.check(diff.empty(), "behaviour", "the imported engine behaves differently: " + diff);
    bool finite = false;
    for (auto& row : ra.rows)
        for (double y : row)
            finite = finite || std::isfinite(y);
    (void)e;
    return finite;
}
static bool hasRules(const model::Engine& e) {
    for (auto& b : e.blocks)
        if (!b.rules.empty())
            return true;
    return false;
}

static const std::map<std::string, std::string>& codes() {
    static const std::map<std::string, std::string> m = {
        {"", "NONE"}, {"Minimum", "MIN"}, {"AlgebraicProduct", "PROD"}, {"BoundedDifference", "BDIF"}, {"DrasticProduct", "DPROD"},
        {"EinsteinProduct", "EPROD"}, {"HamacherProduct", "HPROD"}, {"NilpotentMinimum", "NMIN"}, {"Maximum", "MAX"},
        {"AlgebraicSum", "ASUM"}, {"NormalizedSum", "NSUM"}, {"BoundedSum", "BSUM"}, {"DrasticSum", "DSUM"}, {"EinsteinSum", "ESUM"},
        {"HamacherSum", "HSUM"}, {"NilpotentMaximum", "NMAX"}, {"UnboundedSum", "UnboundedSum"}, {"Centroid", "COG"},
        {"Bisector", "COA"}, {"SmallestOfMaximum", "LM"}, {"LargestOfMaximum", "RM"}, {"MeanOfMaximum", "MM"},
        {"WeightedAverage", "COGS"}, {"WeightedSum", "COGSS"}};
    return m;
}
static void roundtrip(Case& c) {
    Src& s = c.src;
    int resolution = s.range(10, 60);
    Resolution res(resolution);
    bool fine = s.chance(1, 3);
    build::Precision precision(fine ? 9 : 3);
    model::Engine e = gen(s, resolution, false);
    if (fine)
        model::refine(s, e, true);
    for (auto& b : e.blocks)
        b.enabled = true;
    if (s.chance(1, 12))
        e.name = s.oneOf(std::vector<std::string>{"", "two words", "a b c"});
    for (auto& b : e.blocks)
        if (s.chance(1, 10))
            b.name = "";
    if (s.chance(1, 10))
        model::heavy(s, e);
    for (auto* vs : {&e.inputs, &e.outputs})
        for (auto& v : *vs)
            if (s.chance(1, 40))
                std::swap(v.min, v.max);
    for (auto& v : e.outputs) {
        if (s.chance(1, 24))
            v.defaultValue = s.coin() ? model::Inf : -model::Inf;
        for (auto& t : v.terms)
            if (t.cls == "Constant" && s.chance(1, 24))
                t.p[0] = s.oneOf(std::vector<double>{model::Inf, -model::Inf, model::NaN});
    }
    EngineP a(build::engine(e));
    if (a->numberOfRuleBlocks() && s.chance(1, 10)) {  // a rule that cannot be loaded keeps its text
        fl::Rule* r = new fl::Rule;
        r->setText("if nothing is known then something is wrong");
        a->getRuleBlock(0)->addRule(r);
        c.say("with a rule that cannot be loaded");
    }
    build::Own own;
    bool ours = s.chance(1, 8);
    if (ours)
        own.replace(s, *a);
    auto in = build::genInputs(s, e, 3, true);
    if (s.coin())
        build::run(*a, in);
    fl::FclExporter x(s.oneOf(std::vector<std::string>{"  ", "", "\t", "      "}));
    std::string text = x.toString(a.get());
    c.note([&] { return text; });
    // the words of the language, in the order of the parts
    std::string::size_type at = 0;
    auto says = [&](const std::string& key, const std::string& name) {
        if (ours || name.empty())
            return;
        std::string l = key + " : " + codes().at(name) + ";\n";
        at = text.find(l, at);
        c.check(at != std::string::npos, "words", "the text does not say " + l);
    };
    for (auto& v : e.outputs) {
        says("METHOD", v.defuzzifier);
        says("ACCU", v.aggregation);
    }
    for (auto& k : e.blocks) {
        says("AND", k.conjunction);
        says("OR", k.disjunction);
        says("ACT", k.implication);
    }
    EngineP b;
    if (s.chance(1, 20)) {
        char dir[] = "imexXXXXXX";
        if (!mkdtemp(dir))
            c.discard();
        std::string path = std::string(dir) + "/engine.fcl", error;
        try {
            x.toFile(path, a.get());
            b.reset(fl::FclImporter().fromFile(path));
        } catch (fl::Exception& ex) {
            error = ex.what();
        }
        unlink(path.c_str());
        rmdir(dir);
        c.check(error.empty(), "file", "file cannot be written and read back: " + error);
    } else {
        try {
            b.reset(fl::FclImporter().fromString(text));
        } catch (fl::Exception& ex) {
            c.fail("rejected", std::string("exported text is rejected: ") + ex.what());
        }
    }
    std::string text2 = x.toString(b.get());
    c.checkf(text2 == text, "fixpoint", [&] { return "the imported engine exports other text:\n" + text2; });
    // the native language shows what both formats share
    std::string fa = fl::FllExporter().toString(a.get()), fb = fl::FllExporter().toString(b.get());
    c.checkf(fa == fb, "fll", [&] { return "the imported engine is\n" + fb + "\ninstead of\n" + fa; });
    a->restart();
    bool finite = behaviour(c, e, *a, *b, in);
    c.nontrivial(hasRules(e) && finite);
    c.label(finite ? "finite outputs" : "no finite outputs");
}

struct Part {
    std::string head, tail;
    std::vector<std::string> lines;
};
// the description written in FCL, by the documentation
static std::vector<Part> parts(Src& s, const model::Engine& e, bool vary) {
    std::vector<Part> r;
    auto sp = [&] { return vary && s.chance(1, 4) ? std::string(s.u(3), ' ') : std::string(" "); };
    auto pad = [&] { return vary && s.chance(1, 4) ? std::string(s.u(3), ' ') : std::string(); };
    auto num = [&](double v) { return vary ? model::spell(s, v) : model::num(v); };
    Part vi{"VAR_INPUT", "END_VAR", {}}, vo{"VAR_OUTPUT", "END_VAR", {}};
    for (auto& v : e.inputs)
        vi.lines.push_back(v.name + sp() + ":" + sp() + "REAL;");
    for (auto& v : e.outputs)
        vo.lines.push_back(v.name + sp() + ":" + sp() + "REAL;");
    r.push_back(vi);
    r.push_back(vo);
    auto term = [&](const model::Term& t) {
        std::string d = "TERM " + t.name + sp() + ":=" + sp();
        if (t.cls == "Discrete") {
            for (auto& p : t.xy)
                d += "(" + pad() + num(p.first) + pad() + "," + pad() + num(p.second) + pad() + ")" + pad();
        } else if (t.cls == "Constant" && s.coin())
            d += num(t.p[0]);
        else
            d += t.cls + " " + model::termParameters(t);
        return d + ";";
    };
    auto range = [&](const model::Variable& v) {
        return "RANGE :=" + sp() + "(" + pad() + num(v.min) + " .. " + num(v.max) + pad() + ");";
    };
    auto flag = [](bool b) { return std::string("ENABLED : ") + (b ? "TRUE" : "FALSE") + ";"; };
    for (auto& v : e.inputs) {
        Part p{"FUZZIFY " + v.name, "END_FUZZIFY", {}};
        if (!v.enabled || s.chance(1, 3))
            p.lines.push_back(flag(v.enabled));
        p.lines.push_back(range(v));
        for (auto& t : v.terms)
            p.lines.push_back(term(t));
        r.push_back(p);
    }
    for (auto& v : e.outputs) {
        Part p{"DEFUZZIFY " + v.name, "END_DEFUZZIFY", {}};
        if (!v.enabled || s.chance(1, 3))
            p.lines.push_back(flag(v.enabled));
        p.lines.push_back(range(v));
        for (auto& t : v.terms)
            p.lines.push_back(term(t));
        if (!v.defuzzifier.empty() || s.coin())
            p.lines.push_back("METHOD :" + sp() + codes().at(v.defuzzifier) + ";");
        if (!v.aggregation.empty() || s.coin())
            p.lines.push_back("ACCU :" + sp() + codes().at(v.aggregation) + ";");
        bool nc = v.lockPrevious && (!v.lockRange || s.coin());
        p.lines.push_back("DEFAULT :=" + sp() + num(v.defaultValue) + (nc ? " |" + sp() + "NC" : "") + ";");
        if (v.lockRange && v.lockPrevious)
            p.lines.push_back(s.coin() ? "LOCK : PREVIOUS | RANGE;" : "LOCK : RANGE|PREVIOUS;");
        else if (v.lockRange)
            p.lines.push_back("LOCK : RANGE;");
        else if (v.lockPrevious && (!nc || s.coin()))
            p.lines.push_back("LOCK : PREVIOUS;");
        r.push_back(p);
    }
    for (auto& b : e.blocks) {
        Part p{"RULEBLOCK " + b.name, "END_RULEBLOCK", {}};
        if (!b.enabled || s.chance(1, 3))
            p.lines.push_back(flag(b.enabled));
        for (auto& k : {std::make_pair("AND", &b.conjunction), std::make_pair("OR", &b.disjunction), std::make_pair("ACT", &b.implication)})
            if (!k.second->empty() || s.coin())
                p.lines.push_back(std::string(k.first) + " :" + sp() + codes().at(*k.second) + ";");
        int i = 0;
        for (auto& x : b.rules)
            if (vary && s.chance(1, 8) && x.text.find(':') == std::string::npos)
                p.lines.push_back("RULE " + x.text + ";");  // without a number
            else
                p.lines.push_back("RULE " + std::to_string(++i) + sp() + ":" + sp() + x.text + ";");
        r.push_back(p);
    }
    return r;
}
static std::string text(Src& s, const model::Engine& e, const std::vector<Part>& ps, bool layout) {
    std::string r;
    static const std::vector<std::string> comments = {"// comment", "//", "// RANGE := (0 .. 1);", "# comment", "//// END_VAR"};
    auto line = [&](const std::string& l) {
        if (!layout) {
            r += l + "\n";
            return;
        }
        if (s.chance(1, 10))
            r += s.oneOf(std::vector<std::string>{"\n", "   \n", "% comment\n", "  // x\n", ";\n"});
        r += s.oneOf(std::vector<std::string>{"", "  ", "\t", "     "}) + l;
        if (s.chance(1, 8))
            r += " " + s.oneOf(comments);
        r += s.oneOf(std::vector<std::string>{"\n", "\n", " \n", "\r\n"});
    };
    line("FUNCTION_BLOCK " + e.name);
    for (auto& p : ps) {
        line(p.head);
        for (auto& l : p.lines)
            line(l);
        line(p.tail);
    }
    line("END_FUNCTION_BLOCK");
    if (layout && s.chance(1, 12))  // what is after the end does not belong to it
        r += s.oneOf(std::vector<std::string>{"some text\n", "FUNCTION_BLOCK other\n", "VAR_INPUT\nother: REAL;\nEND_VAR\n", "RULEBLOCK\n"});
    return r;
}

static void layouts(Case& c) {
    Src& s = c.src;
    int resolution = s.range(10, 40);
    Resolution res(resolution);
    bool fine = s.chance(1, 3);
    build::Precision precision(fine ? 9 : 3);
    model::Engine e = gen(s, resolution, true);
    if (fine)
        model::refine(s, e, true);
    auto ps = parts(s, e, true);
    for (size_t k = 0; k < ps.size(); ++k) {  // properties in any order; terms and rules keep theirs
        auto& l = ps[k].lines;
        if (k < 2 || !s.coin())
            continue;
        std::vector<std::string> fixed, rest, out;
        for (auto& x : l)
            (x.compare(0, 5, "TERM ") == 0 || x.compare(0, 5, "RULE ") == 0 ? fixed : rest).push_back(x);
        // LOCK sets what NC adds to
        for (size_t i = 1; i < rest.size(); ++i)
            std::swap(rest[i], rest[s.u(i + 1)]);
        for (size_t i = 0; i < rest.size(); ++i)
            if (rest[i].compare(0, 4, "LOCK") == 0 && rest[i].find("PREVIOUS") == std::string::npos)
                std::rotate(rest.begin(), rest.begin() + i, rest.begin() + i + 1);
        size_t i = 0, j = 0;
        while (i < fixed.size() || j < rest.size()) {
            if (j == rest.size() || (i < fixed.size() && s.coin()))
                out.push_back(fixed[i++]);
            else
                out.push_back(rest[j++]);
        }
        l = out;
    }
    std::string t = text(s, e, ps, true);
    c.note([&] { return t; });
    EngineP a(build::engine(e)), b;
    if (fine)
        fl::fuzzylite::setDecimals(s.u(4));  // no matter for what is read
    try {
        b.reset(fl::FclImporter().fromString(t));
    } catch (fl::Exception& x) {
        c.fail("rejected", std::string("text is rejected: ") + x.what());
    }
    fl::fuzzylite::setDecimals(fine ? 9 : 3);
    std::string ta = fl::FllExporter().toString(a.get()), tb = fl::FllExporter().toString(b.get());
    c.checkf(ta == tb, "meaning", [&] { return "the imported engine is\n" + tb + "\ninstead of\n" + ta; });
    bool finite = behaviour(c, e, *a, *b, build::genInputs(s, e, 2));
    c.nontrivial(hasRules(e));
    c.label(finite ? "finite outputs" : "no finite outputs");
}

static void corrupted(Case& c) {
    Src& s = c.src;
    model::Engine e = gen(s, 100, true);
    auto ps = parts(s, e, false);
    std::string kind;
    auto pick = [&](const std::string& key) -> std::string* {
        std::vector<std::string*> r;
        for (size_t k = 2; k < ps.size(); ++k)
            for (auto& l : ps[k].lines)
                if (l.compare(0, key.size() + 1, key + " ") == 0)
                    r.push_back(&l);
        if (r.empty())
            c.discard();
        return s.oneOf(r);
    };
    auto any = [&](std::initializer_list<const char*> o) { return std::string(*(o.begin() + s.u(o.size()))); };
    switch (s.u(14)) {
        case 0:
            ps[s.u(ps.size())].head = any({"VAR_GLOBAL", "FUZZY a", "RULES b", "var_input", "END_VAR", "TERM a := 1"});
            kind = "unknown block";
            break;
        case 1: {
            auto& p = ps[s.u(ps.size())];
            p.tail = any({"END", "END_BLOCK x", ""}) + (s.coin() ? "" : " ");
            if (p.tail.compare(0, 3, "END") != 0)
                p.tail = "";
            kind = "block without end";
            break;
        }
        case 2: {
            size_t k = 2 + s.u(e.inputs.size() + e.outputs.size());
            ps[k].head = (k - 2 < e.inputs.size() ? "FUZZIFY" : "DEFUZZIFY") + any({" unknownvariable", ""});
            kind = "unknown variable";
            break;
        }
        case 3: {
            auto& p = ps[s.u(2)];
            p.lines[s.u(p.lines.size())] = any({"a REAL;", "a;", "a : REAL : REAL;"});
            kind = "wrong declaration";
            break;
        }
        case 4: {
            size_t k = 2 + s.u(ps.size() - 2);
            ps[k].lines.insert(ps[k].lines.begin() + s.u(ps[k].lines.size() + 1), any({"UNKNOWN : 1;", "Term a := 1;", "RANGES := (0 .. 1);", "PROB : MIN;", "ACCUM : MAX;", "TERMS x := Triangle 0 1 2;"}));
            kind = "unknown property";
            break;
        }
        case 5: *pick("METHOD") = "METHOD : " + any({"COGG", "cog", "Mean", "MIN", "Centroid 100", ": COG"}) + ";"; kind = "wrong method"; break;
        case 6: *pick("ACCU") = "ACCU : " + any({"MIN", "max", "SUM", "Maximum 1", ": MAX"}) + ";"; kind = "wrong aggregation"; break;
        case 7: {
            std::string k = any({"AND", "ACT"});
            *pick(k) = k + " : " + any({"MAX", "min", "PRODUCT", "Minimum 1", ": MIN"}) + ";";
            kind = "wrong conjunction or implication";
            break;
        }
        case 8: *pick("OR") = "OR : " + any({"MIN", "max", "PROD", "Maximum 1"}) + ";"; kind = "wrong disjunction"; break;
        case 9: *pick("RANGE") = "RANGE := " + any({"", "(0)", "(0 1)", "(a .. b)", "(0 .. 1 .. 2)", "0 .. x", "(.. 1)"}) + ";"; kind = "wrong range"; break;
        case 10: *pick("DEFAULT") = "DEFAULT := " + any({"", "none", "0 | NN", "0 1", "NC", "0 | nc"}) + ";"; kind = "wrong default"; break;
        case 11: {
            std::string* l = pick("TERM");
            size_t at = l->find(":=");
            std::string head = l->substr(0, at);
            bool function = l->find(":= Function") != std::string::npos;
            *l = any({"TERM;", "TERM a;", "TERM a Triangle 0 1 2;"});
            if (s.coin())
                *l = head + any({":= Unknown 1 2 3", ":=", ":= triangle 0 1 2", ":= Triangle 0 x 2", ":= (0, 0) (1, z)", ":= Discrete (0, 1) (x, 2)", ": = Triangle 0 1 2"}) + ";";
            if (function)
                *l = head + any({":= Function 1 +", ":= Function unknownvariable + 1", ":= Function sin(", ":= Function 1 2"}) + ";";
            kind = "wrong term";
            break;
        }
        case 12: {
            std::vector<std::string*> r;
            for (size_t k = 2; k < ps.size(); ++k)
                for (auto& l : ps[k].lines)
                    if (l.compare(0, 4, "ENAB") == 0 || l.compare(0, 4, "LOCK") == 0)
                        r.push_back(&l);
            if (r.empty())
                c.discard();
            std::string* l = s.oneOf(r);
            *l = (*l)[0] == 'E' ? "ENABLED : " + any({"true", "YES", "", "TRUE : FALSE", "1"}) + ";"
                                : "LOCK : " + any({"previous", "PREVIOUS | PREVIOUS", "RANGE | X", "", "PREVIOUS | RANGE | RANGE", "NC"}) + ";";
            kind = "wrong flag";
            break;
        }
        default: {
            auto& p = ps[s.u(ps.size())];
            p.lines.insert(p.lines.begin() + s.u(p.lines.size() + 1), any({"VAR_INPUT", "FUZZIFY a", "RULEBLOCK x", "DEFUZZIFY b", "VAR_OUTPUT"}));
            kind = "block within a block";
        }
    }
    std::string t = text(s, e, ps, false);
    c.note([&] { return kind + "\n" + t; });
    bool raised = false;
    EngineP b;
    try {
        b.reset(fl::FclImporter().fromString(t));
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    } catch (std::exception& x) {
        c.fail("foreign-exception", kind + " raised " + x.what());
    }
    c.check(raised, "accepted", kind + " is accepted");
    c.nontrivial(true);
    c.label(kind);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P18", {
        {"roundtrip", roundtrip, 12000, 400000, "the engine has rules, and an output value is finite"},
        {"layouts", layouts, 12000, 300000, "the engine has rules; the text was rendered by the harness with random layout"},
        {"corrupted", corrupted, 16000, 300000, "every text has exactly one corruption"},
    });
}
