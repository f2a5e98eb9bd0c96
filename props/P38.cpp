// P38: the library's settings change only what they document.
#include "build.h"
#include <algorithm>
#include <iostream>
using namespace pbt;

typedef std::ios_base::fmtflags Format;

struct Settings {
    int decimals = 3;
    Format format = std::ios_base::fixed;
    bool logging = false, debugging = false;
    double atol = 1e-3;

    void apply() const {
        fl::fuzzylite::setDecimals(decimals);
        fl::fuzzylite::setScalarFormat(format);
        fl::fuzzylite::setLogging(logging);
        fl::fuzzylite::setDebugging(debugging);
        fl::fuzzylite::setAbsoluteTolerance(atol);
    }
    std::string text() const {
        return strf("decimals %d, format %s, logging %d, debugging %d, absolute tolerance %g", decimals,
            format == std::ios_base::fixed ? "fixed" : format == std::ios_base::scientific ? "scientific" : "general", logging, debugging, atol);
    }
};
struct Restore {  // the settings and the streams
    double macheps = fl::fuzzylite::macheps();
    std::ostringstream out, err, log;
    std::streambuf *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf()), *l = std::clog.rdbuf(log.rdbuf());
    ~Restore() {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
        std::clog.rdbuf(l);
        Settings().apply();
        fl::fuzzylite::setMachEps(macheps);
    }
    std::string printed() const { return out.str() + err.str() + log.str(); }
};
static Settings any(Src& s, bool texts) {
    Settings r;
    r.logging = s.coin();
    r.debugging = s.coin();
    r.atol = s.oneOf<double>({1e-3, 1e-9, 0.5, 0});
    if (texts) {
        r.decimals = s.range(0, 12);
        r.format = s.oneOf<Format>({std::ios_base::fixed, std::ios_base::scientific, Format(0)});
    }
    return r;
}
// what was set is still set
static void unchanged(Case& c, const Settings& s, const std::string& what) {
    Settings now;
    now.decimals = fl::fuzzylite::decimals();
    now.format = fl::fuzzylite::scalarFormat();
    now.logging = fl::fuzzylite::isLogging();
    now.debugging = fl::fuzzylite::isDebugging();
    now.atol = fl::fuzzylite::absoluteTolerance();
    c.checkf(s.text() == now.text(), "changed", [&] { return what + " changed the settings from " + s.text() + " to " + now.text(); });
}
static model::GenOptions options() {
    model::GenOptions o;
    o.maxRules = 5;
    o.maxResolution = 20;
    o.hedgesAnywhere = true;
    return o;
}

// everything that a step leaves to see, bit for bit
static std::string observe(fl::Engine& e, const std::vector<double>& row) {
    std::string r;
    try {
        build::setInputs(e, row);
        e.process();
    } catch (fl::Exception& x) {
        r += "raised an exception; ";
    }
    for (auto* o : e.outputVariables()) {
        r += strf("%s=%.17g (%.17g):", o->getName().c_str(), o->getValue(), o->getPreviousValue());
        for (auto& t : o->fuzzyOutput()->terms())
            r += strf(" %.17g/%s", t.getDegree(), t.getTerm()->getName().c_str());
        r += "; ";
    }
    for (auto* b : e.ruleBlocks())
        for (auto* x : b->rules())
            r += strf("%d:%.17g ", x->isTriggered(), x->getActivationDegree());
    return r;
}
// takes away what some engines need
static std::string damage(Src& s, fl::Engine& e) {
    switch (s.u(6)) {
        case 0: e.getRuleBlock(0)->setConjunction(nullptr); return "no conjunction";
        case 1: e.getRuleBlock(0)->setDisjunction(nullptr); return "no disjunction";
        case 2: e.getRuleBlock(0)->setImplication(nullptr); return "no implication";
        case 3: e.getOutputVariable(0)->setDefuzzifier(nullptr); return "no defuzzifier";
        case 4: e.getOutputVariable(0)->setAggregation(nullptr); return "no aggregation";
        default: e.getRuleBlock(0)->setActivation(nullptr); return "no activation";
    }
}

static void results(Case& c) {
    Src& s = c.src;
    model::Engine e = model::genEngine(s, options());
    c.note([&] { return model::describe(e); });
    EngineP a = build::engine(e), b = build::engine(e);
    if (s.chance(1, 5)) {
        Rng fixed(s.u(1000));
        std::vector<uint32_t> same{s.u(6)};
        Src x, y;
        x.replay = y.replay = &same;
        std::string what = damage(x, *a);
        damage(y, *b);
        c.say(what);
    }
    Restore restore;
    auto rows = build::genInputs(s, e, s.range(1, 5), true);
    int n = 0;
    for (auto& row : rows) {
        Settings settings = any(s, true);
        Settings().apply();
        std::string want = observe(*a, row);
        c.checkf(restore.printed().empty(), "printed", [&] { return "processing " + build::show(row) + " printed <" + restore.printed() + ">"; });
        settings.apply();
        std::string got = observe(*b, row);
        unchanged(c, settings, "processing");
        Settings().apply();
        c.checkf(want == got, "results", [&] { return "with " + settings.text() + ", row " + build::show(row) + "\n  gives " + got + "\n  instead of " + want; });
        if (!settings.debugging)
            c.checkf(restore.printed().empty(), "printed", [&] { return "with " + settings.text() + " processing printed <" + restore.printed() + ">"; });
        restore.out.str("");
        for (auto* o : a->outputVariables())
            n += std::isfinite(o->getValue());
    }
    c.nontrivial(n > 0);
}

// numbers of a text, and the text without them
struct Tokens {
    std::string rest;
    std::vector<std::string> numbers;
};
static Tokens tokens(const std::string& t) {
    Tokens r;
    for (size_t i = 0; i < t.size();) {
        bool start = i == 0 || !(isalnum((unsigned char)t[i - 1]) || t[i - 1] == '_' || t[i - 1] == '.');
        size_t k = i;
        if (start && (t[k] == '-' || t[k] == '+'))
            ++k;
        if (start && k < t.size() && isdigit((unsigned char)t[k])) {
            while (k < t.size() && isdigit((unsigned char)t[k]))
                ++k;
            if (k + 1 < t.size() && t[k] == '.' && isdigit((unsigned char)t[k + 1])) {
                ++k;
                while (k < t.size() && isdigit((unsigned char)t[k]))
                    ++k;
            }
            if (k + 2 < t.size() && t[k] == 'e' && (t[k + 1] == '-' || t[k + 1] == '+') && isdigit((unsigned char)t[k + 2])) {
                k += 2;
                while (k < t.size() && isdigit((unsigned char)t[k]))
                    ++k;
            }
            r.numbers.push_back(t.substr(i, k - i));
            r.rest += '#';
            i = k;
        } else
            r.rest += t[i++];
    }
    return r;
}
static std::string exported(const fl::Engine& e, int format) {
    switch (format) {
        case 0: return fl::FllExporter().toString(&e);
        case 1: return fl::FclExporter().toString(&e);
        case 2: return fl::FisExporter().toString(&e);
        case 3: return fl::CppExporter().toString(&e);
        case 4: return fl::JavaExporter().toString(&e);
        case 5: return fl::RScriptExporter().toString(const_cast<fl::Engine*>(&e), e.getInputVariable(0), e.getInputVariable(e.numberOfInputVariables() - 1), 9, fl::FldExporter::AllVariables, e.outputVariables());
        default: return fl::FldExporter().toString(const_cast<fl::Engine*>(&e), 9, fl::FldExporter::AllVariables);
    }
}
static const char* formatName(int f) {
    static const char* names[] = {"FLL", "FCL", "FIS", "C++", "Java", "R", "FLD"};
    return names[f];
}
static void texts(Case& c) {
    Src& s = c.src;
    model::GenOptions o = options();
    o.lockPrevious = false;
    o.descriptions = s.coin();
    model::Engine e = model::genEngine(s, o);
    int format = s.u(7);
    c.note([&] { return model::describe(e) + formatName(format); });
    EngineP engine = build::engine(e);
    Restore restore;
    auto produce = [&](const Settings& settings, std::string& text) {
        settings.apply();
        std::string error;
        try {
            text = exported(*engine, format);
        } catch (fl::Exception& x) {
            error = "raised";
        }
        unchanged(c, settings, std::string("exporting to ") + formatName(format));
        Settings().apply();
        return error;
    };
    std::string plain, other, again, fine;
    std::string error = produce(Settings(), plain);
    c.checkf(restore.printed().empty(), "printed", [&] { return std::string("exporting to ") + formatName(format) + " printed <" + restore.printed() + ">"; });
    Settings settings = any(s, s.coin());
    std::string e2 = produce(settings, other);
    if (!settings.debugging)
        c.checkf(restore.printed().empty(), "printed", [&] { return std::string("exporting to ") + formatName(format) + " printed <" + restore.printed() + ">"; });
    std::string e3 = produce(Settings(), again);
    c.checkf(error == e2 && error == e3, "errors", [&] { return std::string("with ") + settings.text() + " exporting to " + formatName(format) + (e2.empty() ? " succeeds" : " fails"); });
    if (!error.empty())
        return;
    c.checkf(plain == again, "restored", [&] { return "after restoring from " + settings.text() + " the text is <" + again + "> instead of <" + plain + ">"; });
    if (settings.decimals == 3 && settings.format == std::ios_base::fixed)
        c.checkf(plain == other, "texts", [&] { return "with " + settings.text() + " the text is <" + other + "> instead of <" + plain + ">"; });
    Settings precise;
    precise.decimals = 16;
    c.checkf(produce(precise, fine).empty(), "errors", [&] { return std::string("with 16 decimals the text cannot be exported"); });
    Tokens x = tokens(fine), y = tokens(other);
    bool differ = x.rest != y.rest || x.numbers.size() != y.numbers.size();
    if (differ) {
        // 1e20 and the like are written in full by one and not by the other; nothing else changes
        c.fail("structure", "with " + settings.text() + " the text is <" + other + ">, with 16 decimals <" + fine + ">");
    }
    for (size_t i = 0; i < x.numbers.size(); ++i) {
        double a = atof(x.numbers[i].c_str()), b = atof(y.numbers[i].c_str());
        double unit = std::pow(10.0, -settings.decimals), tolerance = unit / 2;
        if (settings.format == std::ios_base::scientific)
            tolerance = std::fabs(a) * unit / 2;
        else if (settings.format == Format(0))  // decimals are digits then; none is read as one
            tolerance = std::fabs(a) * 5 * std::pow(10.0, -std::max(1, settings.decimals));
        bool ok = std::fabs(a - b) <= tolerance * (1 + 1e-9) + 1e-15 * (1 + std::fabs(a)) || (std::fabs(a) < unit * (1 + 1e-9) && b == 0);
        if (ok && settings.format != Format(0) && x.numbers[i].find('.') + 17 == x.numbers[i].size()) {
            // as many decimals as asked for, and no sign on what is written as zero
            const std::string& w = y.numbers[i];
            size_t e = w.find('e'), dot = w.find('.');
            size_t digits = dot == std::string::npos ? 0 : (e == std::string::npos ? w.size() : e) - dot - 1;
            c.checkf(int(digits) == settings.decimals && (b != 0 || w[0] != '-'), "digits", [&] { return "with " + settings.text() + " the number " + x.numbers[i] + " is written " + w + " in <" + other + ">"; });
        }
        c.checkf(ok, "numbers", [&] { return "with " + settings.text() + " the number " + x.numbers[i] + " is written " + y.numbers[i] + " in <" + other + ">"; });
    }
    c.label(formatName(format));
    c.nontrivial(other != plain);
}

// more digits in the numbers that are written with three decimals
static std::string detailed(Src& s, const std::string& text) {
    std::string r;
    Rng random(s.u(1000000));
    size_t codes = text.find("[Rules]");  // of FIS, where all but the weight are not quantities
    for (size_t i = 0; i < text.size(); ++i) {
        r += text[i];
        bool ends = i + 1 == text.size() || !(isalnum((unsigned char)text[i + 1]) || text[i + 1] == '.');
        ends = ends && (i < codes || (i + 1 < text.size() && text[i + 1] == ')'));
        if (ends && i > 3 && text[i - 3] == '.' && isdigit((unsigned char)text[i]) && isdigit((unsigned char)text[i - 1]) && isdigit((unsigned char)text[i - 2]) && isdigit((unsigned char)text[i - 4]))
            for (uint32_t k = random.next() % 8; k > 0; --k)
                r += char('0' + random.next() % 10);
    }
    return r;
}
// importing gives the same engine and the same errors, and says nothing unless it is asked to
static void imports(Case& c) {
    Src& s = c.src;
    model::GenOptions o = options();
    o.descriptions = true;
    int format = s.chance(1, 2) ? 1 + s.u(2) : 0;
    if (format == 2) {  // what can be said in FIS
        o.maxBlocks = 1;
        o.outputsInAntecedent = o.hedgesInConsequent = o.functions = o.activations = false;
        o.grow = false;
    }
    model::Engine e = model::genEngine(s, o);
    for (auto& b : e.blocks)
        for (auto& r : b.rules)
            r.enabled = true;
    Restore restore;
    std::string text;
    if (format == 0)
        text = build::fll(e);
    else
        try {
            EngineP engine = build::engine(e);
            text = exported(*engine, format);
        } catch (fl::Exception&) {
            format = 0;
            text = build::fll(e);
        }
    if (s.coin())
        text = detailed(s, text);
    int faults = s.u(3);
    for (int i = 0; i < faults && !text.empty(); ++i) {
        size_t at = s.u((uint32_t)text.size());
        switch (s.u(3)) {
            case 0: text.erase(at, 1 + s.u(20)); break;
            case 1: text.insert(at, s.oneOf<std::string>({" ", "\n", ":", "#", "x", "activation: Minimum\n", "accumulation: Maximum\n"})); break;
            default: text[at] = "abc:0 \n"[s.u(7)];
        }
    }
    if (s.chance(1, 3)) {  // obsolete words are accepted
        size_t at = text.find("aggregation:");
        if (at != std::string::npos)
            text.replace(at, 11, "accumulation");
    }
    c.note([&] { return text; });
    auto import = [&](EngineP& engine) {
        try {
            if (format == 0)
                engine.reset(fl::FllImporter().fromString(text));
            else if (format == 1)
                engine.reset(fl::FclImporter().fromString(text));
            else
                engine.reset(fl::FisImporter().fromString(text));
            return std::string();
        } catch (fl::Exception& x) {
            return std::string(x.what());
        }
    };
    EngineP a, b;
    Settings().apply();
    std::string x = import(a);
    c.checkf(restore.printed().empty(), "printed", [&] { return "importing printed <" + restore.printed() + ">"; });
    Settings settings = any(s, true);
    settings.apply();
    std::string y = import(b);
    unchanged(c, settings, "importing");
    Settings().apply();
    if (!settings.debugging && !settings.logging)
        c.checkf(restore.printed().empty(), "printed", [&] { return "with " + settings.text() + " importing printed <" + restore.printed() + ">"; });
    c.checkf(x.empty() == y.empty(), "errors", [&] { return "with " + settings.text() + " importing gives <" + y + "> instead of <" + x + ">"; });
    if (a && b) {
        Settings precise;
        precise.decimals = 16;
        precise.apply();
        std::string ta = fl::FllExporter().toString(a.get()), tb = fl::FllExporter().toString(b.get());
        Settings().apply();
        c.checkf(ta == tb, "imported", [&] { return "with " + settings.text() + " importing gives <" + tb + "> instead of <" + ta + ">"; });
        std::vector<double> row;
        for (auto& v : e.inputs)
            row.push_back(model::genInput(s, v));
        row.resize(a->numberOfInputVariables(), 0.5);
        std::string ra = observe(*a, row), rb = observe(*b, row);
        c.checkf(ra == rb, "results", [&] { return "with " + settings.text() + " the imported engine gives " + rb + " instead of " + ra; });
    }
    c.label((x.empty() ? "imported " : "rejected ") + std::string(formatName(format)));
    c.nontrivial(settings.debugging || settings.logging || settings.decimals != 3);
}

// values within the tolerance count as equal, and only those
static void tolerance(Case& c) {
    Src& s = c.src;
    Restore restore;
    double eps = s.oneOf<double>({1e-6, 1e-9, 1e-4, 0.01, 1e-3, 1e-12});
    double shift = eps * s.oneOf<double>({0, 0.5, 0.9, 1.1, 2, 10}) * (s.coin() ? 1 : -1);
    double threshold = s.num(0.3, 0.7), degree = threshold + shift;
    bool near = std::fabs(shift) < eps;
    c.note([&] { return strf("tolerance %g, threshold %.17g, degree %.17g", eps, threshold, degree); });
    fl::Engine engine;
    fl::InputVariable* in = new fl::InputVariable("x", 0, 1);
    fl::OutputVariable* out = new fl::OutputVariable("y", 0, 1);
    engine.addInputVariable(in);
    engine.addOutputVariable(out);
    in->addTerm(new fl::Ramp("t", 0, 1));
    out->addTerm(new fl::Constant("k", 1));
    fl::RuleBlock* block = new fl::RuleBlock;
    engine.addRuleBlock(block);
    block->addRule(fl::Rule::parse("if x is t then y is k", &engine));
    const std::vector<std::string> comparisons = {"<", "<=", "==", "!=", ">=", ">"};
    int k = s.u(6);
    fl::Threshold* t = new fl::Threshold(comparisons[k], threshold);
    block->setActivation(t);
    in->setValue(degree);
    fl::fuzzylite::setMachEps(eps);
    block->activate();
    fl::fuzzylite::setMachEps(restore.macheps);
    bool want[] = {!near && shift < 0, near || shift < 0, near, !near, near || shift > 0, !near && shift > 0};
    bool got = !out->fuzzyOutput()->isEmpty();
    c.checkf(got == want[k], "threshold", [&] { return strf("with tolerance %g, a degree of %.17g %s %s %.17g", eps, degree, got ? "is" : "is not", comparisons[k].c_str(), threshold); });
    c.checkf(fl::fuzzylite::macheps() == restore.macheps, "macheps", [&] { return "the tolerance set is " + str(fl::fuzzylite::macheps()); });
    // whatever is set is what is in use
    Settings settings = any(s, true);
    settings.apply();
    bool kept = fl::fuzzylite::decimals() == settings.decimals && fl::fuzzylite::scalarFormat() == settings.format && fl::fuzzylite::isLogging() == settings.logging
                && fl::fuzzylite::isDebugging() == settings.debugging && fl::fuzzylite::absoluteTolerance() == settings.atol;
    fl::fuzzylite::setMachEps(eps);
    kept = kept && fl::fuzzylite::macheps() == eps && fl::fuzzylite::absoluteTolerance() == settings.atol;
    fl::fuzzylite::setAbsoluteTolerance(settings.atol + 0.25);
    kept = kept && fl::fuzzylite::macheps() == eps;
    c.check(kept, "kept", "a setting is not what was set: " + settings.text());
    c.nontrivial(shift != 0);
}

// benchmarks and parts keep the settings too
static void keeps(Case& c) {
    Src& s = c.src;
    model::GenOptions o = options();
    o.maxRules = 2;
    model::Engine e = model::genEngine(s, o);
    EngineP engine = build::engine(e), copy;
    Restore restore;
    Settings settings = any(s, true);
    settings.logging = settings.debugging = false;
    c.note([&] { return settings.text() + "\n" + model::describe(e); });
    settings.apply();
    std::string what;
    try {
        switch (s.u(6)) {
            case 0: {
                what = "a benchmark";
                fl::Benchmark b("b", engine.get());
                b.prepare(s.range(2, 20), e.inputs.size() > 3 || s.coin() ? fl::FldExporter::AllVariables : fl::FldExporter::EachVariable);
                b.run(s.range(1, 3));
                b.results();
                b.results(0, fl::Benchmark::MicroSeconds, s.coin());
                b.format(b.results(), s.coin() ? fl::Benchmark::Horizontal : fl::Benchmark::Vertical, s.coin() ? fl::Benchmark::Header : fl::Benchmark::HeaderAndBody);
                break;
            }
            case 1: {
                what = "copying";
                copy.reset(new fl::Engine(*engine));
                *copy = *engine;
                break;
            }
            case 2: {
                what = "showing";
                for (auto* v : engine->variables())
                    v->toString(), v->fuzzify(s.num(-1, 1)), v->highestMembership(s.num(-1, 1));
                for (auto* b : engine->ruleBlocks())
                    for (auto* r : b->rules())
                        r->toString();
                for (auto* v : engine->outputVariables())
                    v->fuzzyOutputValue(), v->fuzzyOutput()->toString();
                engine->toString();
                break;
            }
            case 3: {
                what = "status";
                std::string status;
                engine->isReady(&status);
                engine->type();
                break;
            }
            case 4: {
                what = "reading numbers";
                fl::Op::toScalar(s.oneOf<std::string>({"1.25", "nan", "-inf", "x"}));
                break;
            }
            default: {
                what = "exporting parts";
                fl::FllExporter f;
                for (auto* v : engine->variables())
                    f.toString(v);
                for (auto* b : engine->ruleBlocks())
                    f.toString(b);
            }
        }
    } catch (fl::Exception&) {
    }
    unchanged(c, settings, what);
    c.checkf(fl::fuzzylite::macheps() == restore.macheps, "changed", [&] { return what + " changed the comparison tolerance"; });
    c.checkf(restore.printed().empty(), "printed", [&] { return what + " printed <" + restore.printed() + ">"; });
    c.label(what);
    c.nontrivial(settings.decimals != 3 || settings.format != std::ios_base::fixed);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P38", {
        {"results", results, 12000, 300000, "an output is finite"},
        {"texts", texts, 8000, 200000, "the settings changed the text"},
        {"imports", imports, 8000, 200000, "the settings are not the default ones"},
        {"keeps", keeps, 3000, 60000, "the settings are not the default ones"},
        {"tolerance", tolerance, 40000, 400000, "the degree is not the threshold itself"},
    });
}
