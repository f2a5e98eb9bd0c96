// P39: the bundled examples compute what they describe, in every format, and reproduce their recorded data.
#include "build.h"
#include <algorithm>
#include <filesystem>
#include <cstring>
#include <fstream>
using namespace pbt;
using model::CondP;
using model::ExprP;

struct Example {
    std::string name, fll, fcl, fis;
    model::Engine engine;
    std::vector<std::vector<double>> rows;  // recorded inputs and outputs
    bool lockPrevious = false;
    bool chained = false;  // an output variable is in an antecedent
    bool leaks = false;  // a hedge in a conclusion is followed by others: what it does there is a known finding of P04
};
static std::vector<Example> examples;

static std::string slurp(const std::string& path) {
    std::ifstream f(path);
    std::stringstream t;
    t << f.rdbuf();
    return t.str();
}

// ---- a reader of FLL that shares nothing with the library ----
static std::vector<std::string> words(const std::string& t) {
    std::istringstream i(t);
    std::vector<std::string> r;
    std::string w;
    while (i >> w)
        r.push_back(w);
    return r;
}
static double toNumber(const std::string& t) { return t == "nan" ? model::NaN : t == "inf" ? model::Inf : t == "-inf" ? -model::Inf : atof(t.c_str()); }

struct Formula {  // + - * / and functions of one argument
    std::string t;
    size_t i = 0;
    char peek() {
        while (i < t.size() && t[i] == ' ')
            ++i;
        return i < t.size() ? t[i] : 0;
    }
    ExprP factor() {
        if (peek() == '(') {
            ++i;
            ExprP r = sum();
            peek();
            ++i;
            return r;
        }
        std::string w;
        while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '.' || t[i] == '_'))
            w += t[i++];
        if (peek() == '(') {
            ++i;
            ExprP a = sum();
            peek();
            ++i;
            return model::node(model::Expr::Call, w, {a});
        }
        if (isdigit((unsigned char)w[0]))
            return model::number(atof(w.c_str()));
        return model::variable(w);
    }
    ExprP product() {
        ExprP r = factor();
        while (peek() == '*' || peek() == '/') {
            std::string op(1, t[i++]);
            r = model::node(model::Expr::Binary, op, {r, factor()});
        }
        return r;
    }
    ExprP sum() {
        ExprP r = product();
        while (peek() == '+' || peek() == '-') {
            std::string op(1, t[i++]);
            r = model::node(model::Expr::Binary, op, {r, product()});
        }
        return r;
    }
};

static bool isHedge(const std::string& w) { return w == "any" || std::count(model::hedges().begin(), model::hedges().end(), w); }

struct Rules {
    std::vector<std::string> w;
    size_t i = 0;
    std::string at() { return i < w.size() ? w[i] : ""; }
    model::Proposition proposition() {
        model::Proposition p;
        p.var = at();
        i += 2;  // is
        while (isHedge(at()))
            p.hedges.push_back(w[i++]);
        if (p.hedges.empty() || p.hedges.back() != "any")
            p.term = w[i++];
        return p;
    }
    CondP both(const std::string& op, CondP a, CondP b) {
        auto c = std::make_shared<model::Cond>();
        c->op = op;
        c->left = a;
        c->right = b;
        return c;
    }
    CondP atom() {
        if (at() == "(") {
            ++i;
            CondP r = ors();
            ++i;
            return r;
        }
        auto c = std::make_shared<model::Cond>();
        c->prop = proposition();
        return c;
    }
    CondP ands() {
        CondP r = atom();
        while (at() == "and") {
            ++i;
            r = both("and", r, atom());
        }
        return r;
    }
    CondP ors() {
        CondP r = ands();
        while (at() == "or") {
            ++i;
            r = both("or", r, ands());
        }
        return r;
    }
    model::Rule rule(const std::string& text) {
        std::string spaced;
        for (char c : text)
            spaced += c == '(' || c == ')' ? std::string(" ") + c + " " : std::string(1, c);
        w = words(spaced);
        i = 1;  // if
        model::Rule r;
        r.antecedent = ors();
        do {
            ++i;  // then, and
            r.consequent.push_back(proposition());
        } while (at() == "and");
        if (at() == "with")
            r.weight = toNumber(w.at(i + 1));
        r.text = text;
        return r;
    }
};
static model::Engine readFll(const std::string& text) {
    model::Engine e;
    std::istringstream lines(text);
    std::string line;
    model::Variable* v = nullptr;
    model::Block* b = nullptr;
    auto none = [](const std::string& t) { return t == "none" ? std::string() : t; };
    while (std::getline(lines, line)) {
        size_t hash = line.find('#');
        if (hash != std::string::npos)
            line = line.substr(0, hash);
        size_t colon = line.find(':');
        if (colon == std::string::npos)
            continue;
        auto k = words(line.substr(0, colon));
        if (k.empty())
            continue;
        std::string key = k[0];
        auto a = words(line.substr(colon + 1));
        std::string first = a.empty() ? "" : a[0], second = a.size() > 1 ? a[1] : "";
        if (key == "Engine")
            e.name = first;
        else if (key == "InputVariable") {
            e.inputs.emplace_back();
            v = &e.inputs.back();
            v->name = first;
            b = nullptr;
        } else if (key == "OutputVariable") {
            e.outputs.emplace_back();
            v = &e.outputs.back();
            v->name = first;
            v->output = true;
            b = nullptr;
        } else if (key == "RuleBlock") {
            e.blocks.emplace_back();
            b = &e.blocks.back();
            b->name = first;
            v = nullptr;
        } else if (b) {
            if (key == "enabled") b->enabled = first == "true";
            else if (key == "conjunction") b->conjunction = none(first);
            else if (key == "disjunction") b->disjunction = none(first);
            else if (key == "implication") b->implication = none(first);
            else if (key == "activation") b->activation.cls = first;
            else if (key == "rule") b->rules.push_back(Rules().rule(line.substr(colon + 2)));
        } else if (v) {
            if (key == "enabled") v->enabled = first == "true";
            else if (key == "range") v->min = toNumber(first), v->max = toNumber(second);
            else if (key == "lock-range") v->lockRange = first == "true";
            else if (key == "aggregation") v->aggregation = none(first);
            else if (key == "default") v->defaultValue = toNumber(first);
            else if (key == "lock-previous") v->lockPrevious = first == "true";
            else if (key == "defuzzifier") {
                v->defuzzifier = none(first);
                if (first.compare(0, 8, "Weighted") == 0) v->weightedType = second.empty() ? "Automatic" : second;
                else if (!second.empty()) v->resolution = atoi(second.c_str());
            } else if (key == "term") {
                model::Term t;
                t.name = first;
                t.cls = second;
                std::vector<double> p;
                if (t.cls == "Function") {
                    std::string rest = line.substr(line.find("Function") + 8);
                    t.formulaText = words(rest).empty() ? "" : rest.substr(rest.find_first_not_of(' '));
                    Formula f;
                    f.t = t.formulaText;
                    t.formula = f.sum();
                } else {
                    for (size_t q = 2; q < a.size(); ++q)
                        p.push_back(toNumber(a[q]));
                    static const std::map<std::string, size_t> arity = {{"Bell", 3}, {"Binary", 2}, {"Concave", 2}, {"Cosine", 2}, {"Gaussian", 2}, {"GaussianProduct", 4}, {"PiShape", 4}, {"Ramp", 2},
                        {"Rectangle", 2}, {"SShape", 2}, {"Sigmoid", 2}, {"SigmoidDifference", 4}, {"SigmoidProduct", 4}, {"Spike", 2}, {"Trapezoid", 4}, {"Triangle", 3}, {"ZShape", 2}};
                    auto n = arity.find(t.cls);
                    if (t.cls == "Discrete") {
                        if (p.size() % 2) {
                            t.height = p.back();
                            p.pop_back();
                        }
                        for (size_t q = 0; q + 1 < p.size(); q += 2)
                            t.xy.push_back({p[q], p[q + 1]});
                        p.clear();
                    } else if (n != arity.end() && p.size() == n->second + 1) {
                        t.height = p.back();
                        p.pop_back();
                    }
                    t.p = p;
                }
                v->terms.push_back(t);
            }
        }
    }
    return e;
}

static bool mentionsOutput(const model::Engine& e, const CondP& c) {
    if (!c->op.empty())
        return mentionsOutput(e, c->left) || mentionsOutput(e, c->right);
    const model::Variable* v = e.find(c->prop.var);
    return v && v->output;
}

static void load() {
    std::vector<std::string> paths;
    std::error_code ec;
    for (auto it = std::filesystem::recursive_directory_iterator(VERIF_REPO "/examples", ec); !ec && it != std::filesystem::recursive_directory_iterator(); it.increment(ec)) {
        std::string p = it->path().string();
        if (p.size() > 4 && p.substr(p.size() - 4) == ".fll" && p.find("/original/") == std::string::npos)
            paths.push_back(p.substr(0, p.size() - 4));
    }
    std::sort(paths.begin(), paths.end());
    for (auto& p : paths) {
        Example x;
        x.name = p.substr(std::string(VERIF_REPO "/examples/").size());
        x.fll = slurp(p + ".fll");
        x.fcl = slurp(p + ".fcl");
        x.fis = slurp(p + ".fis");
        x.engine = readFll(x.fll);
        std::istringstream data(slurp(p + ".fld"));
        std::string line;
        std::getline(data, line);
        while (std::getline(data, line)) {
            std::vector<double> row;
            for (auto& w : words(line))
                row.push_back(toNumber(w));
            if (row.size() == x.engine.inputs.size() + x.engine.outputs.size())
                x.rows.push_back(row);
        }
        for (auto& o : x.engine.outputs)
            x.lockPrevious = x.lockPrevious || o.lockPrevious;
        for (auto& b : x.engine.blocks)
            for (auto& r : b.rules) {
                x.chained = x.chained || mentionsOutput(x.engine, r.antecedent);
                for (size_t i = 0; i + 1 < r.consequent.size(); ++i)
                    x.leaks = x.leaks || !r.consequent[i].hedges.empty();
            }
        examples.push_back(x);
    }
}
static const Example& pick(Case& c) {
    if (examples.empty())
        c.fail("examples", "there are no examples in " VERIF_REPO "/examples");
    const Example& x = c.src.oneOf(examples);
    c.say(x.name);
    c.label(x.name);
    return x;
}
static EngineP import(Case& c, const Example& x, int format) {
    try {
        switch (format) {
            case 0: return EngineP(fl::FllImporter().fromString(x.fll));
            case 1: return EngineP(fl::FclImporter().fromString(x.fcl));
            default: return EngineP(fl::FisImporter().fromString(x.fis));
        }
    } catch (fl::Exception& ex) {
        c.fail("import", x.name + " cannot be imported: " + ex.what());
    }
}
static const char* names[] = {"FLL", "FCL", "FIS"};

// inputs concentrated on the range
static std::vector<double> genRow(Src& s, const model::Engine& e, const Example& x) {
    std::vector<double> row;
    if (!x.rows.empty() && s.chance(1, 4)) {
        auto& r = x.rows[s.u((uint32_t)x.rows.size())];
        return std::vector<double>(r.begin(), r.begin() + e.inputs.size());
    }
    for (auto& v : e.inputs) {
        bool finite = std::isfinite(v.min) && std::isfinite(v.max);
        row.push_back(finite && s.coin() ? v.min + (v.max - v.min) * (s.u(1u << 20) / double(1 << 20)) : s.chance(1, 12) ? model::NaN : model::genInput(s, v));
    }
    return row;
}
static void against(Case& c, const model::Engine& e, fl::Engine& engine, const Example& x, const std::string& what, double tolerance) {
    Src& s = c.src;
    model::Machine m(e);
    c.checkf(engine.numberOfInputVariables() == e.inputs.size() && engine.numberOfOutputVariables() == e.outputs.size(), "variables", [&] { return what + " has other variables"; });
    int finite = 0;
    bool diverged = false;
    for (int i = s.range(1, 5); i > 0; --i) {
        auto row = genRow(s, e, x);
        c.note([&] { return "row " + build::show(row); });
        model::fragile = false;
        for (size_t k = 0; k < row.size(); ++k)
            m.setInput(k, row[k]);
        m.process();
        try {
            build::setInputs(engine, row);
            engine.process();
        } catch (fl::Exception& ex) {
            c.fail("exception", what + ": processing raised " + ex.what());
        }
        diverged = diverged || model::fragile;
        for (size_t k = 0; k < e.outputs.size() && !diverged; ++k) {
            double got = engine.getOutputVariable(k)->getValue(), want = m.out[k].value;
            double scale = std::isfinite(e.outputs[k].max - e.outputs[k].min) ? std::fabs(e.outputs[k].max - e.outputs[k].min) : 1;
            c.checkf(close(got, want, tolerance, tolerance * std::max(1.0, scale)), "value", [&] { return what + ": " + e.outputs[k].name + " = " + str(got) + ", expected " + str(want) + " for " + build::show(row); });
            finite += std::isfinite(want);
        }
    }
    if (finite)
        c.nontrivial();
}

// the three files of an example give the values of the model
static void formats(Case& c) {
    const Example& x = pick(c);
    int format = c.src.u(3);
    if (x.leaks)
        return;
    EngineP engine = import(c, x, format);
    model::Engine e = x.engine;
    if (format == 2 && (e.blocks.size() > 1 || x.chained))  // out of the scope of the format
        return;
    if (format == 2)
        for (auto& o : e.outputs)
            o.lockPrevious = x.fis.find("LockPrevious=1") != std::string::npos;
    if (format == 2) {  // the operators are those of the file, which names them all
        static const std::map<std::string, std::string> norms = {{"min", "Minimum"}, {"prod", "AlgebraicProduct"}, {"einstein_product", "EinsteinProduct"}, {"max", "Maximum"},
            {"probor", "AlgebraicSum"}, {"einstein_sum", "EinsteinSum"}};
        auto norm = [&](const char* key) {
            size_t at = x.fis.find(key) + strlen(key) + 2;
            auto i = norms.find(x.fis.substr(at, x.fis.find('\'', at) - at));
            if (i == norms.end())
                c.fail("norm", x.name + ": the norm of " + key + " is not known to this check");
            return i->second;
        };
        e.blocks[0].conjunction = norm("AndMethod");
        e.blocks[0].disjunction = norm("OrMethod");
        e.blocks[0].implication = norm("ImpMethod");
        for (auto& o : e.outputs)
            o.aggregation = norm("AggMethod");
    }
    if (format > 0) {
        for (auto& v : e.inputs)
            v.lockRange = false;
        for (auto& v : e.outputs) {
            v.lockRange = false;
            v.resolution = fl::IntegralDefuzzifier::defaultResolution();  // the formats have no word for it
        }
    }
    // the flag is kept; what it holds lags behind (a known finding of P06), so the values are compared without it
    for (size_t k = 0; k < e.outputs.size() && k < engine->numberOfOutputVariables(); ++k) {
        fl::OutputVariable* o = engine->getOutputVariable(k);
        c.checkf(o->isLockPreviousValue() == e.outputs[k].lockPrevious, "lock-previous", [&] { return x.name + " (" + names[format] + "): " + o->getName() + " holds its value or not"; });
        o->setLockPreviousValue(e.outputs[k].lockPrevious = false);
    }
    c.label(names[format]);
    against(c, e, *engine, x, x.name + " (" + names[format] + ")", 1e-8);
}

// the recorded data
static void data(Case& c) {
    const Example& x = pick(c);
    Src& s = c.src;
    if (x.rows.empty())
        c.fail("data", "no data for " + x.name);
    EngineP engine = import(c, x, 0);
    size_t first, last;
    size_t target = s.u((uint32_t)x.rows.size());
    if (x.lockPrevious) {  // what was held before matters
        first = 0;
        last = std::min<size_t>(x.rows.size() - 1, target);
    } else {
        first = target;
        last = std::min<size_t>(x.rows.size() - 1, target + s.u(4));
    }
    size_t n = x.engine.inputs.size();
    model::Machine m(x.engine);
    for (size_t i = first; i <= last; ++i) {
        auto& r = x.rows[i];
        try {
            for (size_t k = 0; k < n; ++k)
                engine->getInputVariable(k)->setValue(r[k]);
            engine->process();
        } catch (fl::Exception& ex) {
            c.fail("exception", x.name + ": processing raised " + ex.what());
        }
        // at exact ties between maxima the last bits decide, and they differed when the data was recorded
        model::fragile = false;
        if (!x.leaks) {
            for (size_t k = 0; k < n; ++k)
                m.setInput(k, r[k]);
            m.process();
        }
        if (model::fragile)
            continue;
        for (size_t k = 0; k < engine->numberOfOutputVariables(); ++k) {
            double got = engine->getOutputVariable(k)->getValue(), want = r[n + k];
            c.checkf(close(got, want, 1e-6, 1e-6), "data", [&] { return x.name + strf(" row %zu: ", i + 1) + engine->getOutputVariable(k)->getName() + " = " + str(got) + ", recorded " + str(want); });
            if (std::isfinite(want))
                c.nontrivial();
        }
    }
}

// edited examples: what remains of an example after changes is still what the model says, before and after conversion
static void edited(Case& c) {
    const Example& x = pick(c);
    Src& s = c.src;
    model::Engine e = x.engine;
    for (auto& o : e.outputs)
        o.lockPrevious = false;
    int edits = s.range(1, 5);
    for (int i = 0; i < edits; ++i) {
        model::Block& b = s.oneOf(std::vector<model::Block*>{&e.blocks.front(), &e.blocks.back()})[0];
        model::Variable& o = e.outputs[s.u((uint32_t)e.outputs.size())];
        model::Variable& in = e.inputs[s.u((uint32_t)e.inputs.size())];
        bool weighted = o.defuzzifier.compare(0, 8, "Weighted") == 0;
        switch (s.u(12)) {
            case 0: b.conjunction = s.oneOf(model::tnorms()); break;
            case 1: b.disjunction = s.oneOf(model::snorms()); break;
            case 2: b.implication = s.oneOf(model::tnorms()); break;
            case 3: o.aggregation = s.oneOf(model::snorms()); break;
            case 4:
                if (weighted) o.defuzzifier = s.coin() ? "WeightedSum" : "WeightedAverage";
                else o.defuzzifier = s.oneOf(model::integralDefuzzifiers()), o.resolution = s.range(10, 100);
                break;
            case 5: o.defaultValue = s.num(o.min, std::isfinite(o.max) ? o.max : o.min + 1); break;
            case 6: o.lockRange = !o.lockRange; break;
            case 7: in.lockRange = !in.lockRange; break;
            case 8: (s.coin() ? in : o).enabled = false; break;
            case 9: if (b.rules.size() > 1) b.rules.erase(b.rules.begin() + s.u((uint32_t)b.rules.size())); break;
            case 10: if (!b.rules.empty()) b.rules[s.u((uint32_t)b.rules.size())].weight = s.oneOf(std::vector<double>{0.5, 0.25, 0, 1, 0.9}); break;
            default:
                b.activation.cls = s.oneOf(std::vector<std::string>{"General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"});
                b.activation.n = s.range(1, 4);
                b.activation.threshold = s.oneOf(std::vector<double>{0, 0.1, 0.5});
                b.activation.comparison = s.oneOf(std::vector<std::string>{">=", ">", "<", "<="});
        }
    }
    for (auto& b : e.blocks)
        for (auto& r : b.rules) {
            for (size_t i = 0; i + 1 < r.consequent.size(); ++i)
                r.consequent[i].hedges.clear();
            r.text = model::ruleText(r);
        }
    std::string text = build::fll(e);
    c.note([&] { return text; });
    EngineP engine;
    try {
        engine.reset(fl::FllImporter().fromString(text));
        std::string what = x.name + " edited";
        if (s.coin()) {
            fl::fuzzylite::setDecimals(9);
            std::string again = fl::FllExporter().toString(engine.get());
            fl::fuzzylite::setDecimals(3);
            engine.reset(fl::FllImporter().fromString(again));
            c.say("exported and imported again");
        }
        if (s.chance(1, 3)) {
            engine.reset(new fl::Engine(*engine));
            c.say("copied");
        }
    } catch (fl::Exception& ex) {
        fl::fuzzylite::setDecimals(3);
        c.fail("import", x.name + " edited cannot be imported: " + ex.what());
    }
    against(c, e, *engine, x, x.name + " edited", 1e-8);
}

// the example engines that the console builds by itself
static void console(Case& c) {
    Src& s = c.src;
    int which = (int)s.u(3);
    EngineP engine(which == 0 ? fl::Console::mamdani() : which == 1 ? fl::Console::takagiSugeno() : fl::Console::hybrid());
    c.label(which == 0 ? "mamdani" : which == 1 ? "takagi-sugeno" : "hybrid");
    // the built engine is what its text says, and the hybrid one is that of the bundled file
    const Example* file = nullptr;
    for (auto& x : examples)
        if (x.name == "hybrid/tipper")
            file = &x;
    Example own;
    own.name = "console";
    own.engine = which == 2 && file ? file->engine : readFll(fl::FllExporter().toString(engine.get()));
    std::string status;
    c.check(engine->isReady(&status), "ready", "the engine is not ready: " + status);
    for (size_t k = 0; k < engine->numberOfOutputVariables(); ++k) {
        engine->getOutputVariable(k)->setLockPreviousValue(false);  // what is held is the business of P06
        own.engine.outputs[k].lockPrevious = false;
    }
    if (s.chance(1, 4)) {
        engine.reset(new fl::Engine(*engine));
        c.say("copied");
    }
    if (s.coin()) {
        against(c, own.engine, *engine, own, "the engine of the console", 1e-8);
        return;
    }
    if (which == 2)
        return;
    // what the descriptions say
    c.check(engine->numberOfInputVariables() == 1 && engine->numberOfOutputVariables() == (which == 0 ? 1u : 3u), "variables", "other variables");
    for (int i = s.range(1, 6); i > 0; --i) {
        double x = which == 0 ? s.num(0.02, 0.98) : s.chance(1, 3) ? s.range(1, 9) : s.num(1, 9);
        c.note([&] { return "x " + str(x); });
        engine->getInputVariable(0)->setValue(x);
        engine->process();
        double y = engine->getOutputVariable(0)->getValue();
        if (which == 0) {  // the brighter the light, the lower the power, symmetrically
            engine->getInputVariable(0)->setValue(1 - x);
            engine->process();
            double z = engine->getOutputVariable(0)->getValue();
            c.check(close(y + z, 2, 1e-6, 1e-6), "dimmer", "the power is " + str(y) + " at " + str(x) + " and " + str(z) + " at one minus that");
            c.check(x < 0.499 ? y > 1 : x > 0.501 ? y < 1 : true, "dimmer", "the power is " + str(y) + " at " + str(x));
        } else {
            double truth = engine->getOutputVariable(1)->getValue(), difference = engine->getOutputVariable(2)->getValue();
            c.check(close(truth, std::sin(x) / x, 1e-9, 1e-9), "truth", "the true value is " + str(truth) + " at " + str(x));
            c.check(close(difference, y - truth, 1e-9, 1e-9), "difference", "the difference is " + str(difference) + " with " + str(y) + " and " + str(truth));
            c.check(std::fabs(y - truth) < (x == std::floor(x) ? 0.01 : 0.06), "approximation", "the approximation is " + str(y) + " of " + str(truth) + " at " + str(x));
        }
    }
    c.nontrivial();
}

int main(int argc, char** argv) {
    load();
    return pbt::main(argc, argv, "P39", {
        {"formats", formats, 8000, 200000, "a finite output was compared"},
        {"data", data, 4000, 100000, "a finite output was compared"},
        {"console", console, 2000, 40000, "a finite output was compared, or what the engine approximates"},
        {"edited", edited, 8000, 200000, "a finite output was compared"},
    });
}
