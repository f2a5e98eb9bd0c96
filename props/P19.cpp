// P19: engines survive export to and import from the Fuzzy Inference System format.
#include "build.h"
#include <fstream>
#include <unistd.h>
using namespace pbt;

struct Resolution {
    int old = fl::IntegralDefuzzifier::defaultResolution();
    explicit Resolution(int r) { fl::IntegralDefuzzifier::setDefaultResolution(r); }
    ~Resolution() { fl::IntegralDefuzzifier::setDefaultResolution(old); }
};

// spaces within the text of rules do not matter, nor how their weights are written
static std::string squeeze(const std::string& t) {
    std::string r;
    for (char x : t)
        if (!(x == ' ' && !r.empty() && r.back() == ' '))
            r += x;
    std::string out, line;
    std::istringstream lines(r);
    while (std::getline(lines, line)) {
        size_t at = line.rfind(" with ");
        if (line.find("rule:") != std::string::npos && at != std::string::npos)
            line = line.substr(0, at + 6) + strf("%.12g", atof(line.c_str() + at + 6));
        out += line + "\n";
    }
    return out;
}
static std::vector<std::string> genHedges(Src& s) {
    static const std::vector<std::vector<std::string>> pool
        = {{}, {}, {}, {"not"}, {"very"}, {"extremely"}, {"somewhat"}, {"seldom"}, {"not", "very"}, {"not", "extremely"}, {"not", "somewhat"}, {"not", "seldom"}, {"very", "very"}, {"not", "very", "very"}};
    return s.oneOf(pool);
}
// an engine within the scope of the format: one block, the same operators for all outputs, flat rules of a single connective over
// inputs in order
static model::Engine gen(Src& s, int resolution, bool flags) {
    model::GenOptions o;
    o.maxBlocks = 1;
    o.maxInputs = 4;
    o.maxOutputs = 3;
    o.maxTerms = 6;
    o.disabled = false;
    o.lockFlags = flags;
    o.activations = false;
    o.heights = false;
    o.outputsInAntecedent = false;
    o.hedgesInConsequent = false;
    o.weights = false;
    model::Engine e = model::genEngine(s, o);
    static const std::vector<std::string> ds = {"Centroid", "Bisector", "SmallestOfMaximum", "LargestOfMaximum", "MeanOfMaximum", "WeightedAverage", "WeightedSum"};
    std::string defuzzifier = e.outputs[0].defuzzifier, aggregation = s.oneOf(model::snorms());
    if (s.chance(1, 6))
        defuzzifier = s.oneOf(ds);
    for (auto* vs : {&e.inputs, &e.outputs})
        for (auto& v : *vs) {
            if (flags && s.chance(1, 8))
                v.enabled = false;
            if (!flags) {
                v.lockRange = v.lockPrevious = false;
                v.defaultValue = model::NaN;
            }
            if (!v.output)
                v.lockRange = false;
            else {
                v.aggregation = aggregation;
                v.defuzzifier = defuzzifier;
                v.weightedType = "Automatic";
                v.resolution = resolution;
            }
        }
    if (e.blocks.empty())
        e.blocks.push_back(model::Block());
    auto& b = e.blocks[0];
    b.name = b.description = "";
    b.enabled = true;
    b.conjunction = s.oneOf(model::tnorms());
    b.disjunction = s.oneOf(model::snorms());
    b.implication = s.oneOf(model::tnorms());
    b.activation = model::Activation();
    b.rules.clear();
    int n = s.range(0, 6);
    for (int i = 0; i < n; ++i) {
        model::Rule r;
        std::string op = s.coin() ? "and" : "or";
        auto prop = [&](const model::Variable& v) {
            model::Proposition p;
            p.var = v.name;
            if (v.terms.empty() || s.chance(1, 12)) {
                p.hedges = {"any"};
                if (s.coin())
                    p.hedges.insert(p.hedges.begin(), "not");
            } else {
                p.hedges = genHedges(s);
                p.term = s.oneOf(v.terms).name;
            }
            return p;
        };
        for (size_t k = 0; k < e.inputs.size(); ++k) {
            if (s.chance(1, 3) && !(k + 1 == e.inputs.size() && !r.antecedent))
                continue;
            model::CondP c(new model::Cond);
            c->prop = prop(e.inputs[k]);
            if (!r.antecedent)
                r.antecedent = c;
            else {
                model::CondP d(new model::Cond);
                d->op = op;
                d->left = r.antecedent;
                d->right = c;
                r.antecedent = d;
            }
        }
        for (size_t k = 0; k < e.outputs.size(); ++k) {
            if (e.outputs[k].terms.empty() || (s.chance(1, 3) && !(k + 1 == e.outputs.size() && r.consequent.empty())))
                continue;
            model::Proposition p;
            p.var = e.outputs[k].name;
            if (s.chance(1, 4))
                p.hedges = genHedges(s);
            p.term = s.oneOf(e.outputs[k].terms).name;
            r.consequent.push_back(p);
        }
        if (!r.antecedent || r.consequent.empty())
            continue;
        r.weight = s.chance(1, 3) ? s.num(0, 1) : 1;
        r.text = model::ruleText(r);
        b.rules.push_back(r);
    }
    return e;
}
static bool behaviour(Case& c, fl::Engine& a, fl::Engine& b, const std::vector<std::vector<double>>& in) {
    auto ra = build::run(a, in), rb = build::run(b, in);
    std::string diff = build::diff(ra, rb, 1e-12, 1e-12);
    c.check(diff.empty(), "behaviour", "the imported engine behaves differently: " + diff);
    bool finite = false;
    for (auto& row : ra.rows)
        for (double y : row)
            finite = finite || std::isfinite(y);
    return finite;
}

static const std::map<std::string, std::string>& codes() {
    static const std::map<std::string, std::string> m = {
        {"Minimum", "min"}, {"AlgebraicProduct", "prod"}, {"BoundedDifference", "bounded_difference"}, {"DrasticProduct", "drastic_product"},
        {"EinsteinProduct", "einstein_product"}, {"HamacherProduct", "hamacher_product"}, {"NilpotentMinimum", "nilpotent_minimum"},
        {"Maximum", "max"}, {"AlgebraicSum", "probor"}, {"NormalizedSum", "normalized_sum"}, {"BoundedSum", "bounded_sum"},
        {"DrasticSum", "drastic_sum"}, {"EinsteinSum", "einstein_sum"}, {"HamacherSum", "hamacher_sum"},
        {"NilpotentMaximum", "nilpotent_maximum"}, {"UnboundedSum", "sum"}, {"Centroid", "centroid"}, {"Bisector", "bisector"},
        {"SmallestOfMaximum", "som"}, {"LargestOfMaximum", "lom"}, {"MeanOfMaximum", "mom"}, {"WeightedAverage", "wtaver"}, {"WeightedSum", "wtsum"}};
    return m;
}
static void roundtrip(Case& c) {
    Src& s = c.src;
    int resolution = s.range(10, 60);
    Resolution res(resolution);
    bool fine = s.chance(1, 3);
    build::Precision precision(fine ? 9 : 3);
    model::Engine e = gen(s, resolution, false);
    if (fine)
        model::refine(s, e);
    if (s.chance(1, 10))
        model::heavy(s, e);
    for (auto* vs : {&e.inputs, &e.outputs})
        for (auto& v : *vs)
            if (s.chance(1, 40))
                std::swap(v.min, v.max);
    if (s.chance(1, 10))
        e.name = s.oneOf(std::vector<std::string>{"", "two words", "an \"engine\"", "a: b", "(a, b)", "a [b]", "a;b", "1", "a=b", "=a", "x == y", "a="});
    EngineP a(build::engine(e));
    build::Own own;
    bool ours = s.chance(1, 8);
    if (ours)
        own.replace(s, *a);
    auto in = build::genInputs(s, e, 3, true);
    if (s.coin())
        build::run(*a, in);
    fl::FisExporter x;
    std::string text = x.toString(a.get());
    c.note([&] { return model::describe(e) + text; });
    if (!ours)
        for (auto& l : {"AndMethod='" + codes().at(e.blocks[0].conjunction) + "'", "OrMethod='" + codes().at(e.blocks[0].disjunction) + "'", "ImpMethod='" + codes().at(e.blocks[0].implication) + "'",
                 "AggMethod='" + codes().at(e.outputs[0].aggregation) + "'", "DefuzzMethod='" + codes().at(e.outputs[0].defuzzifier) + "'"})
            c.check(text.find("\n" + l + "\n") != std::string::npos, "words", "the text does not say " + l);
    EngineP b;
    if (s.chance(1, 20)) {
        char dir[] = "imexXXXXXX";
        if (!mkdtemp(dir))
            c.discard();
        std::string path = std::string(dir) + "/engine.fis", error;
        try {
            x.toFile(path, a.get());
            b.reset(fl::FisImporter().fromFile(path));
        } catch (fl::Exception& ex) {
            error = ex.what();
        }
        unlink(path.c_str());
        rmdir(dir);
        c.check(error.empty(), "file", "file cannot be written and read back: " + error);
    } else {
        try {
            b.reset(fl::FisImporter().fromString(text));
        } catch (fl::Exception& ex) {
            c.fail("rejected", std::string("exported text is rejected: ") + ex.what());
        }
    }
    std::string text2 = x.toString(b.get());
    c.checkf(text2 == text, "fixpoint", [&] { return "the imported engine exports other text:\n" + text2; });
    std::string fa = squeeze(fl::FllExporter().toString(a.get())), fb = squeeze(fl::FllExporter().toString(b.get()));
    c.checkf(fa == fb, "fll", [&] { return "the imported engine is\n" + fb + "\ninstead of\n" + fa; });
    // quotes come in pairs, and the sections say what they have
    size_t pos = 0;
    while (pos < text.size()) {
        size_t end = std::min(text.find('\n', pos), text.size());
        std::string line = text.substr(pos, end - pos);
        c.check(std::count(line.begin(), line.end(), '\'') % 2 == 0, "quotes", "unbalanced quotes in " + line);
        pos = end + 1;
    }
    for (auto& n : {std::make_pair("NumInputs=", e.inputs.size()), std::make_pair("NumOutputs=", e.outputs.size()), std::make_pair("NumRules=", e.blocks[0].rules.size())})
        c.check(text.find("\n" + std::string(n.first) + std::to_string(n.second) + "\n") != std::string::npos, "counts", std::string(n.first) + " is not " + std::to_string(n.second));
    a->restart();
    bool finite = behaviour(c, *a, *b, in);
    c.nontrivial(!e.blocks[0].rules.empty() && finite);
    c.label(finite ? "finite outputs" : "no finite outputs");
}

struct Section {
    std::string head;
    std::vector<std::string> lines;
};
// terms in the order of parameters of the toolbox that the format comes from
static std::string mf(Src& s, const model::Term& t) {
    static const std::map<std::string, std::pair<std::string, std::vector<int>>> m = {
        {"Bell", {"gbellmf", {1, 2, 0}}}, {"Binary", {"binarymf", {0, 1}}}, {"Concave", {"concavemf", {0, 1}}}, {"Constant", {"constant", {0}}},
        {"Cosine", {"cosinemf", {0, 1}}}, {"Gaussian", {"gaussmf", {1, 0}}}, {"GaussianProduct", {"gauss2mf", {1, 0, 3, 2}}},
        {"PiShape", {"pimf", {0, 1, 2, 3}}}, {"Ramp", {"rampmf", {0, 1}}}, {"Rectangle", {"rectmf", {0, 1}}}, {"SShape", {"smf", {0, 1}}},
        {"Sigmoid", {"sigmf", {1, 0}}}, {"SigmoidDifference", {"dsigmf", {1, 0, 2, 3}}}, {"SigmoidProduct", {"psigmf", {1, 0, 2, 3}}},
        {"Spike", {"spikemf", {0, 1}}}, {"Trapezoid", {"trapmf", {0, 1, 2, 3}}}, {"Triangle", {"trimf", {0, 1, 2}}}, {"ZShape", {"zmf", {0, 1}}}};
    std::string p;
    auto add = [&](double v) { p += (p.empty() ? "" : " ") + model::spell(s, v); };
    if (t.cls == "Function")
        return "'function',[" + t.formulaText + "]";
    if (t.cls == "Discrete") {
        for (auto& q : t.xy) {
            add(q.first);
            add(q.second);
        }
        return "'discretemf',[" + p + "]";
    }
    if (t.cls == "Linear") {
        for (double v : t.p)
            add(v);
        return "'linear',[" + p + "]";
    }
    auto& d = m.at(t.cls);
    for (int i : d.second)
        add(t.p[i]);
    return "'" + d.first + "',[" + p + "]";
}
static std::string code(const model::Engine& e, const model::Proposition& p) {
    const model::Variable& v = *e.find(p.var);
    std::string sign, frac;
    int k = 0;
    for (size_t i = 0; i < v.terms.size(); ++i)
        if (v.terms[i].name == p.term)
            k = (int)i + 1;
    std::string h;
    for (auto& x : p.hedges)
        if (x == "not")
            sign = "-";
        else
            h += x;
    static const std::map<std::string, std::string> m = {{"", ""}, {"very", ".2"}, {"extremely", ".3"}, {"somewhat", ".05"}, {"seldom", ".01"}, {"veryvery", ".4"}, {"any", ".99"}};
    return sign + std::to_string(k) + m.at(h);
}
static std::vector<Section> sections(Src& s, const model::Engine& e) {
    std::vector<Section> r;
    auto num = [&](double v) { return model::spell(s, v); };
    auto& b = e.blocks[0];
    Section sys{"[System]", {"Name='" + e.name + "'", "Type='mamdani'", "Version=2.0", "NumInputs=" + std::to_string(e.inputs.size()),
        "NumOutputs=" + std::to_string(e.outputs.size()), "NumRules=" + std::to_string(b.rules.size()), "AndMethod='" + codes().at(b.conjunction) + "'",
        "OrMethod='" + codes().at(b.disjunction) + "'", "ImpMethod='" + codes().at(b.implication) + "'",
        "AggMethod='" + codes().at(e.outputs[0].aggregation) + "'", "DefuzzMethod='" + codes().at(e.outputs[0].defuzzifier) + "'"}};
    r.push_back(sys);
    auto var = [&](const model::Variable& v, size_t i) {
        Section p{(v.output ? "[Output" : "[Input") + std::to_string(i + 1) + "]", {"Name='" + v.name + "'"}};
        if (!v.enabled || s.chance(1, 4))
            p.lines.push_back(v.enabled ? "Enabled=1" : "Enabled=0");
        p.lines.push_back("Range=[" + num(v.min) + " " + num(v.max) + "]");
        p.lines.push_back("NumMFs=" + std::to_string(v.terms.size()));
        if (v.output) {
            if (!std::isnan(v.defaultValue) || s.chance(1, 4))
                p.lines.push_back("Default=" + num(v.defaultValue));
            if (v.lockPrevious || s.chance(1, 4))
                p.lines.push_back(v.lockPrevious ? "LockPrevious=1" : "LockPrevious=0");
            if (v.lockRange || s.chance(1, 4))
                p.lines.push_back(v.lockRange ? "LockRange=1" : "LockRange=0");
        }
        for (size_t k = 0; k < v.terms.size(); ++k)
            p.lines.push_back("MF" + std::to_string(k + 1) + "='" + v.terms[k].name + "':" + mf(s, v.terms[k]));
        return p;
    };
    for (size_t i = 0; i < e.inputs.size(); ++i)
        r.push_back(var(e.inputs[i], i));
    for (size_t i = 0; i < e.outputs.size(); ++i)
        r.push_back(var(e.outputs[i], i));
    Section rules{"[Rules]", {}};
    for (auto& x : b.rules) {
        std::map<std::string, std::string> in, out;
        std::string op;
        std::function<void(const model::CondP&)> walk = [&](const model::CondP& q) {
            if (q->op.empty())
                in[q->prop.var] = code(e, q->prop);
            else {
                op = q->op;
                walk(q->left);
                walk(q->right);
            }
        };
        walk(x.antecedent);
        for (auto& p : x.consequent)
            out[p.var] = code(e, p);
        std::string l;
        for (size_t i = 0; i < e.inputs.size(); ++i)
            l += (i ? " " : "") + (in.count(e.inputs[i].name) ? in[e.inputs[i].name] : std::string("0"));
        l += ", ";
        for (auto& v : e.outputs)
            l += (out.count(v.name) ? out[v.name] : std::string("0")) + " ";
        l += "(" + num(x.weight) + ") : " + (op == "or" ? "2" : op == "and" ? "1" : s.coin() ? "1" : "2");
        rules.lines.push_back(l);
    }
    r.push_back(rules);
    return r;
}
static std::string text(Src& s, const std::vector<Section>& ps, bool layout) {
    std::string r;
    auto line = [&](const std::string& l) {
        if (!layout) {
            r += l + "\n";
            return;
        }
        if (s.chance(1, 10))
            r += s.oneOf(std::vector<std::string>{"\n", "   \n", "% comment\n", "  # x\n", "// [Rules]\n", "#Name='other'\n"});
        size_t equals = l.find('=');
        r += s.oneOf(std::vector<std::string>{"", "", "  ", "\t"});
        r += equals != std::string::npos && s.chance(1, 8) ? l.substr(0, equals) + s.oneOf(std::vector<std::string>{" = ", "= ", " =", "=  "}) + l.substr(equals + 1) : l;
        if (s.chance(1, 8))
            r += s.oneOf(std::vector<std::string>{" // comment", " # comment", "#", " //"});
        r += s.oneOf(std::vector<std::string>{"\n", "\n", " \n", "\r\n"});
    };
    for (auto& p : ps) {
        line(p.head);
        for (auto& l : p.lines)
            line(l);
    }
    return r;
}

static void layouts(Case& c) {
    Src& s = c.src;
    int resolution = s.range(10, 40);
    Resolution res(resolution);
    bool fine = s.chance(1, 3);
    build::Precision precision(fine ? 9 : 3);
    model::Engine e = gen(s, resolution, true);
    if (fine)
        model::refine(s, e);
    auto ps = sections(s, e);
    for (size_t k = 0; k + 1 < ps.size(); ++k) {
        auto& l = ps[k].lines;
        if (!s.coin())
            continue;
        std::vector<std::string> fixed, rest, out;
        for (auto& x : l)
            (x.compare(0, 2, "MF") == 0 ? fixed : rest).push_back(x);
        for (size_t i = 1; i < rest.size(); ++i)
            std::swap(rest[i], rest[s.u(i + 1)]);
        size_t i = 0, j = 0;
        while (i < fixed.size() || j < rest.size()) {
            if (j == rest.size() || (i < fixed.size() && s.coin()))
                out.push_back(fixed[i++]);
            else
                out.push_back(rest[j++]);
        }
        l = out;
    }
    std::string t = text(s, ps, true);
    c.note([&] { return t; });
    EngineP a(build::engine(e)), b;
    if (fine)
        fl::fuzzylite::setDecimals(s.u(4));  // no matter for what is read
    try {
        b.reset(fl::FisImporter().fromString(t));
    } catch (fl::Exception& x) {
        c.fail("rejected", std::string("text is rejected: ") + x.what());
    }
    fl::fuzzylite::setDecimals(fine ? 9 : 3);
    std::string ta = squeeze(fl::FllExporter().toString(a.get())), tb = squeeze(fl::FllExporter().toString(b.get()));
    c.checkf(ta == tb, "meaning", [&] { return "the imported engine is\n" + tb + "\ninstead of\n" + ta; });
    bool finite = behaviour(c, *a, *b, build::genInputs(s, e, 2));
    c.nontrivial(!e.blocks[0].rules.empty());
    c.label(finite ? "finite outputs" : "no finite outputs");
}

static void corrupted(Case& c) {
    Src& s = c.src;
    model::Engine e = gen(s, 100, true);
    auto ps = sections(s, e);
    std::string kind;
    auto any = [&](std::initializer_list<const char*> o) { return std::string(*(o.begin() + s.u(o.size()))); };
    auto pick = [&](const std::string& key) -> std::string* {
        std::vector<std::string*> r;
        for (size_t k = 1; k + 1 < ps.size(); ++k)
            for (auto& l : ps[k].lines)
                if (l.compare(0, key.size(), key) == 0)
                    r.push_back(&l);
        if (r.empty())
            c.discard();
        return s.oneOf(r);
    };
    auto rule = [&]() -> std::string& {
        auto& l = ps.back().lines;
        if (l.empty())
            c.discard();
        return l[s.u(l.size())];
    };
    bool preamble = false;
    size_t ni = e.inputs.size(), no = e.outputs.size();
    auto repeat = [](const std::string& t, size_t n) {
        std::string r;
        for (size_t i = 0; i < n; ++i)
            r += (i ? " " : "") + t;
        return r;
    };
    switch (s.u(13)) {
        case 0: preamble = true; kind = "line before any section"; break;
        case 1: {
            auto& p = ps[s.u(ps.size())];
            p.lines.insert(p.lines.begin() + s.u(p.lines.size() + 1), any({"Unknown=1", "name='x'", "[Unknown]", "Ranges=[0 1]", "abc", "mf1='a':'trimf',[0 1 2]"}));
            kind = "unknown property";
            break;
        }
        case 2: *pick("Range") = "Range=" + any({"", "[0]", "0 1", "[0 1", "[a b]", "[0 1 2]", "[0,1]", "[ 0 1 ]"}); kind = "wrong range"; break;
        case 3: {
            std::string* l = pick("MF");
            std::string head = l->substr(0, l->find('='));
            *l = head + any({"='a'", "='a':'trimf'", "='a':'unknownmf',[0 1 2]", "='a':'trimf',[0 x 2]", "='a':'trimf',[0,1,2]", "='a':'Trimf',[0 1 2]", "='a':'gaussmf',[1]", "='a':'gbellmf',[1 2]",
                "='a':'trapmf',[1]", "='a':'function',[1 +]", "='a':'function',[unknownvariable]", "", "='a':'trimf':[0 1 2]"});
            kind = "wrong term";
            break;
        }
        case 4: {
            static const char* ks[] = {"AndMethod", "ImpMethod", "OrMethod", "AggMethod", "DefuzzMethod"};
            int k = (int)s.u(5);
            for (auto& l : ps[0].lines)
                if (l.compare(0, std::string(ks[k]).size(), ks[k]) == 0)
                    l = std::string(ks[k]) + "='" + (k < 2 ? any({"max", "MIN", "product", "AND"}) : k < 4 ? any({"min", "MAX", "prodor", "OR"}) : any({"COG", "Centre", "min", "wtaverage"})) + "'";
            kind = "wrong method";
            break;
        }
        case 5: rule() = repeat("1", ni + (s.coin() ? 1 : -1)) + ", " + repeat("1", no) + " (1) : 1"; kind = "wrong number of inputs in a rule"; break;
        case 6: rule() = repeat("0", ni) + ", " + repeat("1", no + (s.coin() ? 1 : -1)) + " (1) : 1"; kind = "wrong number of outputs in a rule"; break;
        case 7: rule() = repeat(any({"99", "-99", "19.2", "100.99"}), ni) + ", " + repeat("0", no) + " (1) : 1"; kind = "term out of range"; break;
        case 8: {
            if (e.inputs[0].terms.empty())
                c.discard();
            std::string t = any({"1.5", "1.02", "1.1", "-1.7", "1.25", "0.6"});
            rule() = t + (ni > 1 ? " " + repeat("0", ni - 1) : "") + ", " + repeat("0", no) + " (1) : 1";
            kind = "undefined hedge";
            break;
        }
        case 9: {
            if (ni < 2 || e.inputs[0].terms.empty() || e.inputs[1].terms.empty())
                c.discard();
            rule() = "1 1" + (ni > 2 ? " " + repeat("0", ni - 2) : "") + ", " + repeat("0", no) + " (1) : " + any({"3", "0", "and", "1 2"});
            kind = "wrong connective";
            break;
        }
        case 10: rule() = repeat("0", ni) + ", " + repeat("0", no) + " (" + any({"x", "", "1.2.3", "one"}) + ") : 1"; kind = "wrong weight"; break;
        case 11: rule() = any({"1 1", "1 1 (1) : 1", "x, 1 (1) : 1", "1, 1 (1)", "if a is b then c is d", "1, x (1) : 1", ":", ","}) + (s.coin() ? "" : " "); kind = "wrong rule"; break;
        default: {
            std::vector<std::string*> r;
            for (size_t k = 1; k + 1 < ps.size(); ++k)
                for (auto& l : ps[k].lines)
                    for (auto& p : {"Enabled", "Default", "LockP", "LockR"})
                        if (l.compare(0, std::string(p).size(), p) == 0)
                            r.push_back(&l);
            if (r.empty())
                c.discard();
            std::string* l = s.oneOf(r);
            *l = l->substr(0, l->find('=')) + any({"=true", "=", "=1 2", "", "=none", "=1=1"});
            kind = "wrong flag or default";
        }
    }
    std::string t = (preamble ? any({"Name='a'\n", "1 1, 1 (1) : 1\n", "[Inputs]\n", "text\n"}) : std::string()) + text(s, ps, false);
    if (preamble && t.compare(0, 6, "[Input") == 0)
        c.discard();
    c.note([&] { return kind + "\n" + t; });
    bool raised = false;
    EngineP b;
    try {
        b.reset(fl::FisImporter().fromString(t));
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    } catch (std::exception& x) {
        c.fail("foreign-exception", kind + " raised " + x.what());
    }
    c.check(raised, "accepted", kind + " is accepted");
    c.nontrivial(true);
    c.label(kind);
}

// engines outside of the scope of the format are refused when a rule mixes connectives
static void scope(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxBlocks = 2;
    o.maxRules = 4;
    o.disabled = false;
    model::Engine e = model::genEngine(s, o);
    bool mixed = false;
    for (auto& b : e.blocks)
        for (auto& r : b.rules) {
            bool a = false, d = false;
            std::function<void(const model::CondP&)> walk = [&](const model::CondP& q) {
                if (q->op.empty())
                    return;
                (q->op == "and" ? a : d) = true;
                walk(q->left);
                walk(q->right);
            };
            walk(r.antecedent);
            mixed = mixed || (a && d);
        }
    EngineP a(build::engine(e));
    c.note([&] { return model::describe(e); });
    bool raised = false;
    try {
        fl::FisExporter().toString(a.get());
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    }
    c.check(raised == mixed, "scope", mixed ? "a rule with both connectives is exported" : "an engine without mixed connectives is refused");
    c.nontrivial(mixed);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P19", {
        {"roundtrip", roundtrip, 14000, 400000, "the engine has rules, and an output value is finite"},
        {"layouts", layouts, 14000, 300000, "the engine has rules; the text was rendered by the harness with random layout"},
        {"corrupted", corrupted, 16000, 300000, "every text has exactly one corruption"},
        {"scope", scope, 4000, 60000, "a rule mixes connectives"},
    });
}
