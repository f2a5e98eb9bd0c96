// P27: the type of an engine is inferred from its defuzzifiers, output terms and implications.
#include "build.h"
#include <algorithm>
using namespace pbt;

static bool isIn(const std::string& x, const std::vector<std::string>& v) { return std::find(v.begin(), v.end(), x) != v.end(); }
static const std::vector<std::string> TS = {"Constant", "Linear", "Function"}, Monotonic = {"Concave", "Ramp", "Sigmoid", "SShape", "ZShape"},
    Others = {"Bell", "Binary", "Cosine", "Discrete", "Gaussian", "GaussianProduct", "PiShape", "Rectangle", "SigmoidDifference", "SigmoidProduct", "Spike", "Trapezoid", "Triangle"};

// the documented rules, over the description
static std::string typeOf(const model::Engine& e) {
    if (e.outputs.empty())
        return "Unknown";
    bool integral = true, weighted = true, all = true, ts = true, tsukamoto = true;
    for (auto& v : e.outputs) {
        bool w = v.defuzzifier.compare(0, 8, "Weighted") == 0;
        integral = integral && !w && !v.defuzzifier.empty();
        weighted = weighted && w;
        all = all && !v.defuzzifier.empty();
        ts = ts && (v.weightedType == "Automatic" || v.weightedType == "TakagiSugeno");
        tsukamoto = tsukamoto && (v.weightedType == "Automatic" || v.weightedType == "Tsukamoto");
        for (auto& t : v.terms) {
            ts = ts && isIn(t.cls, TS);
            tsukamoto = tsukamoto && isIn(t.cls, Monotonic);
        }
    }
    if (integral) {
        for (auto& b : e.blocks)
            if (b.implication != "AlgebraicProduct")
                return "Mamdani";
        return e.blocks.empty() ? "Mamdani" : "Larsen";
    }
    if (weighted)
        return ts ? "Takagi-Sugeno" : tsukamoto ? "Tsukamoto" : "Inverse Tsukamoto";
    return all ? "Hybrid" : "Unknown";
}
static std::string enumName(fl::Engine::Type t) {
    switch (t) {
        case fl::Engine::Mamdani: return "Mamdani";
        case fl::Engine::Larsen: return "Larsen";
        case fl::Engine::TakagiSugeno: return "Takagi-Sugeno";
        case fl::Engine::Tsukamoto: return "Tsukamoto";
        case fl::Engine::InverseTsukamoto: return "Inverse Tsukamoto";
        case fl::Engine::Hybrid: return "Hybrid";
        default: return "Unknown";
    }
}
static std::string typeOf(Case& c, const fl::Engine& e) {
    std::string name = "before", reason = "before";
    std::string t = enumName(e.type(&name, &reason));
    c.checkf(name == t, "name", [&] { return "type " + t + " named " + name; });
    c.check(!reason.empty() && reason != "before", "reason", "no reason is given for " + t);
    std::string only = "before";
    c.check(enumName(e.type()) == t && enumName(e.type(&only)) == t && only == name, "name", "the type depends on asking for its name");
    return t;
}

static model::Engine gen(Src& s) {
    model::GenOptions o;
    o.maxResolution = 10;
    o.functions = o.linear = true;
    model::Engine e;
    e.name = "e";
    model::Variable in;
    in.name = "a";
    in.terms.push_back(model::genMamdaniTerm(s, "low", 0, 1, o));
    e.inputs.push_back(in);
    int n = s.chance(1, 12) ? 0 : s.chance(1, 10) ? s.range(4, 7) : s.range(1, 3);
    int flavour = (int)s.u(7);
    for (int i = 0; i < n; ++i) {
        model::Variable v;
        v.output = true;
        v.name = "y" + std::to_string(i);
        v.aggregation = "Maximum";
        int f = s.chance(1, 5) ? (int)s.u(7) : flavour;
        static const std::vector<std::string> weighted = {"WeightedAverage", "WeightedSum"};
        v.defuzzifier = f == 0 ? s.oneOf(model::integralDefuzzifiers()) : f == 6 ? "" : s.oneOf(weighted);
        v.resolution = 10;
        v.weightedType = s.coin() ? "Automatic" : s.oneOf(std::vector<std::string>{"TakagiSugeno", "Tsukamoto"});
        if (v.defuzzifier.compare(0, 8, "Weighted"))
            v.weightedType = "Automatic";
        v.enabled = !s.chance(1, 6);
        for (int t = s.chance(1, 10) ? 0 : s.chance(1, 8) ? s.range(4, 12) : s.range(1, 3); t > 0; --t) {
            int g = s.chance(1, 8) ? (int)s.u(3) : f % 3;
            std::string cls = g == 0 ? s.oneOf(Others) : g == 1 ? s.oneOf(TS) : s.oneOf(Monotonic);
            if (cls == "Function") {
                model::Term x;
                x.cls = cls;
                x.name = "t" + std::to_string(t);
                x.formulaText = "a + 1";
                v.terms.push_back(x);
            } else
                v.terms.push_back(model::genTerm(s, cls, "t" + std::to_string(t), 0, 1, o));
        }
        e.outputs.push_back(v);
    }
    for (int i = s.chance(1, 10) ? s.range(4, 7) : s.range(0, 3); i > 0; --i) {
        model::Block b;
        b.name = "b" + std::to_string(i);
        b.implication = s.chance(1, 2) ? "AlgebraicProduct" : s.chance(1, 6) ? "" : s.oneOf(model::tnorms());
        b.enabled = !s.chance(1, 6);
        if (s.coin() && n) {
            const model::Variable& v = e.outputs[s.u((uint32_t)n)];
            if (!v.terms.empty()) {
                model::Rule r;
                r.text = "if a is low then " + v.name + " is " + v.terms[0].name;
                b.rules.push_back(r);
            }
        }
        e.blocks.push_back(b);
    }
    return e;
}

static void types(Case& c) {
    Src& s = c.src;
    model::Engine e = gen(s);
    std::string expect = typeOf(e);
    c.note([&] { return model::describe(e) + "\nexpected " + expect; });
    EngineP engine = build::engine(e);
    std::string t = typeOf(c, *engine);
    c.checkf(t == expect, "type", [&] { return t + " instead of " + expect; });
    c.label(expect);
    c.nontrivial(e.outputs.size() > 1 || e.blocks.size() > 1);
    // of the configuration only
    std::string text = engine->toString();
    try {
        for (auto& row : build::genInputs(s, e, 2)) {
            build::setInputs(*engine, row);
            engine->process();
        }
    } catch (fl::Exception&) {  // lacks components, or defuzzifiers do not fit
    }
    c.checkf(typeOf(c, *engine) == expect, "changed", [&] { return "processing turned " + expect + " into " + typeOf(c, *engine); });
    c.check(engine->toString() == text, "changed", "asking for the type changed the engine");
    EngineP copy(engine->clone());
    c.checkf(typeOf(c, *copy) == expect, "copy", [&] { return "the copy of " + expect + " is " + typeOf(c, *copy); });
    EngineP again;
    try {
        again.reset(fl::FllImporter().fromString(text));
    } catch (fl::Exception& x) {
        c.fail("import", std::string("the exported engine is not imported: ") + x.what());
    }
    c.checkf(typeOf(c, *again) == expect, "import", [&] { return expect + " was imported as " + typeOf(c, *again); });
    // any order
    auto shuffle = [&](auto& v) {
        for (size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[s.u((uint32_t)i)]);
    };
    model::Engine p = e;
    shuffle(p.outputs);
    shuffle(p.blocks);
    for (auto& v : p.outputs)
        shuffle(v.terms);
    EngineP q = build::engine(p);
    c.checkf(typeOf(c, *q) == expect, "order", [&] { return "reordered, " + expect + " became " + typeOf(c, *q); });
    // what is enabled does not matter
    for (auto* v : q->outputVariables())
        v->setEnabled(!v->isEnabled());
    for (auto* b : q->ruleBlocks())
        b->setEnabled(!b->isEnabled());
    c.checkf(typeOf(c, *q) == expect, "enabled", [&] { return "enabled and disabled, " + expect + " became " + typeOf(c, *q); });
}

// types of weighted defuzzifiers
static void weighted(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    std::vector<std::unique_ptr<fl::Term>> own;
    std::vector<const fl::Term*> terms;
    std::set<std::string> kinds;
    fl::Aggregated a("a", 0, 1);
    fl::Engine e;
    fl::OutputVariable v("v", 0, 1);
    e.addInputVariable(new fl::InputVariable("a", 0, 1));
    int one = (int)s.u(4);
    for (int i = s.range(0, 4); i > 0; --i) {
        int g = one < 3 ? one : (int)s.u(3);
        std::string cls = g == 0 ? s.oneOf(TS) : g == 1 ? s.oneOf(Monotonic) : s.oneOf(Others);
        if (cls == "Function")
            own.emplace_back(fl::Function::create("f", "a + x", &e));
        else
            own.emplace_back(build::term(model::genTerm(s, cls, "t", 0, 1, o), &e));
        v.addTerm(own.back()->clone());
        terms.push_back(own.back().get());
        a.addTerm(own.back().get(), s.unit(), nullptr);
        kinds.insert(g == 0 ? "TakagiSugeno" : g == 1 ? "Tsukamoto" : "Automatic");
        c.say(own.back()->toString());
    }
    fl::WeightedAverage wa;
    fl::WeightedSum ws;
    fl::WeightedDefuzzifier& w = s.coin() ? (fl::WeightedDefuzzifier&)wa : ws;
    w.setType(s.oneOf(std::vector<std::string>{"Automatic", "TakagiSugeno", "Tsukamoto"}));
    std::string type = w.getTypeName();
    auto infer = [&](auto x) -> std::string {
        try {
            switch (w.inferType(x)) {
                case fl::WeightedDefuzzifier::TakagiSugeno: return "TakagiSugeno";
                case fl::WeightedDefuzzifier::Tsukamoto: return "Tsukamoto";
                default: return "Automatic";
            }
        } catch (fl::Exception&) {
            return "exception";
        }
    };
    std::string expect = kinds.empty() ? "Automatic" : kinds.size() == 1 ? *kinds.begin() : "exception";
    std::string of[] = {infer(terms), infer((const fl::Variable*)&v), infer((const fl::Term*)&a)};
    const char* names[] = {"terms", "variable", "fuzzy output"};
    for (int i = 0; i < 3; ++i)
        c.checkf(of[i] == expect, "infer", [&] { return std::string("inferred ") + of[i] + " instead of " + expect + " from " + names[i]; });
    for (size_t i = 0; i < terms.size(); ++i) {
        fl::Activated act(terms[i], 0.5, nullptr);
        c.check(infer((const fl::Term*)&act) == infer(terms[i]), "infer", "the type of an activated term is not that of its term");
        if (kinds.size() == 1)
            c.check(infer(terms[i]) == expect, "infer", "the type of one term is " + infer(terms[i]));
    }
    c.check(w.getTypeName() == type, "changed", "inferring changed the type");
    c.label(expect);
    c.nontrivial(terms.size() > 1);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P27", {
        {"types", types, 20000, 800000, "the engine has at least two outputs or at least two blocks"},
        {"weighted", weighted, 10000, 300000, "at least two terms"},
    });
}
