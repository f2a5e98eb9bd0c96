// P16: engines survive export to and import from the native language.
#include "build.h"
#include <fstream>
#include <unistd.h>
using namespace pbt;

struct Decimals {
    explicit Decimals(int d) { fl::fuzzylite::setDecimals(d); }
    ~Decimals() { fl::fuzzylite::setDecimals(3); }
};
static bool incomplete(Src& s, model::Engine& e) {
    bool any = false;
    auto drop = [&](std::string& x) {
        if (s.chance(1, 6)) {
            any = any || !x.empty();
            x = "";
        }
    };
    if (!s.chance(1, 4))
        return false;
    for (auto& v : e.outputs) {
        drop(v.aggregation);
        drop(v.defuzzifier);
        if (s.chance(1, 12)) {
            v.defaultValue = s.coin() ? model::Inf : -model::Inf;
            any = true;
        }
        if (s.chance(1, 12)) {
            v.min = -model::Inf;
            v.max = model::Inf;
            any = true;
        }
    }
    for (auto& b : e.blocks) {
        drop(b.conjunction);
        drop(b.disjunction);
        drop(b.implication);
        if (s.chance(1, 8)) {
            b.rules.clear();
            any = true;
        }
    }
    if (s.chance(1, 10)) {
        e.blocks.clear();
        any = true;
    }
    return any;
}
static bool hasRules(const model::Engine& e) {
    for (auto& b : e.blocks)
        if (!b.rules.empty())
            return true;
    return false;
}

static void engines(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.tall = true;
    o.disabled = true;
    o.descriptions = true;
    o.wildDescriptions = true;
    o.randomText = true;
    o.hedgesAnywhere = true;
    o.emptyTermsAllowed = true;
    o.maxResolution = 60;
    model::Engine e = model::genEngine(s, o);
    for (auto& b : e.blocks)
        for (auto& r : b.rules)
            r.enabled = true;  // the language has no flag for rules
    bool inc = incomplete(s, e);
    if (s.chance(1, 10))
        model::heavy(s, e);
    if (s.chance(1, 20))
        e.name = "";
    if (s.chance(1, 10))
        e.description = s.oneOf(std::vector<std::string>{"a: b", "with \"quotes\" and : colons", "x", "1 2 3", "range: 0 1"});
    int decimals = s.chance(1, 3) ? (s.chance(1, 3) ? 9 : s.range(0, 9)) : 3;
    if (decimals < 3)
        for (auto* vs : {&e.inputs, &e.outputs})
            for (auto& v : *vs)
                for (auto& t : v.terms)
                    if (t.height > 0.5)
                        t.height = 1;  // a height that would be printed as one
    Decimals d(decimals);
    if (decimals == 9) {
        build::Precision precision(9);
        model::refine(s, e, true);
    }
    fl::fuzzylite::setDecimals(decimals);
    c.note([&] { return strf("decimals %d\n", decimals) + model::describe(e); });
    EngineP a(build::engine(e));
    auto in = build::genInputs(s, e, 3, true);
    if (s.coin()) {  // values do not travel
        build::run(*a, in);
    }
    // a rule that cannot be loaded keeps its text
    if (a->numberOfRuleBlocks() && s.chance(1, 8)) {
        fl::Rule* r = new fl::Rule;
        r->setText("if nothing is known then something is wrong");
        a->getRuleBlock(0)->addRule(r);
        c.say("with a rule that cannot be loaded");
    }
    static const std::vector<std::string> seps = {"\n", "\n", "\r\n", "|", "\n\n", " ;; "};
    std::string sep = s.oneOf(seps), indent = s.oneOf(std::vector<std::string>{"  ", "", "\t", "        "});
    fl::FllExporter x(indent, sep);
    fl::FllImporter im(sep);
    std::string text = x.toString(a.get());
    c.note([&] { return text; });
    EngineP b;
    try {
        b.reset(im.fromString(text));
    } catch (fl::Exception& ex) {
        c.fail("rejected", std::string("exported text is rejected: ") + ex.what());
    }
    std::string text2 = x.toString(b.get());
    c.checkf(text2 == text, "fixpoint", [&] { return "the imported engine exports other text:\n" + text2; });
    c.check(fl::FllExporter().toString(a.get()) == fl::FllExporter().toString(b.get()) && a->toString() == b->toString(), "fixpoint", "texts with default settings differ");
    // every attribute, without the help of the exporter
    {
        auto cls = [](auto* x) { return x ? x->className() : std::string("none"); };
        auto all = [&](fl::Engine& e) {
            std::string r = e.getName() + "\n" + e.getDescription() + "\n";
            for (fl::Variable* v : e.variables()) {
                r += v->getName() + ", " + v->getDescription() + strf(", %d %d", v->isEnabled(), v->isLockValueInRange());
                if (decimals >= 3)
                    r += ", " + str(v->getMinimum()) + " " + str(v->getMaximum());
                if (auto* o = dynamic_cast<fl::OutputVariable*>(v)) {
                    r += strf(", %d, ", o->isLockPreviousValue()) + cls(o->fuzzyOutput()->getAggregation()) + ", " + cls(o->getDefuzzifier());
                    if (decimals >= 3)
                        r += ", " + str(o->getDefaultValue());
                    if (auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(o->getDefuzzifier()))
                        r += strf(" %d", i->getResolution());
                    if (auto* w = dynamic_cast<fl::WeightedDefuzzifier*>(o->getDefuzzifier()))
                        r += strf(" %d", (int)w->getType());
                }
                for (fl::Term* t : v->terms()) {
                    r += "; " + t->getName() + " " + t->className();
                    if (decimals >= 3)
                        r += " " + str(t->getHeight());
                }
                r += "\n";
            }
            for (fl::RuleBlock* b : e.ruleBlocks()) {
                r += b->getName() + ", " + b->getDescription() + strf(", %d, ", b->isEnabled()) + cls(b->getConjunction()) + ", " + cls(b->getDisjunction()) + ", " + cls(b->getImplication()) + ", " + cls(b->getActivation());
                for (fl::Rule* x : b->rules())
                    r += strf("; %d %d ", x->isEnabled(), x->isLoaded()) + x->getText();
                r += "\n";
            }
            return r;
        };
        std::string wa = all(*a), wb = all(*b);
        c.checkf(wa == wb, "attributes", [&] { return "the engine has\n" + wa + "\nand the imported one\n" + wb; });
    }
    bool finite = false;
    if (decimals >= 3) {
        a->restart();
        auto ra = build::run(*a, in), rb = build::run(*b, in);
        std::string diff = build::diff(ra, rb, 1e-12, 1e-12);
        c.check(diff.empty(), "behaviour", "the imported engine behaves differently: " + diff + ", inputs " + [&] {
            std::string r;
            for (auto& row : in)
                r += build::show(row);
            return r;
        }());
        for (auto& row : ra.rows)
            for (double y : row)
                finite = finite || std::isfinite(y);
        std::string sa, sb;
        c.check(a->isReady(&sa) == b->isReady(&sb) && sa == sb, "ready", "readiness differs");
        c.check(a->type() == b->type(), "type", "types differ");
    }
    c.nontrivial(hasRules(e) && (finite || decimals < 3));
    c.label(inc ? "incomplete" : "complete");
    c.label(decimals < 3 ? "fewer decimals" : "three or more decimals");
    c.label(finite ? "finite outputs" : "no finite outputs");
}

static void precise(Case& c) {
    // numbers with more digits survive up to rounding when enough decimals are printed
    Src& s = c.src;
    model::GenOptions o;
    o.tall = true;
    o.maxResolution = 40;
    o.functions = false;
    o.disabled = false;
    o.hedgesInConsequent = false;
    o.activations = false;
    o.norms = false;
    model::Engine e = model::genEngine(s, o);
    auto jitter = [&](double& x) {
        if (std::isfinite(x))
            x += (int)(s.u(2001) - 1000) * 1.23456789e-7;
    };
    for (auto* vs : {&e.inputs, &e.outputs})
        for (auto& v : *vs) {
            for (auto& t : v.terms) {
                if (t.cls == "Discrete" || t.cls == "Rectangle" || t.cls == "Binary" || t.cls == "Trapezoid" || t.cls == "Triangle" || t.cls == "Spike")
                    continue;  // edges may move across points
                for (double& p : t.p)
                    jitter(p);
                if (t.height != 1)
                    jitter(t.height);
            }
            if (std::isfinite(v.defaultValue))
                jitter(v.defaultValue);
        }
    int decimals = s.range(9, 12);
    Decimals d(decimals);
    EngineP a(build::engine(e));
    auto in = build::genInputs(s, e, 2);
    for (auto& row : in)
        for (double& x : row)
            x += 0.000317;
    fl::FllExporter x;
    std::string text = x.toString(a.get());
    c.note([&] { return text; });
    EngineP b(fl::FllImporter().fromString(text));
    std::string text2 = x.toString(b.get());
    c.checkf(text2 == text, "fixpoint", [&] { return "the imported engine exports other text:\n" + text2; });
    bool smooth = true, finite = false;
    for (auto& v : e.outputs)
        smooth = smooth && (v.defuzzifier == "Centroid" || v.defuzzifier.compare(0, 8, "Weighted") == 0);
    // parameters themselves
    auto params = [&](fl::Variable* p, fl::Variable* q) {
        for (size_t i = 0; i < p->numberOfTerms(); ++i)
            for (double z : {p->getMinimum(), p->getMaximum(), 0.0, 0.123, 1.77}) {
                double u = p->getTerm(i)->membership(z), v = q->getTerm(i)->membership(z);
                c.checkf(close(u, v, 1e-4, 1e-4) || same(u, v), "membership", [&] { return p->getTerm(i)->toString() + " at " + str(z) + " is " + str(u) + " and after import " + str(v); });
            }
    };
    a->restart();
    b->restart();
    for (size_t i = 0; i < e.inputs.size(); ++i)
        params(a->getInputVariable(i), b->getInputVariable(i));
    if (smooth) {
        auto ra = build::run(*a, in), rb = build::run(*b, in);
        for (auto& row : ra.rows)
            for (double y : row)
                finite = finite || std::isfinite(y);
    }
    c.nontrivial(hasRules(e));
    c.label(smooth ? "smooth" : "not smooth");
}

static void components(Case& c) {
    // every component imported alone keeps its own text
    Src& s = c.src;
    model::GenOptions o;
    o.tall = true;
    o.descriptions = true;
    o.wildDescriptions = true;
    model::Engine e = model::genEngine(s, o);
    for (auto& b : e.blocks)
        for (auto& r : b.rules)
            r.enabled = true;
    incomplete(s, e);
    for (auto* vs : {&e.inputs, &e.outputs})
        for (auto& v : *vs)
            if (s.chance(1, 16))
                std::swap(v.min, v.max);
    for (auto& v : e.outputs)
        if (s.chance(1, 5))
            v.resolution = s.oneOf(std::vector<int>{1000, 100, 200, 1});
    EngineP a(build::engine(e));
    fl::FllExporter x;
    fl::FllImporter im;
    auto load = [&](const std::string& text) {
        c.note([&] { return text; });
        try {
            return EngineP(im.fromString(text));
        } catch (fl::Exception& ex) {
            c.fail("rejected", "component text is rejected: " + std::string(ex.what()) + "\n" + text);
        }
    };
    std::string kind;
    switch (s.u(6)) {
        case 0: {
            fl::InputVariable* v = a->getInputVariable(s.u(a->numberOfInputVariables()));
            std::string t = x.toString(v);
            EngineP b = load(t);
            c.check(b->numberOfInputVariables() == 1 && x.toString(b->getInputVariable(0)) == t && v->toString() == t, "input", "input variable alone reads back as " + x.toString(b->getInputVariable(0)));
            kind = "input";
            break;
        }
        case 1: {
            fl::OutputVariable* v = a->getOutputVariable(s.u(a->numberOfOutputVariables()));
            for (size_t i = 0; i < v->numberOfTerms(); ++i)
                if (v->getTerm(i)->className() == "Function")
                    c.discard();
            std::string t = x.toString(v);
            EngineP b = load(t);
            c.check(b->numberOfOutputVariables() == 1 && x.toString(b->getOutputVariable(0)) == t && v->toString() == t, "output", "output variable alone reads back as " + x.toString(b->getOutputVariable(0)));
            fl::OutputVariable* w = b->getOutputVariable(0);
            auto* i1 = dynamic_cast<fl::IntegralDefuzzifier*>(v->getDefuzzifier());
            auto* i2 = dynamic_cast<fl::IntegralDefuzzifier*>(w->getDefuzzifier());
            c.check(!i1 == !i2 && (!i1 || i1->getResolution() == i2->getResolution()), "resolution", "resolution of the defuzzifier differs");
            kind = "output";
            break;
        }
        case 2: {
            if (!a->numberOfRuleBlocks())
                c.discard();
            fl::RuleBlock* v = a->getRuleBlock(s.u(a->numberOfRuleBlocks()));
            std::string t = x.toString(v);
            EngineP b = load(t);
            c.check(b->numberOfRuleBlocks() == 1 && x.toString(b->getRuleBlock(0)) == t && v->toString() == t, "block", "rule block alone reads back as " + x.toString(b->getRuleBlock(0)));
            kind = "block";
            break;
        }
        case 3: {  // norms and methods by their names
            model::Block b;
            model::Variable v;
            std::string line, got, want;
            fl::RuleBlock rb;
            int k = (int)s.u(4);
            if (k == 0) {
                std::unique_ptr<fl::TNorm> n(build::tnorm(s.oneOf(model::tnorms())));
                want = x.toString(n.get());
                EngineP p = load("RuleBlock: b\nconjunction: " + want);
                got = x.toString(p->getRuleBlock(0)->getConjunction());
            } else if (k == 1) {
                std::unique_ptr<fl::SNorm> n(build::snorm(s.oneOf(model::snorms())));
                want = x.toString(n.get());
                EngineP p = load("OutputVariable: b\naggregation: " + want);
                got = x.toString(p->getOutputVariable(0)->getAggregation());
            } else if (k == 2) {
                static const std::vector<std::string> acts = {"General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"};
                b.activation.cls = s.oneOf(acts);
                b.activation.n = s.range(1, 9);
                b.activation.threshold = s.num(0, 1);
                b.activation.comparison = s.oneOf(std::vector<std::string>{">=", "<", "<=", "==", "!=", ">"});
                std::unique_ptr<fl::Activation> n(build::activation(b.activation));
                want = x.toString(n.get());
                EngineP p = load("RuleBlock: b\nactivation: " + want);
                got = x.toString(p->getRuleBlock(0)->getActivation());
                if (b.activation.cls == "Threshold")
                    c.check(want == "Threshold " + b.activation.comparison + " " + model::num(b.activation.threshold), "threshold", "text of Threshold is " + want);
            } else {
                v = s.oneOf(e.outputs);
                std::unique_ptr<fl::Defuzzifier> n(build::defuzzifier(v));
                want = x.toString(n.get());
                EngineP p = load("OutputVariable: b\ndefuzzifier: " + want);
                got = x.toString(p->getOutputVariable(0)->getDefuzzifier());
            }
            c.check(got == want, "norm", want + " reads back as " + got);
            c.note([&] { return want; });
            kind = "norms and methods";
            break;
        }
        case 4: {  // rules
            if (!a->numberOfRuleBlocks() || !a->getRuleBlock(0)->numberOfRules())
                c.discard();
            fl::Rule* r = a->getRuleBlock(0)->getRule(s.u(a->getRuleBlock(0)->numberOfRules()));
            std::string t = x.toString(r);
            c.check(t == "rule: " + r->getText(), "rule", "text of the rule is " + t);
            std::unique_ptr<fl::Rule> q(fl::Rule::parse(t.substr(6), a.get()));
            c.check(x.toString(q.get()) == t, "rule", "rule reads back as " + x.toString(q.get()));
            kind = "rule";
            break;
        }
        default: {  // files
            char dir[] = "imexXXXXXX";
            if (!mkdtemp(dir))
                c.discard();
            std::string path = std::string(dir) + "/engine.fll", error;
            EngineP b;
            try {
                x.toFile(path, a.get());
                b.reset(im.fromFile(path));
            } catch (fl::Exception& ex) {
                error = ex.what();
            }
            std::ifstream f(path);
            std::stringstream content;
            content << f.rdbuf();
            f.close();
            unlink(path.c_str());
            rmdir(dir);
            c.check(error.empty(), "file", "file cannot be written and read back: " + error);
            std::string want = x.toString(a.get());
            std::string got = content.str();
            while (!got.empty() && got.back() == '\n')
                got.pop_back();
            c.check(got == want, "file", "content of the file differs from the text: " + got);
            c.check(x.toString(b.get()) == want, "file", "engine from the file differs");
            kind = "file";
        }
    }
    c.nontrivial(true);
    c.label(kind);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P16", {
        {"engines", engines, 12000, 400000, "the engine has rules, and an output value is finite (or fewer than three decimals were printed)"},
        {"precise", precise, 4000, 100000, "the engine has rules and numbers with more than three decimals"},
        {"components", components, 12000, 200000, "every component"},
    });
}
