// P40: failures are reported as the library's exception and leave engines usable.
#include "build.h"
#include <algorithm>
#include <sstream>
using namespace pbt;

// Faults of an engine, each of which can be applied and repaired.
struct Fault {
    std::string what;
    std::function<void(fl::Engine&)> apply, repair;
    bool on = false;
};

static void reload(Case& c, fl::Rule* r, const std::string& text, const fl::Engine& e, bool good) {
    bool enabled = r->isEnabled();  // loading a rule enables it
    r->setText(text);
    bool raised = false;
    try {
        r->load(&e);
    } catch (fl::Exception&) {
        raised = true;
    }
    c.checkf(raised == !good && r->isLoaded() == good, "load", [&] { return "loading <" + text + (raised ? "> raised an exception" : "> raised no exception") + (r->isLoaded() ? " and left a loaded rule" : " and left no loaded rule"); });
    r->setEnabled(enabled);
}
static std::vector<Fault> faults(Case& k_, const model::Engine& d) {
    Case* c = &k_;
    Src& s = c->src;
    std::vector<Fault> r;
    for (size_t i = 0; i < d.blocks.size(); ++i) {
        const model::Block& b = d.blocks[i];
        std::string at = " of block " + std::to_string(i);
        r.push_back({"no conjunction" + at, [=](fl::Engine& e) { e.getRuleBlock(i)->setConjunction(nullptr); }, [=](fl::Engine& e) { e.getRuleBlock(i)->setConjunction(build::tnorm(b.conjunction)); }});
        r.push_back({"no disjunction" + at, [=](fl::Engine& e) { e.getRuleBlock(i)->setDisjunction(nullptr); }, [=](fl::Engine& e) { e.getRuleBlock(i)->setDisjunction(build::snorm(b.disjunction)); }});
        r.push_back({"no implication" + at, [=](fl::Engine& e) { e.getRuleBlock(i)->setImplication(nullptr); }, [=](fl::Engine& e) { e.getRuleBlock(i)->setImplication(build::tnorm(b.implication)); }});
        if (!b.rules.empty()) {
            size_t k = s.u((uint32_t)b.rules.size());
            std::string text = b.rules[k].text, rule = " rule " + std::to_string(k) + at;
            std::string bad = s.oneOf(std::vector<std::string>{"if nothing is anything then nothing is anything", "if", "", text + " with x", text + " and", "if ( " + text});
            r.push_back({"unloaded" + rule, [=](fl::Engine& e) { e.getRuleBlock(i)->getRule(k)->unload(); }, [=](fl::Engine& e) { reload(*c, e.getRuleBlock(i)->getRule(k), text, e, true); }});
            size_t j = s.u((uint32_t)b.rules.size());
            if (j != k) {
                text = b.rules[j].text;
                r.push_back({"<" + bad + "> as rule " + std::to_string(j) + at, [=](fl::Engine& e) { reload(*c, e.getRuleBlock(i)->getRule(j), bad, e, false); }, [=](fl::Engine& e) { reload(*c, e.getRuleBlock(i)->getRule(j), text, e, true); }});
            }
        }
    }
    for (size_t i = 0; i < d.outputs.size(); ++i) {
        const model::Variable& v = d.outputs[i];
        r.push_back({"no defuzzifier of " + v.name, [=](fl::Engine& e) { e.getOutputVariable(i)->setDefuzzifier(nullptr); }, [=](fl::Engine& e) { e.getOutputVariable(i)->setDefuzzifier(build::defuzzifier(v)); }});
        r.push_back({"no aggregation of " + v.name, [=](fl::Engine& e) { e.getOutputVariable(i)->setAggregation(nullptr); }, [=](fl::Engine& e) { e.getOutputVariable(i)->setAggregation(build::snorm(v.aggregation)); }});
        for (size_t t = 0; t < v.terms.size(); ++t)
            if (v.terms[t].cls == "Function") {
                std::string good = v.terms[t].formulaText, bad = s.oneOf(std::vector<std::string>{"zz + 1", "1 +", "sin(", "", "(1"});
                auto set = [=](fl::Engine& e, const std::string& formula, bool valid) {
                    fl::Function* f = dynamic_cast<fl::Function*>(e.getOutputVariable(i)->getTerm(t));
                    bool raised = false;
                    try {
                        f->load(formula, &e);
                    } catch (fl::Exception&) {
                        raised = true;
                    }
                    c->checkf(raised == !valid, "load", [&] { return "loading the formula <" + formula + (raised ? "> raised an exception" : "> raised no exception"); });
                    raised = false;
                    try {
                        f->membership(0.5);
                    } catch (fl::Exception&) {
                        raised = true;
                    }
                    c->checkf(raised == !valid, "load", [&] { return "after loading the formula <" + formula + (raised ? ">, evaluating raised an exception" : ">, evaluating raised no exception"); });
                };
                r.push_back({"<" + bad + "> as formula of " + v.terms[t].name, [=](fl::Engine& e) { set(e, bad, false); }, [=](fl::Engine& e) { set(e, good, true); }});
            } else if (v.terms[t].cls == "Linear") {
                r.push_back({"Linear " + v.terms[t].name + " without engine", [=](fl::Engine& e) { e.getOutputVariable(i)->getTerm(t)->updateReference(nullptr); }, [=](fl::Engine& e) { e.getOutputVariable(i)->getTerm(t)->updateReference(&e); }});
            }
    }
    return r;
}

struct Step {
    std::string error;
    std::vector<double> out, degrees;
    std::string fuzzy;
};
static Step step(Case& c, fl::Engine& e, const std::vector<double>& row) {
    Step r;
    try {
        build::setInputs(e, row);
        e.process();
    } catch (fl::Exception& x) {
        r.error = x.what();
        if (!build::says(x))
            c.fail("message", "an exception without a message");
        return r;
    } catch (std::exception& x) {
        c.fail("exception", std::string("processing raised ") + typeid(x).name() + ": " + x.what());
    }
    for (auto* o : e.outputVariables()) {
        r.out.push_back(o->isEnabled() ? o->getValue() : 0);
        for (auto& t : o->fuzzyOutput()->terms())
            r.fuzzy += strf("%.17g/%s ", t.getDegree(), t.getTerm()->getName().c_str());
        r.fuzzy += "; ";
    }
    for (auto* b : e.ruleBlocks())
        if (b->isEnabled())
            for (auto* x : b->rules())
                r.degrees.push_back(x->isTriggered() ? x->getActivationDegree() : -1 - x->getActivationDegree());
    return r;
}
static bool equal(const std::vector<double>& a, const std::vector<double>& b) {
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (!same(a[i], b[i]))
            return false;
    return a.size() == b.size();
}
static std::string differ(const Step& a, const Step& b) {
    if (a.error != b.error)
        return "exception <" + a.error + "> vs <" + b.error + ">";
    if (!a.error.empty())
        return "";
    if (!equal(a.out, b.out))
        return "outputs " + build::show(a.out) + " vs " + build::show(b.out);
    if (a.fuzzy != b.fuzzy)
        return "fuzzy outputs " + a.fuzzy + " vs " + b.fuzzy;
    if (!equal(a.degrees, b.degrees))
        return "degrees " + build::show(a.degrees) + " vs " + build::show(b.degrees);
    return "";
}

// calls that fail, or that at least change nothing
static std::string harmless(Case& c, const model::Engine& d, fl::Engine& e) {
    Src& s = c.src;
    const std::string nope = "no_such_name";
    std::string what;
    bool must = true, raised = false;
    try {
        switch (s.u(16)) {
            case 0: what = "getInputVariable"; e.getInputVariable(nope); break;
            case 1: what = "getOutputVariable"; e.getOutputVariable(nope); break;
            case 2: what = "getRuleBlock"; e.getRuleBlock(nope); break;
            case 3: what = "getTerm"; e.getInputVariable(0)->getTerm(nope); break;
            case 4: what = "removeInputVariable"; e.removeInputVariable(nope); break;
            case 5: what = "removeOutputVariable"; e.removeOutputVariable(nope); break;
            case 6: what = "removeRuleBlock"; e.removeRuleBlock(nope); break;
            case 7: what = "parse"; delete fl::Rule::parse("if nothing is anything then " + d.outputs[0].name + " is nothing", &e); break;
            case 8: what = "import"; delete fl::FllImporter().fromString(build::fll(d) + "\nRuleBlock: x\n  conjunction: Nope\n"); break;
            case 9: {
                what = "configure";
                std::vector<std::string> n = {"Minimum", "Maximum", "Minimum", "Maximum", "Centroid", "General"};
                n[s.u(6)] = "Nope";
                e.configure(n[0], n[1], n[2], n[3], n[4], n[5]);
                break;
            }
            case 10: {
                what = "export data";
                std::istringstream data("1 2 3 4 5\n1 x 3 4 5\n");
                fl::FldExporter().toString(&e, data);
                break;
            }
            case 11: what = "toFile"; fl::FllExporter().toFile("/nonexistent/folder/file.fll", &e); break;
            case 12: what = "export to FIS"; must = false; fl::FisExporter().toString(&e); break;
            case 13: what = "export to FCL"; must = false; fl::FclExporter().toString(&e); break;
            case 14: what = "formula"; fl::Function("f", "zz + 1", &e).load(); break;
            default: {
                what = "construct";
                fl::FactoryManager* f = fl::FactoryManager::instance();
                switch (s.u(6)) {
                    case 0: delete f->tnorm()->constructObject(nope); break;
                    case 1: delete f->snorm()->constructObject(nope); break;
                    case 2: delete f->term()->constructObject(nope); break;
                    case 3: delete f->hedge()->constructObject(nope); break;
                    case 4: delete f->defuzzifier()->constructObject(nope); break;
                    default: delete f->activation()->constructObject(nope);
                }
            }
        }
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", what + ": an exception without a message");
    } catch (std::exception& x) {
        c.fail("exception", what + " raised " + typeid(x).name() + ": " + x.what());
    }
    c.check(raised || !must, "no-exception", what + " raised no exception");
    return what;
}

static void recovery(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxRules = 5;
    o.maxResolution = 15;
    o.lockPrevious = false;
    o.hedgesAnywhere = true;
    model::Engine d = model::genEngine(s, o);
    c.note([&] { return model::describe(d); });
    EngineP engine = build::engine(d);
    auto all = faults(c, d);
    int failed = 0, recovered = 0, finite = 0;
    std::string past;
    auto present = [&] {
        std::string r;
        for (auto& f : all)
            if (f.on)
                r += f.what + "; ";
        return r.empty() ? "without faults" : "with " + r;
    };
    for (int i = s.range(3, 12); i > 0; --i) {
        if (!all.empty())
            for (int k = s.range(0, 2); k > 0; --k) {
                Fault& f = all[s.u((uint32_t)all.size())];
                // repairing is more likely the more faults there are
                (f.on ? f.repair : f.apply)(*engine);
                f.on = !f.on;
                c.note([&] { return std::string(f.on ? "fault: " : "repaired: ") + f.what; });
            }
        if (s.chance(1, 3)) {
            for (auto& f : all)
                if (f.on) {
                    f.repair(*engine);
                    f.on = false;
                }
            c.say("everything repaired");
        }
        while (s.chance(1, 2)) {
            std::string before = engine->toString();
            std::string what = harmless(c, d, *engine);
            c.say("failing call: " + what);
            c.checkf(engine->toString() == before, "changed", [&] { return what + " failed and changed the engine from <" + before + "> to <" + engine->toString() + ">"; });
        }
        auto row = build::genInputs(s, d, 1, true)[0];
        c.note([&] { return "process " + build::show(row); });
        EngineP fresh = build::engine(d);
        for (auto& f : all)
            if (f.on)
                f.apply(*fresh);
        Step want = step(c, *fresh, row), got = step(c, *engine, row);
        c.checkf(differ(want, got).empty(), "differs", [&] { return present() + ", processing " + build::show(row) + " yields (new engine vs this) " + differ(want, got); });
        Step again = step(c, *engine, row);
        c.checkf(differ(want, again).empty(), "again", [&] { return present() + ", repeating " + build::show(row) + " yields (new engine vs this) " + differ(want, again); });
        if (!got.error.empty()) {
            ++failed;
            // a variable that cannot be defuzzified keeps its values
            for (auto* v : engine->outputVariables()) {
                double value = v->getValue(), previous = v->getPreviousValue();
                std::string fuzzy = v->fuzzyOutput()->toString();
                try {
                    v->defuzzify();
                } catch (fl::Exception&) {
                    c.checkf(same(value, v->getValue()) && same(previous, v->getPreviousValue()) && fuzzy == v->fuzzyOutput()->toString(), "kept", [&] {
                        return present() + ", failing to defuzzify " + v->getName() + " changed its values from " + str(value) + ", " + str(previous) + " to " + str(v->getValue()) + ", " + str(v->getPreviousValue());
                    });
                }
            }
        } else {
            bool useful = false;
            for (double x : got.out)
                useful = useful || std::isfinite(x);
            finite += useful;
            recovered += failed > 0 && useful;
        }
    }
    c.label(failed ? "failing steps" : "no failing step");
    c.nontrivial(failed > 0 && recovered > 0);
}

static bool uses(const model::CondP& c, const std::string& op) { return !c->op.empty() && (c->op == op || uses(c->left, op) || uses(c->right, op)); }

// one thing is missing: an exception exactly when the step needs it, and otherwise what results without it missing
static void reported(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxRules = 4;
    o.maxResolution = 15;
    o.lockPrevious = false;
    o.activations = false;
    o.outputsInAntecedent = false;
    o.functions = false;
    model::Engine d = model::genEngine(s, o);
    c.note([&] { return model::describe(d); });
    auto row = build::genInputs(s, d, 1, false)[0];
    model::fragile = false;
    model::Machine m(d);
    for (size_t i = 0; i < row.size(); ++i)
        m.setInput(i, row[i]);
    m.process();
    if (model::fragile)
        c.discard();
    size_t i = s.u((uint32_t)d.blocks.size()), j = s.u((uint32_t)d.outputs.size());
    const model::Block& b = d.blocks[i];
    const model::Variable& v = d.outputs[j];
    EngineP engine = build::engine(d), whole = build::engine(d);
    bool needed = false, weighted = v.defuzzifier.compare(0, 8, "Weighted") == 0;
    bool finiteRange = std::isfinite(v.min) && std::isfinite(v.max);
    std::string what;
    switch (s.u(5)) {
        case 0:
        case 1: {
            bool conjunction = s.coin();
            what = conjunction ? "conjunction" : "disjunction";
            if (conjunction)
                engine->getRuleBlock(i)->setConjunction(nullptr);
            else
                engine->getRuleBlock(i)->setDisjunction(nullptr);
            bool disabled = false;  // whether the degrees of disabled rules are computed is not specified
            for (auto& r : b.rules)
                if (b.enabled && uses(r.antecedent, conjunction ? "and" : "or"))
                    (r.enabled ? needed : disabled) = true;
            if (disabled && !needed)
                c.discard();
            break;
        }
        case 2:
            what = "implication";
            engine->getRuleBlock(i)->setImplication(nullptr);
            for (size_t k = 0; k < b.rules.size() && b.enabled; ++k)
                for (auto& p : b.rules[k].consequent) {
                    const model::Variable* w = d.find(p.var);
                    bool integral = w->defuzzifier.compare(0, 8, "Weighted") != 0;
                    if (!m.triggered[i][k] || !w->enabled || !integral)
                        continue;
                    if (!(std::isfinite(w->min) && std::isfinite(w->max)))
                        c.discard();
                    needed = true;
                }
            break;
        case 3:
            what = "aggregation of " + v.name;
            if (!finiteRange)
                c.discard();
            engine->getOutputVariable(j)->setAggregation(nullptr);
            needed = v.enabled && !weighted && !m.out[j].fuzzy.empty();
            if (weighted)  // takes part in the value
                c.discard();
            break;
        default:
            what = "defuzzifier of " + v.name;
            engine->getOutputVariable(j)->setDefuzzifier(nullptr);
            needed = v.enabled;
    }
    c.say("without " + what);
    Step want = step(c, *whole, row), got = step(c, *engine, row);
    if (!want.error.empty())
        c.discard();
    c.checkf(got.error.empty() == !needed, "reported", [&] { return "without " + what + " processing " + build::show(row) + (needed ? " raises no exception" : " raises <" + got.error + ">"); });
    if (!needed) {
        if (what[0] == 'd' && what[1] == 'e')  // it is disabled
            want.out[j] = got.out[j] = 0;
        c.checkf(differ(want, got).empty(), "not-needed", [&] { return what + " is not needed, but without it " + differ(want, got); });
    }
    c.label(needed ? "needed" : "not needed");
    c.nontrivial(needed);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P40", {
        {"reported", reported, 20000, 500000, "what is missing is needed"},
        {"recovery", recovery, 16000, 500000, "a step failed, and a later one had a finite output"},
    });
}
