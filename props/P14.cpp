// P14: Linear and Function terms always read the live engine they belong to.
#include "build.h"
using namespace pbt;
using model::Expr;

struct World {
    EngineP e;
    bool extra = false;
    std::string how;
};

static void check(Case& c, const model::Engine& d, World& w, const char* when, int& useful) {
    fl::Engine& e = *w.e;
    model::World world;
    for (size_t i = 0; i < e.numberOfInputVariables(); ++i) {
        world.inputs.push_back(e.getInputVariable(i)->getValue());
        world.env[e.getInputVariable(i)->getName()] = e.getInputVariable(i)->getValue();
    }
    for (size_t i = 0; i < e.numberOfOutputVariables(); ++i)
        world.env[e.getOutputVariable(i)->getName()] = e.getOutputVariable(i)->getValue();
    auto one = [&](const model::Variable& v, fl::Variable* var) {
        for (size_t t = 0; t < v.terms.size(); ++t) {
            const model::Term& m = v.terms[t];
            if (m.cls != "Linear" && m.cls != "Function")
                continue;
            for (double x : {0.0, 2.5}) {
                model::fragile = false;
                double want = model::membership(m, x, &world), got;
                if (model::fragile)
                    continue;
                try {
                    got = var->getTerm(t)->membership(x);
                } catch (fl::Exception& ex) {
                    c.fail("exception", w.how + " " + when + ": " + model::describe(m) + " raised " + ex.what());
                }
                c.checkf(close(got, want, 1e-7, 1e-7) || same(got, want), "value", [&] {
                    std::string r = w.how + " " + when + ": " + model::describe(m) + " of " + v.name + " is " + str(got) + " instead of " + str(want) + " at x=" + str(x);
                    for (auto& p : world.env)
                        r += " " + p.first + "=" + str(p.second);
                    return r;
                });
                useful += std::isfinite(want);
            }
        }
    };
    for (size_t i = 0; i < d.inputs.size(); ++i)
        one(d.inputs[i], e.getInputVariable(i));
    for (size_t i = 0; i < d.outputs.size(); ++i)
        one(d.outputs[i], e.getOutputVariable(i));
}

static void live(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.disabled = false;
    o.maxRules = 3;
    o.maxBlocks = 1;
    o.maxResolution = 20;
    o.hybrid = false;
    model::Engine d = model::genEngine(s, o);
    // each output also gets terms over everything declared before it
    std::vector<std::string> names;
    for (size_t i = 0; i < d.inputs.size(); ++i) {
        if (i > 0 && s.chance(1, 3)) {
            model::Term t;
            t.cls = "Function";
            t.name = "zf";
            auto vars = names;
            vars.push_back("x");
            t.formula = model::genTameFormula(s, vars, 2);
            t.formulaText = model::infix(t.formula);
            d.inputs[i].terms.push_back(t);
        }
        names.push_back(d.inputs[i].name);
    }
    for (auto& v : d.outputs) {
        model::Term t;
        t.cls = "Linear";
        t.name = "zl";
        int n = s.range(1, (int)d.inputs.size() + 2);
        for (int i = 0; i < n; ++i)
            t.p.push_back(s.num(-5, 5));
        v.terms.push_back(t);
        model::Term f;
        f.cls = "Function";
        f.name = "zf";
        auto vars = names;
        vars.push_back("x");
        f.formula = model::genTameFormula(s, vars, 3);
        f.formulaText = model::infix(f.formula);
        v.terms.push_back(f);
        names.push_back(v.name);
    }
    c.note([&] { return model::describe(d); });
    std::vector<World> ws;
    auto add = [&](fl::Engine* e, bool extra, const std::string& how) {
        World w;
        w.e.reset(e);
        w.extra = extra;
        w.how = how;
        c.say("world " + std::to_string(ws.size()) + ": " + how);
        ws.push_back(std::move(w));
    };
    add(build::engine(d).release(), false, "original");
    if (s.chance(1, 3))  // these terms have no height
        for (auto* v : ws[0].e->outputVariables()) {
            v->getTerm("zl")->setHeight(s.num(0.1, 2));
            v->getTerm("zf")->setHeight(s.num(0.1, 2));
        }
    int steps = s.range(3, 14), useful = 0, copies = 0;
    bool differing = false;
    for (int step = 0; step < steps; ++step) {
        size_t k = s.u(ws.size());
        World& w = ws[k];
        fl::Engine& e = *w.e;
        switch (s.u(13)) {
            default: {
                size_t i = s.u(e.numberOfInputVariables());
                double x = i < d.inputs.size() ? model::genInput(s, d.inputs[i]) : s.num(-5, 5);
                e.getInputVariable(i)->setValue(x);
                c.note([&] { return strf("input %d of world %d = %g", (int)i, (int)k, x); });
                differing = differing || ws.size() > 1;
                break;
            }
            case 3: {
                size_t i = s.u(e.numberOfOutputVariables());
                double x = s.num(-9, 9);
                e.getOutputVariable(i)->setValue(x);
                c.note([&] { return strf("output %d of world %d = %g", (int)i, (int)k, x); });
                break;
            }
            case 4:
                try {
                    e.process();
                    c.note([&] { return strf("process world %d", (int)k); });
                } catch (fl::Exception&) {
                }
                break;
            case 5:
                if (ws.size() < 6) {
                    bool cl = s.coin();
                    add(cl ? e.clone() : new fl::Engine(e), w.extra, strf("%s of world %d", cl ? "clone" : "copy", (int)k));
                    ++copies;
                }
                break;
            case 6:
                if (ws.size() < 6) {
                    std::string text = fl::FllExporter().toString(&e);
                    try {
                        add(fl::FllImporter().fromString(text), w.extra, strf("import of the export of world %d", (int)k));
                    } catch (fl::Exception& x) {
                        c.fail("import", "text of the engine cannot be imported: " + std::string(x.what()) + "\n" + text);
                    }
                    ++copies;
                }
                break;
            case 7:
                if (ws.size() > 1) {
                    size_t j = s.u(ws.size());
                    if (j != k) {
                        *ws[j].e = e;
                        ws[j].extra = w.extra;
                        c.note([&] { return strf("world %d = world %d", (int)j, (int)k); });
                        ++copies;
                    }
                }
                break;
            case 8:
                if (ws.size() > 1) {
                    c.note([&] { return strf("delete world %d", (int)k); });
                    ws.erase(ws.begin() + k);
                }
                break;
            case 9:
                if (!w.extra) {
                    e.addInputVariable(new fl::InputVariable("zextra", -5, 5));
                    e.getInputVariable("zextra")->setValue(s.num(-5, 5));
                    w.extra = true;
                    c.note([&] { return strf("world %d gets another input", (int)k); });
                }
                break;
            case 10: {
                // a term moves to another engine
                size_t j = s.u(ws.size()), v = s.u(d.outputs.size());
                fl::Engine& to = *ws[j].e;
                size_t t = d.outputs[v].terms.size() - 1 - s.u(2);
                std::unique_ptr<fl::Term> term(e.getOutputVariable(v)->getTerm(t)->clone());
                model::Term m = d.outputs[v].terms[t];
                fl::Function* function = dynamic_cast<fl::Function*>(term.get());
                if (function && s.chance(1, 3)) {  // with another formula
                    std::vector<std::string> vars = {"x"};
                    for (auto& in : d.inputs)
                        vars.push_back(in.name);
                    m.formula = model::genTameFormula(s, vars, 2);
                    m.formulaText = model::infix(m.formula);
                    function->setFormula(m.formulaText);
                    c.note([&] { return "the formula becomes " + m.formulaText; });
                }
                term->updateReference(&to);
                model::World world;
                for (size_t i = 0; i < to.numberOfInputVariables(); ++i) {
                    world.inputs.push_back(to.getInputVariable(i)->getValue());
                    world.env[to.getInputVariable(i)->getName()] = to.getInputVariable(i)->getValue();
                }
                for (size_t i = 0; i < to.numberOfOutputVariables(); ++i)
                    world.env[to.getOutputVariable(i)->getName()] = to.getOutputVariable(i)->getValue();
                model::fragile = false;
                double want = model::membership(m, 1, &world), got = term->membership(1);
                if (!model::fragile)
                    c.checkf(close(got, want, 1e-7, 1e-7) || same(got, want), "moved", [&] {
                        return strf("from world %d to world %d: ", (int)k, (int)j) + model::describe(m) + " is " + str(got) + " instead of " + str(want);
                    });
                break;
            }
            case 12: {  // the values of disabled variables are still values
                size_t i = s.u((uint32_t)(d.inputs.size() + d.outputs.size()));
                fl::Variable* v = i < d.inputs.size() ? (fl::Variable*)e.getInputVariable(i) : e.getOutputVariable(i - d.inputs.size());
                v->setEnabled(!v->isEnabled());
                c.note([&] { return v->getName() + strf(" of world %d ", (int)k) + (v->isEnabled() ? "enabled" : "disabled"); });
                break;
            }
            case 11:
                if (!w.extra) {
                    // outputs agree with an engine built anew
                    EngineP fresh(build::engine(d));
                    for (size_t i = 0; i < d.inputs.size(); ++i)
                        fresh->getInputVariable(i)->setEnabled(e.getInputVariable(i)->isEnabled());
                    for (size_t i = 0; i < d.outputs.size(); ++i)
                        fresh->getOutputVariable(i)->setEnabled(e.getOutputVariable(i)->isEnabled());
                    e.restart();
                    fresh->restart();
                    auto in = build::genInputs(s, d, 1);
                    c.note([&] { return strf("world %d restarts and processes ", (int)k) + build::show(in[0]); });
                    std::string diff = build::diff(build::run(e, in), build::run(*fresh, in), 1e-9, 1e-9);
                    c.check(diff.empty(), "outputs", w.how + " and an engine built anew differ: " + diff);
                }
                break;
        }
        for (size_t j = 0; j < ws.size(); ++j)
            check(c, d, ws[j], strf("(world %d) after step %d", (int)j, step).c_str(), useful);
    }
    c.nontrivial(useful > 0 && copies > 0 && differing);
    c.label(copies ? "with copies" : "one engine");
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P14", {
        {"live", live, 20000, 600000, "a term has a finite value while at least two engines had different values"},
    });
}
