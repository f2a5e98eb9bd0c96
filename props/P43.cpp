// P43: an engine that was edited is the engine that its final configuration describes.
#include "build.h"
#include <algorithm>
#include <functional>
#include <sstream>
using namespace pbt;

// what was taken out of an engine is kept until the end, as its rules may still refer to it
struct Removed {
    std::vector<std::unique_ptr<fl::Variable>> variables;
    std::vector<std::unique_ptr<fl::Term>> terms;
    std::vector<std::unique_ptr<fl::RuleBlock>> blocks;
    std::vector<std::unique_ptr<fl::Rule>> rules;
};
typedef std::vector<std::function<void()>> Steps;
static void shuffled(Src& s, Steps& steps) {
    for (size_t i = steps.size(); i > 1; --i)
        std::swap(steps[i - 1], steps[s.u((uint32_t)i)]);
    for (auto& step : steps)
        step();
}

struct Editor {
    Case& c;
    Src& s;
    EngineP engine;
    Removed removed;
    std::vector<std::pair<fl::Function*, std::string>> formulas;
    int reused = 0;

    explicit Editor(Case& k) : c(k), s(k.src) {}
    // the engine goes first: it may refer to what was removed, not the other way round
    ~Editor() { engine.reset(); }

    void references() {
        for (auto* v : engine->variables())
            for (auto* t : v->terms())
                t->updateReference(engine.get());
    }
    // whatever is there is used in any order, may fail for now, and leaves nothing behind
    void meanwhile() {
        if (!s.chance(1, 6))
            return;
        try {
            switch (s.u(5)) {
                case 0: {
                    fl::Engine copy(*engine);
                    copy.process();
                    break;
                }
                case 1: engine->toString(); break;
                case 2: references(); break;
                case 3: engine->restart(); break;
                default:
                    for (auto* v : engine->inputVariables())
                        v->setValue(s.num(-1, 2));
                    engine->process();
            }
        } catch (fl::Exception&) {
        }
    }

    // makes a list of what is wanted out of what is there: some are kept and edited, others new
    template <class T, class M>
    std::vector<T*> arrange(const std::vector<T*>& present, const std::vector<M>& wanted, const std::function<bool(T*, const M&)>& fits,
        const std::function<void(T*, const M&)>& edit, const std::function<T*(const M&)>& create, const std::function<void(T*)>& drop) {
        std::vector<T*> left = present, list;
        for (auto& m : wanted) {
            std::vector<T*> candidates;
            for (T* x : left)
                if (fits(x, m))
                    candidates.push_back(x);
            T* x = nullptr;
            if (!candidates.empty() && s.chance(3, 4)) {
                // often the one that is at the same place
                x = s.coin() ? candidates[0] : candidates[s.u((uint32_t)candidates.size())];
                left.erase(std::find(left.begin(), left.end(), x));
                edit(x, m);
                ++reused;
            } else
                x = create(m);
            list.push_back(x);
        }
        for (T* x : left)
            drop(x);
        return list;
    }
    template <class T, class Owner>
    void place(Owner* o, const std::vector<T*>& list, void (Owner::*set)(const std::vector<T*>&), void (Owner::*add)(T*), void (Owner::*insert)(T*, std::size_t),
        T* (Owner::*remove)(std::size_t), std::size_t (Owner::*size)() const) {
        switch (s.u(4)) {
            case 0: (o->*set)(list); break;
            case 1:
                while ((o->*size)() > 0)
                    (o->*remove)((o->*size)() - 1);
                for (T* x : list)
                    (o->*add)(x);
                break;
            case 2: {
                while ((o->*size)() > 0)
                    (o->*remove)(s.u((uint32_t)(o->*size)()));
                for (size_t i = list.size(); i-- > 0;)
                    (o->*insert)(list[i], 0);
                break;
            }
            default: {  // one after another
                for (size_t i = 0; i < list.size(); ++i) {
                    if (i < (o->*size)())
                        (o->*remove)(i);
                    (o->*insert)(list[i], i);
                    for (size_t k = (o->*size)(); k-- > i + 1;) {  // the one that came here from there
                        T* x = (o->*remove)(k);
                        if (x != list[i])
                            (o->*insert)(x, k);
                    }
                }
                while ((o->*size)() > list.size())
                    (o->*remove)((o->*size)() - 1);
            }
        }
    }

    void terms(fl::Variable* v, const model::Variable& d) {
        auto list = arrange<fl::Term, model::Term>(
            v->terms(), d.terms, [](fl::Term* t, const model::Term& m) { return t->className() == m.cls; },
            [&](fl::Term* t, const model::Term& m) {
                Steps steps = {[=] { t->setName(m.name); }};
                if (auto* f = dynamic_cast<fl::Function*>(t))
                    formulas.emplace_back(f, m.formulaText);
                else if (auto* l = dynamic_cast<fl::Linear*>(t)) {
                    fl::Engine* e = engine.get();
                    bool direct = s.coin();
                    steps.push_back([=] {
                        if (direct) {
                            std::vector<fl::scalar> k(m.p.begin(), m.p.end());
                            l->set(k, e);
                        } else
                            l->configure(model::termParameters(m));
                    });
                    if (m.p.empty() && !direct)
                        steps.push_back([=] { l->setCoefficients(std::vector<fl::scalar>()); });
                } else
                    steps.push_back([=] {
                        t->setHeight(1);
                        t->configure(model::termParameters(m));
                    });
                shuffled(s, steps);
            },
            [&](const model::Term& m) -> fl::Term* {
                if (m.cls == "Function") {
                    auto* f = new fl::Function(m.name, "0", engine.get());
                    formulas.emplace_back(f, m.formulaText);
                    return f;
                }
                return build::term(m, engine.get());
            },
            [&](fl::Term* t) { removed.terms.emplace_back(t); });
        place<fl::Term, fl::Variable>(v, list, &fl::Variable::setTerms, &fl::Variable::addTerm, &fl::Variable::insertTerm, &fl::Variable::removeTerm, &fl::Variable::numberOfTerms);
    }
    void variable(fl::Variable* v, const model::Variable& d) {
        Steps steps = {[=] { v->setName(d.name); }, [=] { v->setDescription(d.description); }, [=] { v->setEnabled(d.enabled); },
            [=] { v->setLockValueInRange(d.lockRange); }, [=, &d] { terms(v, d); }};
        if (s.coin())
            steps.push_back([=] { v->setRange(d.min, d.max); });
        else {
            steps.push_back([=] { v->setMinimum(d.min); });
            steps.push_back([=] { v->setMaximum(d.max); });
        }
        if (auto* o = dynamic_cast<fl::OutputVariable*>(v)) {
            steps.push_back([=] { o->setAggregation(build::snorm(d.aggregation)); });
            steps.push_back([=] {
                auto* present = o->getDefuzzifier();
                if (present && present->className() == d.defuzzifier && s.chance(3, 4)) {
                    if (auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(present))
                        i->setResolution(d.resolution);
                    else if (auto* w = dynamic_cast<fl::WeightedDefuzzifier*>(present))
                        w->setType(d.weightedType == "TakagiSugeno" ? fl::WeightedDefuzzifier::TakagiSugeno : d.weightedType == "Tsukamoto" ? fl::WeightedDefuzzifier::Tsukamoto : fl::WeightedDefuzzifier::Automatic);
                } else
                    o->setDefuzzifier(build::defuzzifier(d));
            });
            steps.push_back([=] { o->setDefaultValue(d.defaultValue); });
            steps.push_back([=] { o->setLockPreviousValue(d.lockPrevious); });
        }
        shuffled(s, steps);
        meanwhile();
    }
    void rules(fl::RuleBlock* b, const model::Block& d) {
        auto list = arrange<fl::Rule, model::Rule>(
            b->rules(), d.rules, [](fl::Rule*, const model::Rule&) { return true; }, [](fl::Rule* r, const model::Rule& m) { r->setText(m.text); },
            [&](const model::Rule& m) {
                auto* r = new fl::Rule;
                r->setText(m.text);
                return r;
            },
            [&](fl::Rule* r) { removed.rules.emplace_back(r); });
        place<fl::Rule, fl::RuleBlock>(b, list, &fl::RuleBlock::setRules, &fl::RuleBlock::addRule, &fl::RuleBlock::insertRule, &fl::RuleBlock::removeRule, &fl::RuleBlock::numberOfRules);
    }
    void block(fl::RuleBlock* b, const model::Block& d) {
        Steps steps = {[=] { b->setName(d.name); }, [=] { b->setDescription(d.description); }, [=] { b->setEnabled(d.enabled); },
            [=] { b->setConjunction(build::tnorm(d.conjunction)); }, [=] { b->setDisjunction(build::snorm(d.disjunction)); }, [=] { b->setImplication(build::tnorm(d.implication)); },
            [=, &d] { rules(b, d); }, [=] {
                fl::Activation* a = b->getActivation();
                std::unique_ptr<fl::Activation> wanted(build::activation(d.activation));
                if (a && a->className() == d.activation.cls && s.chance(3, 4)) {
                    if (auto* t = dynamic_cast<fl::Threshold*>(a)) {
                        t->setValue(d.activation.threshold);
                        t->setComparison(dynamic_cast<fl::Threshold*>(wanted.get())->getComparison());
                    } else if (auto* f = dynamic_cast<fl::First*>(a)) {
                        f->setNumberOfRules(d.activation.n);
                        f->setThreshold(d.activation.threshold);
                    } else if (auto* l = dynamic_cast<fl::Last*>(a)) {
                        l->setThreshold(d.activation.threshold);
                        l->setNumberOfRules(d.activation.n);
                    } else if (auto* h = dynamic_cast<fl::Highest*>(a))
                        h->setNumberOfRules(d.activation.n);
                    else if (auto* w = dynamic_cast<fl::Lowest*>(a))
                        w->setNumberOfRules(d.activation.n);
                } else
                    b->setActivation(wanted.release());
            }};
        shuffled(s, steps);
        meanwhile();
    }
    // the engine becomes what d describes
    void become(const model::Engine& d) {
        formulas.clear();
        Steps steps = {[=, &d] {
                           auto list = arrange<fl::InputVariable, model::Variable>(
                               engine->inputVariables(), d.inputs, [](fl::InputVariable*, const model::Variable&) { return true; }, [&](fl::InputVariable* v, const model::Variable& m) { variable(v, m); },
                               [&](const model::Variable& m) {
                                   auto* v = new fl::InputVariable;
                                   variable(v, m);
                                   return v;
                               },
                               [&](fl::InputVariable* v) { removed.variables.emplace_back(v); });
                           place<fl::InputVariable, fl::Engine>(engine.get(), list, &fl::Engine::setInputVariables, &fl::Engine::addInputVariable, &fl::Engine::insertInputVariable, &fl::Engine::removeInputVariable, &fl::Engine::numberOfInputVariables);
                       },
            [=, &d] {
                auto list = arrange<fl::OutputVariable, model::Variable>(
                    engine->outputVariables(), d.outputs, [](fl::OutputVariable*, const model::Variable&) { return true; }, [&](fl::OutputVariable* v, const model::Variable& m) { variable(v, m); },
                    [&](const model::Variable& m) {
                        auto* v = new fl::OutputVariable;
                        variable(v, m);
                        return v;
                    },
                    [&](fl::OutputVariable* v) { removed.variables.emplace_back(v); });
                place<fl::OutputVariable, fl::Engine>(engine.get(), list, &fl::Engine::setOutputVariables, &fl::Engine::addOutputVariable, &fl::Engine::insertOutputVariable, &fl::Engine::removeOutputVariable, &fl::Engine::numberOfOutputVariables);
            },
            [=, &d] {
                auto list = arrange<fl::RuleBlock, model::Block>(
                    engine->ruleBlocks(), d.blocks, [](fl::RuleBlock*, const model::Block&) { return true; }, [&](fl::RuleBlock* b, const model::Block& m) { block(b, m); },
                    [&](const model::Block& m) {
                        auto* b = new fl::RuleBlock;
                        block(b, m);
                        return b;
                    },
                    [&](fl::RuleBlock* b) { removed.blocks.emplace_back(b); });
                place<fl::RuleBlock, fl::Engine>(engine.get(), list, &fl::Engine::setRuleBlocks, &fl::Engine::addRuleBlock, &fl::Engine::insertRuleBlock, &fl::Engine::removeRuleBlock, &fl::Engine::numberOfRuleBlocks);
            },
            [=, &d] { engine->setName(d.name); }, [=, &d] { engine->setDescription(d.description); }};
        shuffled(s, steps);
        meanwhile();
        // now the names are known
        bool update = s.coin();
        for (auto& f : formulas) {
            if (update) {
                f.first->setFormula(f.second);
                f.first->updateReference(engine.get());
            } else
                f.first->load(f.second, engine.get());
        }
        if (s.chance(1, 4))
            references();
        for (size_t i = 0; i < d.blocks.size(); ++i) {
            fl::RuleBlock* b = engine->getRuleBlock(i);
            switch (s.u(3)) {
                case 0: b->loadRules(engine.get()); break;
                case 1: b->reloadRules(engine.get()); break;
                default:
                    for (auto* r : b->rules())
                        if (s.coin())
                            r->load(engine.get());
                        else {
                            std::string text = r->getText();
                            r->unload();
                            r->load(s.coin() ? text : " " + text, engine.get());
                            r->setText(text);
                        }
            }
            for (size_t k = 0; k < d.blocks[i].rules.size(); ++k)
                b->getRule(k)->setEnabled(d.blocks[i].rules[k].enabled);
        }
    }
};

// everything that a step leaves
static std::string observe(fl::Engine& e, const std::vector<double>& row, int& finite) {
    std::string r;
    try {
        build::setInputs(e, row);
        e.process();
    } catch (fl::Exception&) {
        r += "raised an exception; ";
    }
    for (auto* o : e.outputVariables()) {
        r += strf("%s=%.17g (%.17g):", o->getName().c_str(), o->getValue(), o->getPreviousValue());
        finite += std::isfinite(o->getValue());
        r += " " + o->fuzzyOutput()->toString() + " within " + str(o->fuzzyOutput()->getMinimum()) + " " + str(o->fuzzyOutput()->getMaximum()) + "; ";
    }
    for (auto* b : e.ruleBlocks())
        for (auto* x : b->rules())
            r += strf("%d%d:%.17g*%.17g ", x->isLoaded(), x->isTriggered(), x->isEnabled() && b->isEnabled() ? x->getActivationDegree() : 0, x->getWeight());
    return r;
}

// a configuration that differs little from another: names may mean something else in the same texts
static void vary(Src& s, model::Engine& d, const model::GenOptions& o) {
    auto variable = [&]() -> model::Variable& {
        size_t i = s.u(uint32_t(d.inputs.size() + d.outputs.size()));
        return i < d.inputs.size() ? d.inputs[i] : d.outputs[i - d.inputs.size()];
    };
    for (int k = s.range(1, 4); k > 0; --k)
        switch (s.u(8)) {
            case 0: {  // the names of two terms change places
                model::Variable& v = variable();
                if (v.terms.size() < 2)
                    break;
                size_t i = s.u((uint32_t)v.terms.size() - 1);
                std::swap(v.terms[i].name, v.terms[i + 1].name);
                break;
            }
            case 1: {  // the terms change places
                model::Variable& v = variable();
                if (v.terms.size() > 1)
                    std::swap(v.terms[0], v.terms[1 + s.u((uint32_t)v.terms.size() - 1)]);
                break;
            }
            case 2: {
                model::Variable& v = variable();
                if (!v.terms.empty()) {
                    model::Term& t = v.terms[s.u((uint32_t)v.terms.size())];
                    if (t.cls != "Function" && t.cls != "Linear" && t.cls != "Constant")
                        t = model::genTerm(s, t.cls, t.name, v.min, v.max, o);
                    else if (t.cls == "Constant")
                        t.p[0] = s.range(-5, 5);
                }
                break;
            }
            case 3:
                if (!d.blocks.empty()) {
                    model::Block& b = d.blocks[s.u((uint32_t)d.blocks.size())];
                    if (b.rules.size() > 1)
                        std::swap(b.rules[0], b.rules[1 + s.u((uint32_t)b.rules.size() - 1)]);
                }
                break;
            case 4:
                if (!d.blocks.empty()) {
                    model::Block& b = d.blocks[s.u((uint32_t)d.blocks.size())];
                    if (b.rules.size() > 1 && s.coin())
                        b.rules.erase(b.rules.begin() + s.u((uint32_t)b.rules.size()));
                    else if (!b.rules.empty())
                        b.rules.insert(b.rules.begin(), b.rules[s.u((uint32_t)b.rules.size())]);
                }
                break;
            case 5:
                if (d.blocks.size() > 1)
                    std::swap(d.blocks[0], d.blocks[1]);
                break;
            case 6: {
                model::Variable& v = variable();
                v.enabled = !v.enabled;
                break;
            }
            default:
                if (!d.blocks.empty()) {
                    model::Block& b = d.blocks[s.u((uint32_t)d.blocks.size())];
                    if (!b.rules.empty()) {
                        model::Rule& r = b.rules[s.u((uint32_t)b.rules.size())];
                        r.enabled = !r.enabled;
                    }
                }
        }
}

static void edited(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxRules = 4;
    o.maxTerms = 3;
    o.maxResolution = 15;
    o.hedgesAnywhere = true;
    o.descriptions = true;
    Editor editor(c);
    model::Engine d = model::genEngine(s, o);
    editor.engine = build::engine(d);
    int finite = 0;
    for (int k = s.range(1, 3); k > 0; --k) {
        c.note([&] { return "from\n" + model::describe(d); });
        int unused = 0;
        for (auto& row : build::genInputs(s, d, s.range(0, 2), true))
            observe(*editor.engine, row, unused);
        if (s.chance(2, 3))
            vary(s, d, o);
        else
            d = model::genEngine(s, o);
        c.note([&] { return "to\n" + model::describe(d); });
        try {
            editor.become(d);
        } catch (fl::Exception& x) {
            c.fail("edit", std::string("editing raised ") + x.what());
        }
        EngineP built = build::engine(d), copy;
        fl::Engine& e = *editor.engine;
        e.restart();
        std::string want = built->toString(), got = e.toString();
        c.checkf(want == got, "text", [&] { return "the edited engine is <" + got + "> instead of <" + want + ">"; });
        c.checkf(built->isReady() == e.isReady() && built->type() == e.type(), "status", [&] { return std::string("the edited engine is ") + (e.isReady() ? "ready" : "not ready") + strf(" and of type %d instead of %d", e.type(), built->type()); });
        if (s.coin())
            copy.reset(s.coin() ? new fl::Engine(e) : e.clone());
        for (auto& row : build::genInputs(s, d, s.range(1, 3), true)) {
            std::string a = observe(*built, row, finite), b = observe(e, row, unused);
            c.checkf(a == b, "results", [&] { return "for " + build::show(row) + " the edited engine gives\n" + b + "\n instead of\n" + a; });
            if (copy) {
                b = observe(*copy, row, unused);
                c.checkf(a == b, "copy", [&] { return "for " + build::show(row) + " a copy of the edited engine gives\n" + b + "\n instead of\n" + a; });
            }
        }
    }
    c.nontrivial(finite > 0 && editor.reused > 0);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P43", {
        {"edited", edited, 20000, 600000, "a component was edited in place, and an output is finite"},
    });
}
