// P28: processing is deterministic, without hidden history; restarting makes an engine as newly built.
#include "build.h"
#include <algorithm>
using namespace pbt;

typedef std::vector<double> Row;

static bool equal(const Row& a, const Row& b) {
    for (size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i]))
            return false;
    return a.size() == b.size();
}
static bool finite(const Row& a) {
    for (double x : a)
        if (std::isfinite(x))
            return true;
    return false;
}
// outputs, and what else a step leaves to see
struct Step {
    Row out;
    std::string fuzzy;
    std::vector<double> degrees;
};
static Step step(Case& c, fl::Engine& e, const Row& in) {
    Step r;
    try {
        build::setInputs(e, in);
        e.process();
    } catch (fl::Exception& x) {
        c.fail("exception", std::string("processing raised ") + x.what());
    }
    r.out = build::outputs(e);
    for (auto* o : e.outputVariables()) {
        r.fuzzy += o->getName() + ": ";
        for (auto& t : o->fuzzyOutput()->terms())
            r.fuzzy += t.getTerm()->getName() + "/" + str(t.getDegree()) + " ";
    }
    for (auto* b : e.ruleBlocks())
        if (b->isEnabled())
            for (auto* x : b->rules())
                r.degrees.push_back(x->isTriggered() ? x->getActivationDegree() : -1 - x->getActivationDegree());
    return r;
}
static std::string differ(const Step& a, const Step& b) {
    if (!equal(a.out, b.out))
        return build::show(a.out) + " vs " + build::show(b.out);
    if (a.fuzzy != b.fuzzy)
        return a.fuzzy + " vs " + b.fuzzy;
    if (!equal(a.degrees, b.degrees))
        return "degrees of rules " + build::show(a.degrees) + " vs " + build::show(b.degrees);
    return "";
}
static model::GenOptions options(Src& s, bool lockPrevious) {
    model::GenOptions o;
    o.maxInputs = 3;
    o.maxRules = 5;
    o.maxResolution = 30;
    o.lockPrevious = lockPrevious;
    o.hedgesAnywhere = true;
    return o;
}
static EngineP make(Src& s, const model::Engine& e, bool text) {
    (void)s;
    if (!text)
        return build::engine(e);
    return EngineP(fl::FllImporter().fromString(build::fll(e)));
}

// without locking, the outputs depend only on the current inputs
static void history(Case& c) {
    Src& s = c.src;
    model::Engine e = model::genEngine(s, options(s, false));
    bool text = s.coin();
    if (text)
        for (auto& b : e.blocks)
            for (auto& r : b.rules)
                r.enabled = true;
    c.note([&] { return model::describe(e); });
    EngineP engine = make(s, e, text);
    auto rows = build::genInputs(s, e, s.range(2, 5), true);
    std::vector<Step> alone;
    int useful = 0;
    for (auto& r : rows) {
        EngineP fresh = make(s, e, text);
        alone.push_back(step(c, *fresh, r));
        useful += finite(alone.back().out);
        Step again = step(c, *fresh, r);
        c.checkf(differ(alone.back(), again).empty(), "repeat", [&] { return "repeating " + build::show(r) + ": " + differ(alone.back(), again); });
    }
    std::string past;
    bool switched = false;
    for (int i = s.range(3, 12); i > 0; --i) {
        size_t k = s.u((uint32_t)rows.size());
        switch (s.u(12)) {
            case 0:  // values that are replaced before processing leave no trace
                build::setInputs(*engine, rows[s.u((uint32_t)rows.size())]);
                past += "(set other inputs) ";
                break;
            case 1:
                for (auto* o : engine->outputVariables())
                    o->clear();
                past += "(cleared outputs) ";
                break;
            case 2:
                engine->restart();
                past += "(restarted) ";
                break;
            case 3:  // looking does not matter
                engine->isReady();
                engine->type();
                engine->toString();
                for (auto* o : engine->outputVariables())
                    o->fuzzyOutputValue();
                break;
            case 4:
                for (auto* o : engine->outputVariables())
                    if (o->isEnabled())
                        o->setValue(s.num(-5, 5));
                past += "(set outputs) ";
                break;
            case 5:
                for (auto* b : engine->ruleBlocks())
                    for (auto* r : b->rules()) {
                        r->setActivationDegree(0.5);
                        r->setTriggered(true);
                    }
                past += "(set degrees) ";
                break;
            case 6: {  // switched off or on: as if it had been built so
                size_t j = s.u((uint32_t)e.outputs.size());
                e.outputs[j].enabled = !e.outputs[j].enabled;
                engine->getOutputVariable(j)->setEnabled(e.outputs[j].enabled);
                past += "(output " + e.outputs[j].name + (e.outputs[j].enabled ? " on) " : " off) ");
                switched = true;
                break;
            }
            case 7: {
                size_t j = s.u((uint32_t)e.inputs.size());
                e.inputs[j].enabled = !e.inputs[j].enabled;
                engine->getInputVariable(j)->setEnabled(e.inputs[j].enabled);
                past += "(input " + e.inputs[j].name + (e.inputs[j].enabled ? " on) " : " off) ");
                switched = true;
                break;
            }
            case 8: {
                size_t j = s.u((uint32_t)e.blocks.size());
                e.blocks[j].enabled = !e.blocks[j].enabled;
                engine->getRuleBlock(j)->setEnabled(e.blocks[j].enabled);
                past += "(block " + std::to_string(j) + (e.blocks[j].enabled ? " on) " : " off) ");
                switched = true;
                break;
            }
        }
        if (switched) {
            EngineP fresh = make(s, e, text);
            alone[k] = step(c, *fresh, rows[k]);
        }
        Step now = step(c, *engine, rows[k]);
        // values of disabled outputs are whatever they were
        Step a = alone[k];
        for (size_t j = 0; j < e.outputs.size(); ++j)
            if (!e.outputs[j].enabled)
                a.out[j] = now.out[j] = 0;
        c.checkf(differ(a, now).empty(), "history", [&] { return "after " + past + ", " + build::show(rows[k]) + " yields (new engine vs this): " + differ(a, now); });
        past += build::show(rows[k]) + " ";
    }
    c.label(std::to_string(e.blocks.size()) + " blocks");
    c.nontrivial(useful > 1);
}

// restarting makes an engine as newly built, with any locking
static void restart(Case& c) {
    Src& s = c.src;
    model::Engine e = model::genEngine(s, options(s, true));
    c.note([&] { return model::describe(e); });
    EngineP engine = build::engine(e);
    bool useful = false, moved = false;
    for (int i = s.range(1, 3); i > 0; --i) {
        auto before = build::genInputs(s, e, s.range(0, 3), true);
        bool ran = false;
        for (auto& r : before)
            ran = finite(step(c, *engine, r).out) || ran;
        // variables that are switched off restart as well
        for (auto& v : e.inputs)
            if (s.chance(1, 4))
                v.enabled = !v.enabled;
        for (auto& v : e.outputs)
            if (s.chance(1, 4))
                v.enabled = !v.enabled;
        for (size_t j = 0; j < e.inputs.size(); ++j)
            engine->getInputVariable(j)->setEnabled(e.inputs[j].enabled);
        for (size_t j = 0; j < e.outputs.size(); ++j)
            engine->getOutputVariable(j)->setEnabled(e.outputs[j].enabled);
        std::string text = engine->toString();
        engine->restart();
        c.check(engine->toString() == text, "configuration", "restarting changed the configuration");
        for (auto* v : engine->inputVariables())
            c.check(std::isnan(v->getValue()), "restart", "input " + v->getName() + " is " + str(v->getValue()));
        for (auto* v : engine->outputVariables()) {
            c.check(std::isnan(v->getValue()), "restart", "output " + v->getName() + " is " + str(v->getValue()));
            c.check(std::isnan(v->getPreviousValue()), "restart", "the previous value of " + v->getName() + " is " + str(v->getPreviousValue()));
            c.check(v->fuzzyOutput()->isEmpty(), "restart", "the fuzzy output of " + v->getName() + " is not empty");
        }
        EngineP fresh = build::engine(e);
        for (auto& r : build::genInputs(s, e, s.range(1, 4), true)) {
            Step a = step(c, *fresh, r), b = step(c, *engine, r);
            c.checkf(differ(a, b).empty(), "after-restart", [&] { return build::show(r) + " yields (new vs restarted): " + differ(a, b); });
            for (size_t j = 0; j < e.outputs.size(); ++j)
                c.checkf(same(fresh->getOutputVariable(j)->getPreviousValue(), engine->getOutputVariable(j)->getPreviousValue()), "after-restart", [&] { return "previous value after " + build::show(r); });
            useful = useful || finite(a.out);
        }
        moved = moved || ran;
    }
    c.nontrivial(useful && moved);
}

// the same history gives the same outputs, whatever else happens in between
static void twins(Case& c) {
    Src& s = c.src;
    model::Engine e = model::genEngine(s, options(s, true)), other = model::genEngine(s, options(s, true));
    c.note([&] { return model::describe(e); });
    EngineP a = build::engine(e), b = build::engine(e), x = build::engine(other);
    auto rows = build::genInputs(s, e, s.range(2, 8), true), others = build::genInputs(s, other, 8);
    std::vector<Step> first;
    for (auto& r : rows)
        first.push_back(step(c, *a, r));
    int useful = 0;
    for (size_t i = 0; i < rows.size(); ++i) {
        if (s.coin())
            step(c, *x, others[i]);
        if (s.chance(1, 4))
            EngineP(x->clone());
        if (s.chance(1, 6))
            EngineP(fl::FllImporter().fromString(build::fll(e)));
        Step n = step(c, *b, rows[i]);
        c.checkf(differ(first[i], n).empty(), "twins", [&] { return "step " + std::to_string(i) + ": " + differ(first[i], n); });
        useful += finite(n.out);
    }
    c.nontrivial(useful > 1);
}

int main(int argc, char** argv) {
    std::string rule = "at least two steps with finite outputs";
    return pbt::main(argc, argv, "P28", {
        {"history", history, 12000, 400000, rule},
        {"restart", restart, 10000, 400000, "finite outputs before and after a restart"},
        {"twins", twins, 8000, 300000, rule},
    });
}
