// P06: output values follow the documented default, lock and previous-value rules.
#include "build.h"
using namespace pbt;

struct Out {
    double value = model::NaN, previous = model::NaN, def = model::NaN, min = 0, max = 1;
    bool lockRange = false, lockPrevious = false, enabled = true;
    double bound(double x) const { return lockRange ? (x < min ? min : x > max ? max : x) : x; }
};

static void history(Case& c) {
    Src& s = c.src;
    fl::Engine e("e");
    int ni = s.range(1, 2), no = s.range(1, 3);
    std::vector<double> in(ni, model::NaN);
    std::vector<bool> inLock(ni);
    for (int i = 0; i < ni; ++i) {
        fl::InputVariable* v = new fl::InputVariable("i" + std::to_string(i), 0, 10);
        v->addTerm(new fl::Triangle("low", -3, 0, 3));
        v->addTerm(new fl::Triangle("high", 6, 9, 12));
        inLock[i] = s.chance(1, 5);
        v->setLockValueInRange(inLock[i]);
        e.addInputVariable(v);
    }
    std::vector<Out> out(no);
    for (int i = 0; i < no; ++i) {
        Out& o = out[i];
        o.min = s.oneOf(std::vector<double>{0, -1, 2});
        o.max = o.min + s.oneOf(std::vector<double>{1, 5, 10, 0});
        fl::OutputVariable* v = new fl::OutputVariable("o" + std::to_string(i), o.min, o.max);
        int kind = (int)s.u(4);
        double w = o.max - o.min;
        if (kind == 0) {
            v->addTerm(new fl::Triangle("low", o.min, o.min, o.min + w / 2));
            v->addTerm(new fl::Triangle("high", o.min + w / 2, o.max, o.max + w));
            v->setAggregation(new fl::Maximum);
            v->setDefuzzifier(build::defuzzifier([&] {
                model::Variable x;
                x.defuzzifier = s.oneOf(model::integralDefuzzifiers());
                x.resolution = 20;
                return x;
            }()));
        } else {
            v->addTerm(new fl::Constant("low", s.oneOf(std::vector<double>{-20, 1, 3, model::Inf})));
            v->addTerm(new fl::Constant("high", s.oneOf(std::vector<double>{4, 7, 50, -model::Inf, model::NaN})));
            v->setDefuzzifier(kind == 1 ? (fl::Defuzzifier*)new fl::WeightedSum : new fl::WeightedAverage);
        }
        e.addOutputVariable(v);
        c.note([&] { return v->toString(); });
    }
    fl::RuleBlock* b = new fl::RuleBlock("b");
    b->setImplication(new fl::Minimum);
    b->setConjunction(new fl::Minimum);
    b->setActivation(new fl::General);
    e.addRuleBlock(b);
    int nr = s.range(1, 4);
    for (int i = 0; i < nr; ++i) {
        std::string text = "if i" + std::to_string(s.u(ni)) + " is " + (s.coin() ? "high" : "low") + " then o" + std::to_string(s.u(no)) + " is " + (s.coin() ? "high" : "low");
        b->addRule(fl::Rule::parse(text, &e));
        c.note([&] { return text; });
    }
    bool hadValue = false, fellBack = false;
    auto compare = [&](const std::string& op) {
        for (int i = 0; i < no; ++i) {
            fl::OutputVariable* v = e.getOutputVariable(i);
            c.checkf(same(v->getValue(), out[i].value), "value", [&] { return "after " + op + ", value of " + v->getName() + " is " + str(v->getValue()) + " instead of " + str(out[i].value); });
            c.checkf(same(v->getPreviousValue(), out[i].previous), "previous", [&] { return "after " + op + ", previous value of " + v->getName() + " is " + str(v->getPreviousValue()) + " instead of " + str(out[i].previous); });
        }
    };
    auto step = [&](int i) {  // after defuzzification of output i
        Out& o = out[i];
        fl::OutputVariable* v = e.getOutputVariable(i);
        if (!o.enabled)
            return;
        double raw = v->getDefuzzifier()->defuzzify(v->fuzzyOutput(), o.min, o.max);
        double last = o.value, before = o.previous;
        double x = raw;
        if (std::isnan(x) && o.lockPrevious)
            x = last;
        if (std::isnan(x))
            x = o.def;
        x = o.bound(x);
        double y = raw;  // the listed finding
        if (std::isnan(y) && o.lockPrevious)
            y = before;
        if (std::isnan(y))
            y = o.def;
        y = o.bound(y);
        double got = v->getValue();
        if (std::isnan(raw) && hadValue)
            fellBack = true;
        if (!std::isnan(raw))
            hadValue = true;
        o.previous = last;
        o.value = x;
        if (!same(got, x) && std::isnan(raw) && o.lockPrevious && same(got, y)) {
            if (c.isKnown("lock-previous-lag"))
                o.value = got;
            else
                c.fail("lock-previous-lag", v->getName() + " locks its previous value and takes " + str(got) + " instead of its last value " + str(last));
        }
    };
    int steps = s.range(1, 14);
    for (int k = 0; k < steps; ++k) {
        int i = (int)s.u(no);
        fl::OutputVariable* v = e.getOutputVariable(i);
        Out& o = out[i];
        std::string op;
        switch (s.u(14)) {
            case 0: {
                o.def = s.oneOf(std::vector<double>{model::NaN, 0, 3.5, -100, 100, model::Inf});
                v->setDefaultValue(o.def);
                op = "default of " + v->getName() + " = " + str(o.def);
                c.check(same(v->getDefaultValue(), o.def), "default", "default value not kept");
                break;
            }
            case 1:
                o.lockPrevious = !o.lockPrevious;
                v->setLockPreviousValue(o.lockPrevious);
                op = "lock previous of " + v->getName() + " " + std::to_string(o.lockPrevious);
                c.check(v->isLockPreviousValue() == o.lockPrevious, "flag", "lock-previous flag not kept");
                break;
            case 2:
                o.lockRange = !o.lockRange;
                v->setLockValueInRange(o.lockRange);
                op = "lock range of " + v->getName() + " " + std::to_string(o.lockRange);
                c.check(v->isLockValueInRange() == o.lockRange, "flag", "lock-range flag not kept");
                break;
            case 3:
                o.enabled = !o.enabled;
                v->setEnabled(o.enabled);
                op = v->getName() + (o.enabled ? " enabled" : " disabled");
                break;
            case 4: {
                double x = s.oneOf(std::vector<double>{model::NaN, 0.25, 2.5, -50, 50, model::Inf, -model::Inf});
                v->setValue(x);
                o.value = o.bound(x);
                op = "value of " + v->getName() + " set to " + str(x);
                break;
            }
            case 5:
                if (!s.chance(1, 2))
                    break;
                v->clear();
                o.value = o.previous = model::NaN;
                op = v->getName() + " cleared";
                c.check(v->fuzzyOutput()->isEmpty(), "clear", "cleared variable has a fuzzy output");
                break;
            case 6:
                if (!s.chance(1, 2))
                    break;
                e.restart();
                for (auto& q : out)
                    q.value = q.previous = model::NaN;
                for (int q = 0; q < ni; ++q) {
                    in[q] = model::NaN;
                    c.check(std::isnan(e.getInputVariable(q)->getValue()), "restart", "restarting keeps an input value");
                }
                for (int q = 0; q < no; ++q)
                    c.check(e.getOutputVariable(q)->fuzzyOutput()->isEmpty(), "restart", "restarting keeps a fuzzy output");
                op = "restart";
                break;
            case 7: {  // direct defuzzification of what the variable holds
                int n = s.range(0, 2);
                v->fuzzyOutput()->clear();
                fl::Minimum min;
                for (int q = 0; q < n; ++q)
                    v->fuzzyOutput()->addTerm(v->getTerm(s.u(2)), s.oneOf(std::vector<double>{0, 0.5, 1}), &min);
                op = "defuzzify " + v->getName() + " with " + v->fuzzyOutput()->toString();
                v->defuzzify();
                step(i);
                v->fuzzyOutput()->clear();
                break;
            }
            case 8: {
                o.min = s.oneOf(std::vector<double>{0, -1, 2});
                o.max = o.min + s.oneOf(std::vector<double>{1, 5, 10});
                v->setRange(o.min, o.max);
                op = "range of " + v->getName();
                break;
            }
            default: {
                op = "process";
                for (int q = 0; q < ni; ++q) {
                    double x = s.oneOf(std::vector<double>{4.5, 0.0, 1.5, 9.0, 10.0, -1.0, 30.0, -30.0, model::NaN});
                    e.getInputVariable(q)->setValue(x);
                    double want = !inLock[q] ? x : x < 0 ? 0 : x > 10 ? 10 : x;
                    c.check(same(e.getInputVariable(q)->getValue(), want), "input", "value of an input variable is not the one set within its range");
                    op += " " + str(x);
                }
                e.process();
                for (int q = 0; q < no; ++q)
                    step(q);
            }
        }
        c.note([&] { return op; });
        compare(op);
    }
    c.nontrivial(fellBack);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P06", {
        {"history", history, 150000, 4000000, "a step without activation after one with a value"},
    });
}
