// P05: activation methods fire exactly the rules they document.
#include "build.h"
#include <algorithm>
using namespace pbt;

static void methods(Case& c, const std::vector<std::string>& classes) {
    Src& s = c.src;
    int n = s.range(1, 7);
    fl::Engine e("e");
    int no = s.range(1, 2);
    for (int i = 0; i < n; ++i) {
        fl::InputVariable* v = new fl::InputVariable("i" + std::to_string(i), 0, 1);
        v->addTerm(new fl::Ramp("t", 0, 1));
        e.addInputVariable(v);
    }
    for (int i = 0; i < no; ++i) {
        fl::OutputVariable* v = new fl::OutputVariable("o" + std::to_string(i), 0, 1);
        for (int k = 0; k < n; ++k)
            v->addTerm(new fl::Constant("k" + std::to_string(k), k));
        e.addOutputVariable(v);
    }
    model::Activation a;
    a.cls = s.oneOf(classes);
    a.n = s.range(0, n + 1);
    if (s.chance(1, 12))
        a.n = -1;
    static const std::vector<double> grid = {0, 0.125, 0.25, 0.5, 0.75, 0.875, 1};
    a.threshold = s.chance(1, 16) ? s.oneOf(std::vector<double>{-0.5, 1.5}) : s.coin() ? s.oneOf(grid) : s.num(0, 1);
    static const std::vector<std::string> cmps = {">=", "<", "<=", "==", "!=", ">"};
    a.comparison = s.oneOf(cmps);
    bool simple = a.cls == "General" || a.cls == "Threshold";
    std::unique_ptr<fl::RuleBlock> block(new fl::RuleBlock("b"));
    std::vector<double> weight(n, 1.0);
    std::vector<bool> enabled(n, true), loaded(n, true);
    std::vector<int> out(n, 0);
    std::vector<bool> both(n, false);  // a conclusion on each output
    for (int i = 0; i < n; ++i) {
        if (s.chance(1, 4))
            weight[i] = s.oneOf(std::vector<double>{0.5, 0.25, 0.0, 2.0, 0.9});
        enabled[i] = !s.chance(1, simple ? 6 : 12);
        loaded[i] = !s.chance(1, 10);
        out[i] = (int)s.u((uint32_t)no);
        both[i] = no == 2 && s.chance(1, 4);
        std::string text = "if i" + std::to_string(i) + " is t then o" + std::to_string(out[i]) + " is k" + std::to_string(i)
                           + (both[i] ? " and o" + std::to_string(1 - out[i]) + " is k" + std::to_string(i) : "") + " with " + model::num(weight[i]);
        fl::Rule* r;
        if (loaded[i])
            r = fl::Rule::parse(text, &e);
        else {
            r = new fl::Rule;
            r->setText(text);
        }
        r->setEnabled(enabled[i]);
        block->addRule(r);
        c.note([&] { return text + (enabled[i] ? "" : " DISABLED") + (loaded[i] ? "" : " NOT LOADED"); });
    }
    c.note([&] { return "activation " + a.cls + " n " + std::to_string(a.n) + " " + a.comparison + " " + str(a.threshold); });
    std::unique_ptr<fl::TNorm> impl(new fl::Minimum);
    block->setImplication(impl.get()->clone());
    fl::Activation* activation = build::activation(a);
    if (s.coin()) {  // through its text parameters
        std::unique_ptr<fl::Activation> x(fl::FactoryManager::instance()->activation()->constructObject(a.cls));
        x->configure(activation->parameters());
        if (a.cls == "General" || a.cls == "Highest" || a.cls == "Lowest" || a.cls == "Proportional"
            || std::round(a.threshold * 1000) == a.threshold * 1000) {
            delete activation;
            activation = x.release();
        }
    }
    block->setActivation(activation);
    bool nontrivial = false;
    int steps = s.range(1, 3);
    for (int k = 0; k < steps; ++k) {
        std::vector<double> d(n);
        for (int i = 0; i < n; ++i) {
            double x = s.chance(1, 3) ? 0.0 : s.coin() ? s.oneOf(grid) : std::round(s.unit() * 1e4) / 1e4;
            if (i > 0 && s.chance(1, 5))
                x = e.getInputVariable(i - 1)->getValue();
            if (s.chance(1, 8))  // differences well within the tolerance do not count
                x = s.coin() ? std::min(1.0, std::max(0.0, a.threshold)) : x;
            if (x > 0.01 && s.chance(1, 8))
                x += s.coin() ? 1e-10 : -1e-10;
            if (s.chance(1, 24))
                x = NAN;
            e.getInputVariable(i)->setValue(x);
            d[i] = weight[i] * x;
        }
        c.note([&] { return "degrees " + build::show(d); });
        for (int i = 0; i < no; ++i)
            e.getOutputVariable(i)->fuzzyOutput()->clear();
        model::fragile = false;
        // what must happen
        std::vector<int> order;     // rules fired, in order
        std::vector<double> degree; // activation degrees after
        // it is not documented whether the disabled rules take part in the selection, but they do not fire
        auto decide = [&](bool takePart) {
        order.clear();
        degree = d;
        auto positive = [&](int i) { return loaded[i] && (takePart || enabled[i]) && model::gt(d[i], 0); };
        if (a.cls == "General") {
            for (int i = 0; i < n; ++i)
                if (positive(i) && enabled[i])
                    order.push_back(i);
        } else if (a.cls == "Threshold") {
            for (int i = 0; i < n; ++i) {
                if (!positive(i) || !enabled[i])
                    continue;
                int r = model::cmp(d[i], a.threshold);
                const std::string& q = a.comparison;
                if (q == "<" ? r < 0 : q == "<=" ? r <= 0 : q == "==" ? r == 0 : q == "!=" ? r != 0 : q == ">=" ? r >= 0 : r > 0)
                    order.push_back(i);
            }
        } else if (a.cls == "First" || a.cls == "Last") {
            for (int q = 0; q < n; ++q) {
                int i = a.cls == "First" ? q : n - 1 - q;
                if (positive(i) && model::ge(d[i], a.threshold) && (int)order.size() < a.n)
                    order.push_back(i);
            }
        } else if (a.cls == "Proportional") {
            double sum = 0;
            for (int i = 0; i < n; ++i)
                sum += loaded[i] && (takePart || enabled[i]) ? d[i] : 0;
            for (int i = 0; i < n; ++i) {
                degree[i] = sum > 0 ? d[i] / sum : 0;
                if (positive(i) && model::gt(degree[i], 0))
                    order.push_back(i);
            }
        } else {
            std::vector<int> idx;
            for (int i = 0; i < n; ++i)
                if (positive(i))
                    idx.push_back(i);
            bool high = a.cls == "Highest";
            std::stable_sort(idx.begin(), idx.end(), [&](int x, int y) { return high ? d[x] > d[y] : d[x] < d[y]; });
            idx.resize(std::min(idx.size(), (size_t)std::max(0, a.n)));
            order = idx;
        }
        std::vector<int> all(order);
        order.clear();
        for (int i : all)
            if (enabled[i])
                order.push_back(i);
        };
        decide(true);
        auto unloaded = [&] {
            for (int i = 0; i < n; ++i)
                if (!loaded[i])
                    degree[i] = 0;
        };
        unloaded();
        try {
            block->activate();
        } catch (fl::Exception& x) {
            c.fail("exception", std::string("activate raised ") + x.what());
        }
        if (model::fragile) {
            c.label("near a tolerance");
            continue;
        }
        bool apart = !simple && std::count(enabled.begin(), enabled.end(), false);
        if (apart && (a.cls == "Highest" || a.cls == "Lowest")) {
            bool tied = false;
            for (int i = 0; i < n; ++i)
                for (int k = 0; k < n; ++k)
                    tied = tied || (!enabled[i] && enabled[k] && std::fabs(d[i] - d[k]) < 1e-9);
            if (tied) {  // either of them may be selected
                int triggered = 0;
                for (int i = 0; i < n; ++i)
                    if (block->getRule(i)->isTriggered()) {
                        ++triggered;
                        c.check(enabled[i], "disabled", "rule " + std::to_string(i) + " is disabled and fired");
                    }
                c.check(triggered <= std::max(0, a.n), "fired", "fired more rules than the number given");
                c.label("ties with a disabled rule");
                continue;
            }
        }
        if (apart) {
            // the reading that agrees with the rules that fired and with their degrees
            auto agrees = [&] {
                size_t triggered = 0;
                for (int i = 0; i < n; ++i)
                    if (block->getRule(i)->isTriggered()) {
                        ++triggered;
                        if (!close(block->getRule(i)->getActivationDegree(), degree[i], 1e-9, 1e-9))
                            return false;
                    }
                return triggered == order.size();
            };
            if (!agrees()) {
                decide(false);
                unloaded();
                if (!agrees()) {
                    decide(true);
                    unloaded();
                }
            }
            if (model::fragile) {
                c.label("near a tolerance");
                continue;
            }
        }
        bool ties = a.cls == "Highest" || a.cls == "Lowest";
        std::vector<int> fired;
        for (int i = 0; i < n; ++i) {
            fl::Rule* r = block->getRule(i);
            if (r->isTriggered())
                fired.push_back(i);
            c.check(enabled[i] || !r->isTriggered(), "disabled", "rule " + std::to_string(i) + " is disabled and fired");
            c.checkf((apart && !enabled[i]) || close(r->getActivationDegree(), degree[i], 1e-9, 1e-9), "degree",
                [&] { return "rule " + std::to_string(i) + " has degree " + str(r->getActivationDegree()) + " instead of " + str(degree[i]); });
        }
        auto show = [](const std::vector<int>& v) {
            std::string r;
            for (int i : v)
                r += std::to_string(i) + " ";
            return r;
        };
        c.checkf(fired.size() == order.size(), "fired", [&] { return "fired " + show(fired) + " instead of " + show(order); });
        std::vector<int> sorted(order);
        std::sort(sorted.begin(), sorted.end());
        if (!ties)
            c.checkf(fired == sorted, "fired", [&] { return "fired " + show(fired) + " instead of " + show(sorted); });
        else {
            // the multiset of degrees is determined even with ties
            std::vector<double> x, y;
            for (int i : fired)
                x.push_back(d[i]);
            for (int i : order)
                y.push_back(d[i]);
            std::sort(x.begin(), x.end());
            std::sort(y.begin(), y.end());
            for (size_t i = 0; i < x.size(); ++i)
                c.checkf(close(x[i], y[i], 1e-9, 1e-9), "fired", [&] { return "fired " + show(fired) + " instead of e.g. " + show(order); });
        }
        // contributions
        for (int o = 0; o < no; ++o) {
            std::vector<int> expect;
            for (int i : order)
                if (out[i] == o || both[i])
                    expect.push_back(i);
            const auto& terms = e.getOutputVariable(o)->fuzzyOutput()->terms();
            std::vector<int> got;
            for (auto& t : terms) {
                int i = atoi(t.getTerm()->getName().c_str() + 1);
                got.push_back(i);
                c.checkf(close(t.getDegree(), degree[i], 1e-9, 1e-9), "activated-degree",
                    [&] { return "rule " + std::to_string(i) + " contributed with " + str(t.getDegree()) + " instead of " + str(degree[i]); });
                c.check(t.getImplication() == block->getImplication(), "implication", "another implication");
            }
            std::vector<int> mine;
            for (int i : fired)
                if (out[i] == o || both[i])
                    mine.push_back(i);
            std::vector<int> g(got);
            std::sort(g.begin(), g.end());
            c.checkf(g == mine, "contribution", [&] { return "activations of rules " + show(got) + " but fired " + show(mine); });
            if (!ties)
                c.checkf(got == expect, "order", [&] { return "activations in order " + show(got) + " instead of " + show(expect); });
            else
                for (size_t i = 1; i < got.size(); ++i)
                    c.checkf(a.cls == "Highest" ? d[got[i - 1]] >= d[got[i]] - 1e-9 : d[got[i - 1]] <= d[got[i]] + 1e-9, "order",
                        [&] { return "activations in order " + show(got); });
        }
        int pos = 0;
        for (int i = 0; i < n; ++i)
            pos += loaded[i] && d[i] > 1e-5;
        nontrivial = nontrivial || (a.cls == "Proportional" ? fired.size() > 1 : !fired.empty() && ((int)fired.size() < pos || a.cls == "General"));
    }
    c.label(a.cls);
    c.nontrivial(nontrivial);
}

int main(int argc, char** argv) {
    std::string rule = "a rule fired and another with positive degree did not (General: a rule fired; Proportional: two rules fired)";
    return pbt::main(argc, argv, "P05", {
        {"selective", [](Case& c) { methods(c, {"First", "Last", "Threshold"}); }, 60000, 1500000, rule},
        {"ranked", [](Case& c) { methods(c, {"Highest", "Lowest"}); }, 40000, 1500000, rule},
        {"all", [](Case& c) { methods(c, {"General", "Proportional"}); }, 30000, 1000000, rule},
    });
}
