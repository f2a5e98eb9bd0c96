// P01: processing an engine yields what the fuzzy logic model defined by its configuration yields.
#include "build.h"
using namespace pbt;

static void run(Case& c, const model::GenOptions& o, bool fllRoute) {
    model::Engine e = model::genEngine(c.src, o);
    c.note([&] { return model::describe(e); });
    auto rows = build::genInputs(c.src, e, c.src.range(1, 5), true);
    EngineP engine;
    try {
        if (fllRoute) {
            for (auto& b : e.blocks)
                for (auto& r : b.rules)
                    r.enabled = true;
            engine.reset(fl::FllImporter().fromString(build::fll(e)));
        } else
            engine = build::engine(e);
    } catch (fl::Exception& x) {
        c.fail("rejected", std::string("a valid engine is rejected: ") + x.what());
    }
    std::string status;
    c.check(engine->isReady(&status), "not-ready", "a complete engine is reported as not ready: " + status);
    model::Machine m(e);
    bool fired = false, finite = false;
    for (auto& row : rows) {
        model::fragile = false;
        c.note([&] { return "inputs " + build::show(row); });
        for (size_t i = 0; i < row.size(); ++i)
            m.setInput(i, row[i]);
        m.process();
        bool skip = model::fragile;
        if (skip)
            c.label("step near a discontinuity, not compared");
        try {
            build::setInputs(*engine, row);
            engine->process();
        } catch (fl::Exception& x) {
            c.fail("exception", std::string("process raised ") + x.what());
        }
        std::vector<double> got = build::outputs(*engine), want;
        for (size_t i = 0; i < m.out.size(); ++i)
            want.push_back(m.out[i].value);
        c.note([&] { return "outputs " + build::show(got) + " reference " + build::show(want); });
        for (size_t b = 0; b < e.blocks.size() && !skip; ++b)
            for (size_t k = 0; k < e.blocks[b].rules.size(); ++k) {
                fl::Rule* r = engine->getRuleBlock(b)->getRule(k);
                if (!e.blocks[b].enabled)
                    continue;
                fired = fired || m.triggered[b][k];
                c.checkf(close(r->getActivationDegree(), m.degrees[b][k], 1e-7, 1e-7), "degree", [&] {
                    return "rule <" + e.blocks[b].rules[k].text + "> activated with " + str(r->getActivationDegree())
                           + ", reference " + str(m.degrees[b][k]);
                });
                c.checkf(r->isTriggered() == m.triggered[b][k], "triggered", [&] {
                    return "rule <" + e.blocks[b].rules[k].text + "> triggered: " + std::to_string(r->isTriggered())
                           + ", reference " + std::to_string(m.triggered[b][k]);
                });
            }
        for (size_t i = 0; i < got.size(); ++i) {
            const model::Variable& v = e.outputs[i];
            if (skip)
                break;
            finite = finite || std::isfinite(want[i]);
            c.label(v.defuzzifier);
            double scale = std::max(1.0, v.max - v.min);
            c.checkf(close(got[i], want[i], 1e-6, 1e-6 * scale), "value", [&] {
                return "output " + v.name + " = " + str(got[i]) + ", reference " + str(want[i]);
            });
            c.check(close(engine->getOutputValue(v.name), got[i], 0, 0), "by-name", "value by name differs");
        }
        // continue from what the engine really holds
        for (size_t i = 0; i < got.size(); ++i)
            m.out[i].value = got[i];
    }
    c.nontrivial(fired && finite);
    for (auto& b : e.blocks)
        c.label(b.activation.cls);
}

int main(int argc, char** argv) {
    model::GenOptions all;
    all.randomText = true;
    all.lockPrevious = false;
    model::GenOptions simple;
    simple.maxBlocks = 1;
    simple.activations = false;
    simple.disabled = false;
    simple.maxInputs = 2;
    simple.lockPrevious = false;
    std::string rule = "a rule fired and an output is finite";
    return pbt::main(argc, argv, "P01", {
        {"general", [&](Case& c) { run(c, all, false); }, 30000, 1500000, rule},
        {"simple", [&](Case& c) { run(c, simple, false); }, 15000, 500000, rule},
        {"fll", [&](Case& c) { run(c, all, true); }, 15000, 500000, rule},
    });
}
