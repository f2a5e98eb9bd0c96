// P34: engines in different threads do not interfere.
// Every case runs in a process of its own, so that whatever the library initialises lazily is raced for. The threads
// run first, and the same programs one after another afterwards.
#include "build.h"

#include <atomic>
#include <csignal>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

struct Operation {
    int what, a, b;
};
struct Program {
    size_t spec;
    std::vector<Operation> operations;
    std::vector<std::vector<double>> rows;
};
struct Work {
    std::vector<model::Engine> specs;
    std::vector<std::string> texts;
    std::vector<Program> programs;
    bool handOver = false;  // the first engine of each thread is a copy made by the main thread
};

static std::string number(double x) { return std::isnan(x) ? "nan" : strf("%.17g", x); }
static const char* const FORMULAS[] = {"1+2*3^2", "sin(x)+cos(y)/max(x,y)", "x and y or not_defined", "pow(x,2)-~y%3", "min(abs(x),exp(y))", "round(x*10)/10 ge y", "gt(x,y)+fmod(x,y)", "sqrt(", "x y"};

static const int OPERATIONS = 26;
static const char* const NAMES[OPERATIONS] = {"build", "import fll", "process", "copy", "assign", "export fll", "fcl", "fis", "code", "fld", "R", "ready", "restart", "benchmark",
                                              "formula", "example", "text", "damaged text", "fuzzify", "factories", "copy registry", "rule", "exception", "move away", "discretize", "edit"};

static void perform(const Operation& o, const Program& p, const Work& w, EngineP& engine, std::string& out) {
    auto rowsOf = [&](fl::Engine& e) {
        for (auto& r : p.rows) {
            build::setInputs(e, r);
            try {
                e.process();
                for (double y : build::outputs(e))
                    out += number(y) + " ";
                for (auto v : e.outputVariables())
                    out += v->fuzzyOutputValue() + "; ";
            } catch (fl::Exception& x) {
                out += x.getWhat();
            }
        }
    };
    const std::string& text = w.texts[p.spec];
    switch (o.what) {
        case 0: engine = build::engine(w.specs[p.spec]); break;
        case 1: engine.reset(fl::FllImporter().fromString(text)); break;
        case 2: rowsOf(*engine); break;
        case 3: {
            EngineP copy(engine->clone());
            rowsOf(*copy);
            if (o.a % 2)
                engine = std::move(copy);
            break;
        }
        case 4: {
            fl::Engine other;
            other = *engine;
            out += other.toString();
            break;
        }
        case 5: out += fl::FllExporter().toString(engine.get()); break;
        case 6: {
            std::string t = fl::FclExporter().toString(engine.get());
            out += t;
            EngineP e(fl::FclImporter().fromString(t));
            rowsOf(*e);
            break;
        }
        case 7: {
            std::string t = fl::FisExporter().toString(engine.get());
            out += t;
            EngineP e(fl::FisImporter().fromString(t));
            rowsOf(*e);
            break;
        }
        case 8: out += o.a % 2 ? fl::CppExporter(o.b % 2).toString(engine.get()) : fl::JavaExporter(o.b % 2).toString(engine.get()); break;
        case 9: out += fl::FldExporter("\t").toString(engine.get(), 2 + o.a % 20, o.b % 2 ? fl::FldExporter::AllVariables : fl::FldExporter::EachVariable); break;
        case 10: out += fl::RScriptExporter().toString(engine.get(), engine->getInputVariable(0), engine->getInputVariable(engine->numberOfInputVariables() - 1), 4 + o.a, fl::FldExporter::AllVariables, engine->outputVariables()); break;
        case 11: {
            std::string status, name, reason;
            out += engine->isReady(&status) ? "ready" : status;
            out += strf("%d", (int)engine->type(&name, &reason)) + name + reason;
            break;
        }
        case 12: engine->restart(); break;
        case 13: {
            std::ostringstream data;
            fl::FldExporter().write(engine.get(), data, 3 + o.a % 5, fl::FldExporter::EachVariable);
            fl::Benchmark b("b", engine.get());
            std::istringstream in(data.str());
            b.prepare(in);
            b.run(1 + o.b % 2);
            out += strf("%d ", b.allErrors()) + number(b.meanSquaredError());
            break;
        }
        case 14: {
            fl::Function f("f", FORMULAS[o.a % 9], engine.get());
            f.load();
            f.variables["x"] = o.b * 0.25;
            f.variables["y"] = 0.5 - o.b;
            out += number(f.evaluate(&f.variables)) + f.root()->toPostfix() + f.toPostfix(f.getFormula());
            break;
        }
        case 15: {
            EngineP e(o.a % 3 == 0 ? fl::Console::mamdani() : o.a % 3 == 1 ? fl::Console::takagiSugeno() : fl::Console::hybrid());
            std::vector<double> x(e->numberOfInputVariables(), 0.3 * o.b);
            build::setInputs(*e, x);
            e->process();
            for (double y : build::outputs(*e))
                out += number(y) + " ";
            break;
        }
        case 16:
            out += fl::Op::join(fl::Op::split(text, "\n"), "|") + fl::Op::validName(text.substr(0, o.a)) + fl::Op::trim(text.substr(o.b)) + fl::Op::replaceAll(text, "e", "ee");
            out += fl::Op::str(o.a / 7.0) + number(fl::Op::toScalar(strf("%d.5", o.b))) + fl::Op::str(1.0 / (1 + o.b), 5) + (fl::Op::isNumeric("a") ? "?" : "");
            break;
        case 17: {
            size_t at = o.a * text.size() / 40;
            EngineP e(fl::FllImporter().fromString(text.substr(0, at) + (o.b % 2 ? "x" : "\n") + text.substr(at)));
            out += e->toString();
            break;
        }
        case 18:
            for (auto v : engine->variables()) {
                double x = v->getMinimum() + v->range() * o.a / 40;
                double y = 0;
                fl::Term* t = v->highestMembership(x, &y);
                out += v->fuzzify(x) + (t ? t->getName() : "") + number(y) + v->toString();
            }
            break;
        case 19: {
            fl::FactoryManager* m = fl::FactoryManager::instance();
            for (auto& n : m->term()->available())
                if (!n.empty()) {
                    std::unique_ptr<fl::Term> t(m->term()->constructObject(n));
                    out += t->className() + t->parameters();
                }
            for (auto& n : m->hedge()->available())
                if (!n.empty()) {
                    std::unique_ptr<fl::Hedge> t(m->hedge()->constructObject(n));
                    out += t->name() + number(t->hedge(o.a / 40.0));
                }
            for (auto& n : m->tnorm()->available())
                if (!n.empty()) {
                    std::unique_ptr<fl::TNorm> t(m->tnorm()->constructObject(n));
                    out += number(t->compute(o.a / 40.0, o.b / 40.0));
                }
            for (auto& n : m->snorm()->available())
                if (!n.empty()) {
                    std::unique_ptr<fl::SNorm> t(m->snorm()->constructObject(n));
                    out += number(t->compute(o.a / 40.0, o.b / 40.0));
                }
            for (auto& n : m->activation()->available())
                if (!n.empty()) {
                    std::unique_ptr<fl::Activation> t(m->activation()->constructObject(n));
                    out += t->className();
                }
            std::unique_ptr<fl::Defuzzifier> d(m->defuzzifier()->constructDefuzzifier("Centroid", o.a, fl::WeightedDefuzzifier::Automatic));
            out += d->className();
            for (auto& n : m->function()->available()) {
                std::unique_ptr<fl::Function::Element> e(m->function()->cloneObject(n));
                out += e->name + strf("%d", e->precedence);
            }
            break;
        }
        case 20: {
            std::unique_ptr<fl::FactoryManager> m(fl::FactoryManager::instance()->clone());
            out += fl::Op::join(m->term()->available(), " ") + fl::Op::join(m->function()->available(), " ");
            break;
        }
        case 21:
            for (auto b : engine->ruleBlocks())
                for (auto r : b->rules()) {
                    std::unique_ptr<fl::Rule> copy(r->clone());
                    copy->load(engine.get());
                    out += copy->toString() + copy->getAntecedent()->toPostfix() + number(copy->activateWith(b->getConjunction(), b->getDisjunction()));
                    std::unique_ptr<fl::Rule> parsed(fl::Rule::parse(r->getText(), engine.get()));
                    out += parsed->getText();
                }
            break;
        case 22:
            try {
                engine->getInputVariable("no such variable");
            } catch (std::exception& x) {
                out += "caught";
            }
            throw fl::Exception("a message", FL_AT);
        case 23: {
            std::unique_ptr<fl::Engine> other(new fl::Engine(std::move(*engine)));
            engine.reset(other.release());
            break;
        }
        case 24:
            for (auto v : engine->variables())
                for (auto t : v->terms()) {
                    std::unique_ptr<fl::Discrete> d(fl::Discrete::discretize(t, v->getMinimum(), v->getMaximum(), 3 + o.a % 10));
                    out += d->parameters() + number(d->membership(v->getMinimum() + o.b * v->range() / 40));
                    if (t->isMonotonic())
                        out += number(t->tsukamoto(o.b / 40.0));
                }
            break;
        default:
            if (engine->numberOfOutputVariables()) {
                fl::OutputVariable* v = engine->getOutputVariable(0);
                v->setDefaultValue(o.a);
                v->setLockPreviousValue(o.b % 2);
                engine->configure("Minimum", "Maximum", "Minimum", "Maximum", "Centroid", "General");
                for (auto x : engine->outputVariables())
                    if (auto d = dynamic_cast<fl::IntegralDefuzzifier*>(x->getDefuzzifier()))
                        d->setResolution(1 + o.a);
            }
    }
}

static std::string transcript(const Program& p, const Work& w, fl::Engine* given) {
    std::string out;
    EngineP engine(given);
    try {
        if (!engine)
            engine = build::engine(w.specs[p.spec]);
    } catch (fl::Exception& x) {
        return x.getWhat();
    }
    for (auto& o : p.operations) {
        out += std::string("\n") + NAMES[o.what] + ": ";
        try {
            perform(o, p, w, engine, out);
        } catch (fl::Exception& x) {
            out += "failed " + x.getWhat();
        } catch (std::exception& x) {
            out += std::string("raised ") + x.what();
        }
    }
    return out;
}

struct Thread {
    const Program* program;
    const Work* work;
    fl::Engine* given;
    std::atomic<int>* waiting;
    std::string result;
};
static void* runThread(void* argument) {
    Thread* t = (Thread*)argument;
    t->waiting->fetch_sub(1, std::memory_order_relaxed);
    while (t->waiting->load(std::memory_order_relaxed) > 0)
        sched_yield();
    t->result = transcript(*t->program, *t->work, t->given);
    return nullptr;
}

// In the child: 0 when all is well, 10 when a transcript differs (its description goes to the pipe)
static int concurrently(const Work& w, int fd) {
    fl::FactoryManager::instance();
    EngineP original;
    std::vector<Thread> threads;
    std::atomic<int> waiting((int)w.programs.size());
    if (w.handOver)
        try {
            original = build::engine(w.specs[0]);
        } catch (fl::Exception&) {
        }
    for (auto& p : w.programs)
        threads.push_back(Thread{&p, &w, original && p.spec == 0 ? original->clone() : nullptr, &waiting, ""});
    std::vector<pthread_t> ids(threads.size());
    for (size_t i = 0; i < threads.size(); ++i)
        if (pthread_create(&ids[i], nullptr, runThread, &threads[i]))
            _exit(11);
    for (auto id : ids)
        pthread_join(id, nullptr);
    for (size_t i = 0; i < threads.size(); ++i) {
        std::string alone = transcript(w.programs[i], w, original && w.programs[i].spec == 0 ? original->clone() : nullptr);
        if (alone != threads[i].result) {
            std::istringstream a(alone), b(threads[i].result);
            std::string x, y;
            do {
                x = y = "(nothing)";
                std::getline(a, x);
                std::getline(b, y);
            } while (x == y && (a || b));
            std::string m = strf("thread %zu yields\n", i) + y.substr(0, 1500) + "\ninstead of what it yields alone\n" + x.substr(0, 1500);
            if (write(fd, m.data(), m.size())) {}
            return 10;
        }
    }
    return 0;
}

static void judge(Case& c, const Work& w) {
    int out[2];
    if (pipe(out))
        throw std::runtime_error("pipe");
    std::cout.flush();
    pid_t child = fork();
    if (child < 0)
        throw std::runtime_error("fork");
    if (child == 0) {
        close(out[0]);
        dup2(out[1], 2);
        signal(SIGALRM, SIG_DFL);
        signal(SIGPIPE, SIG_IGN);
        alarm(120);
        _exit(concurrently(w, out[1]));
    }
    close(out[1]);
    std::string message;
    char buffer[4096];
    for (ssize_t n; (n = read(out[0], buffer, sizeof buffer)) > 0;)
        if (message.size() < 20000)
            message.append(buffer, n);
    close(out[0]);
    int status = 0;
    while (waitpid(child, &status, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(status))
        c.fail(WTERMSIG(status) == SIGALRM ? "stuck" : "crash", strf("signal %d\n", WTERMSIG(status)) + message);
    int code = WEXITSTATUS(status);
    if (code == 11)
        c.discard();
    c.check(code != 10, "differs", message);
    c.check(code == 0, message.find("data race") != std::string::npos ? "data-race" : "report", strf("exit code %d\n", code) + message);
}

static model::GenOptions options() {
    model::GenOptions o;
    o.maxInputs = 2;
    o.maxResolution = 10;
    o.maxRules = 3;
    o.maxTerms = 3;
    o.hedgesAnywhere = true;
    return o;
}

static void programs(Case& c) {
    Src& s = c.src;
    Work w;
    int specs = s.chance(1, 2) ? 1 : 2, threads = s.range(2, 4);
    for (int i = 0; i < specs; ++i) {
        w.specs.push_back(model::genEngine(s, options()));
        w.texts.push_back(build::fll(w.specs.back()));
    }
    w.handOver = s.chance(1, 3);
    bool same = s.chance(1, 2);  // all threads do the same
    bool processed = false;
    for (int t = 0; t < threads; ++t) {
        if (same && t) {
            w.programs.push_back(w.programs[0]);
            continue;
        }
        Program p;
        p.spec = s.u(specs);
        p.rows = build::genInputs(s, w.specs[p.spec], s.range(1, 3), true);
        for (int k = s.range(1, 8); k > 0; --k)
            p.operations.push_back(Operation{(int)s.u(OPERATIONS), (int)s.u(40), (int)s.u(40)});
        p.operations.push_back(Operation{2, 0, 0});
        w.programs.push_back(p);
    }
    for (auto& p : w.programs)
        for (auto& b : w.specs[p.spec].blocks)
            processed = processed || !b.rules.empty();
    c.note([&] {
        std::string t;
        for (auto& x : w.texts)
            t += x + "\n";
        for (auto& p : w.programs) {
            t += strf("thread on engine %zu:", p.spec);
            for (auto& o : p.operations)
                t += std::string(" ") + NAMES[o.what] + strf("(%d,%d)", o.a, o.b);
            t += "\n";
        }
        return t + (w.handOver ? "the threads begin with copies of engine 0 made by the main thread\n" : "");
    });
    judge(c, w);
    for (auto& p : w.programs)
        for (auto& o : p.operations)
            c.label(NAMES[o.what]);
    c.nontrivial(processed);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P34", {{"programs", programs, 5000, 100000, "at least two threads processed engines with rules"}});
}
