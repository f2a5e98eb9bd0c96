// P35: the command line converts files like the library does.
#include "build.h"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
extern "C" int fuzzylite_command_line(int argc, const char* argv[]);  // main of src/main.cpp
using namespace pbt;

typedef std::vector<std::string> Strings;

// A scratch folder with known files
struct Folder {
    std::string path;
    std::map<std::string, std::string> files;
    Folder() {
        const char* t = getenv("TMPDIR");
        std::string name = std::string(t && *t ? t : "/tmp") + "/p35XXXXXX";
        char* p = mkdtemp(&name[0]);
        if (!p)
            throw std::runtime_error("no scratch folder");
        path = name;
    }
    ~Folder() {
        for (auto& f : read())
            unlink((path + "/" + f.first).c_str());
        rmdir(path.c_str());
    }
    std::string operator()(const std::string& name) const { return path + "/" + name; }
    void write(const std::string& name, const std::string& text) {
        std::ofstream((*this)(name), std::ios::binary) << text;
        files[name] = text;
    }
    std::map<std::string, std::string> read() const {
        std::map<std::string, std::string> r;
        DIR* d = opendir(path.c_str());
        for (dirent* e = d ? readdir(d) : nullptr; e; e = readdir(d)) {
            std::string n = e->d_name;
            std::ifstream f((*this)(n), std::ios::binary);
            if (n != "." && n != ".." && f.is_open()) {
                std::stringstream t;
                t << f.rdbuf();
                r[n] = t.str();
            }
        }
        if (d)
            closedir(d);
        return r;
    }
};

struct Outcome {
    int status = 0;
    std::string printed;
};
// Runs the command line of the program, with its standard streams redirected
static Outcome run(const Strings& arguments, bool throughMain, const std::string& keys = "") {
    std::vector<const char*> argv = {"fuzzylite"};
    for (auto& a : arguments)
        argv.push_back(a.c_str());
    Outcome r;
    std::ostringstream out;
    std::streambuf* was = std::cout.rdbuf(out.rdbuf());
    static const int signals[] = {SIGSEGV, SIGABRT, SIGILL, SIGFPE, SIGBUS, SIGPIPE};
    struct sigaction old[6];
    for (int i = 0; i < 6; ++i)
        sigaction(signals[i], nullptr, &old[i]);
    auto terminate = std::get_terminate();
    static bool unbuffered = false;
    if (!unbuffered)
        setvbuf(stdin, nullptr, _IONBF, 0);
    unbuffered = true;
    int saved = dup(0), fd = open(keys.empty() ? "/dev/null" : keys.c_str(), O_RDONLY);
    if (fd >= 0) {
        dup2(fd, 0);
        close(fd);
    }
    clearerr(stdin);
    try {
        r.status = throughMain ? fuzzylite_command_line((int)argv.size(), argv.data()) : fl::Console::main((int)argv.size(), argv.data());
    } catch (std::exception& e) {
        r.status = -1;
        out << "exception " << e.what();
    }
    if (saved >= 0) {
        dup2(saved, 0);
        close(saved);
    }
    clearerr(stdin);
    std::set_terminate(terminate);
    for (int i = 0; i < 6; ++i)
        sigaction(signals[i], &old[i], nullptr);
    std::cout.rdbuf(was);
    fl::fuzzylite::setDecimals(3);
    fl::fuzzylite::setLogging(false);
    r.printed = out.str();
    return r;
}

static model::GenOptions options() {
    model::GenOptions o;
    o.maxInputs = 2;
    o.maxResolution = 10;
    o.maxRules = 3;
    o.maxTerms = 3;
    o.hedgesAnywhere = true;
    return o;
}
static std::unique_ptr<fl::Importer> importer(const std::string& format) {
    return std::unique_ptr<fl::Importer>(format == "fll"   ? (fl::Importer*)new fl::FllImporter
                                         : format == "fcl" ? (fl::Importer*)new fl::FclImporter
                                         : format == "fis" ? (fl::Importer*)new fl::FisImporter
                                                           : nullptr);
}
static std::unique_ptr<fl::Exporter> exporter(const std::string& format) {
    return std::unique_ptr<fl::Exporter>(format == "fll"    ? (fl::Exporter*)new fl::FllExporter
                                         : format == "fcl"  ? (fl::Exporter*)new fl::FclExporter
                                         : format == "fis"  ? (fl::Exporter*)new fl::FisExporter
                                         : format == "cpp"  ? (fl::Exporter*)new fl::CppExporter
                                         : format == "java" ? (fl::Exporter*)new fl::JavaExporter
                                                            : nullptr);
}
static std::string join(const Strings& v) {
    std::string r;
    for (auto& t : v)
        r += (r.empty() ? "" : " ") + t;
    return r;
}
static std::string head(const std::string& t) { return t.size() > 1500 ? t.substr(0, 1500) + "..." : t; }

static void conversion(Case& c) {
    Src& s = c.src;
    Folder folder;
    static const Strings inputs = {"fll", "fll", "fcl", "fis"}, outputs = {"fll", "fcl", "fis", "cpp", "java", "fld", "fld"};
    bool example = s.chance(1, 8), shorthand = false;
    std::string in = s.oneOf(inputs), out = s.oneOf(outputs);
    model::Engine spec = model::genEngine(s, options());
    int decimals = s.chance(1, 3) ? s.range(0, s.chance(1, 4) ? 14 : 9) : -1;
    // the content
    std::string content;
    try {
        if (in == "fll")
            content = build::fll(spec);
        else
            content = exporter(in)->toString(build::engine(spec).get());
    } catch (fl::Exception&) {
        c.discard();
    }
    if (s.chance(1, 8)) {  // damaged
        size_t at = s.u((uint32_t)content.size() + 1);
        content = content.substr(0, at) + s.oneOf<std::string>({"x", "\n", "term", ":", " "}) + content.substr(at + s.u(4) > content.size() ? content.size() : at);
    }
    // the options
    Strings arguments;
    std::string inputName = s.oneOf<std::string>({"in." + in, "in." + in, "in.txt", "input"}), inputFormat = in;
    std::string outputName = s.oneOf<std::string>({"out." + out, "out." + out, "out.txt", "output"}), outputFormat = out;
    // the format is the last extension
    if (s.chance(1, 6))
        inputName = "in.v1." + in;
    if (s.chance(1, 6))
        outputName = s.chance(1, 4) ? "out.fis.txt" : "out.v1." + out;
    auto named = [](const std::string& name, const std::string& format) { return name.size() > format.size() && name.compare(name.size() - format.size() - 1, std::string::npos, "." + format) == 0; };
    if (example)
        inputName = "in.fll";
    else
        folder.write(inputName, content);
    bool toScreen = s.chance(1, 8), existing = s.coin();
    std::string data;
    bool useData = false, useValues = false, header = true, inputValues = true, badScope = false, badData = false;
    int values = 0;
    auto scope = fl::FldExporter::EachVariable;
    std::string expectedError;
    std::vector<Strings> pairs;
    std::string exampleName;
    shorthand = !example && !toScreen && named(inputName, in) && named(outputName, out) && out != "fld" && decimals < 0 && s.coin();
    if (example) {
        exampleName = s.oneOf<std::string>({"m", "mamdani", "t", "ts", "takagi-sugeno", "x", "", "M"});
        pairs.push_back({"-example", exampleName});
    } else if (!s.chance(1, 25)) {
        std::string name = inputName;
        if (s.chance(1, 20)) {
            name = "second.fll";
            expectedError = "missing input file";
        }
        pairs.push_back({"-i", folder(name)});
    } else
        expectedError = "no input file";
    if (!example && (!named(inputName, in) || s.chance(1, 4))) {
        if (s.chance(1, 12) && !named(inputName, in))
            expectedError = "no input format";
        else if (s.chance(1, 16)) {
            pairs.push_back({"-if", s.oneOf<std::string>({"FLL", "cpp", "", "txt"})});
            expectedError = "unknown input format";
        } else
            pairs.push_back({"-if", in});
    }
    if (!toScreen)
        pairs.push_back({"-o", folder(outputName)});
    if (toScreen || !named(outputName, out) || s.chance(1, 4)) {
        if (s.chance(1, 12) && (toScreen || !named(outputName, out)))
            expectedError = "no output format";
        else if (s.chance(1, 16)) {
            pairs.push_back({"-of", s.oneOf<std::string>({"R", "", "CPP", "fll "})});
            expectedError = "unknown output format";
        } else
            pairs.push_back({"-of", out});
    }
    if (decimals >= 0)
        pairs.push_back({"-decimals", std::to_string(decimals)});
    else if (s.chance(1, 30)) {
        pairs.push_back({"-decimals", "many"});
        expectedError = "decimals";
    }
    if (out == "fld" || s.chance(1, 10)) {
        useData = s.coin();
        useValues = !useData || s.chance(1, 4);
        if (useData) {
            int rows = s.range(0, 4);
            size_t width = example ? 1 : spec.inputs.size();
            if (s.coin())
                data += "a b\n";
            for (int i = 0; i < rows; ++i) {
                for (size_t k = 0; k < width; ++k)
                    data += (k ? " " : "") + (s.chance(1, 8) ? "nan" : strf("%.3f", s.num(-1, 2)));
                data += "\n";
                if (s.chance(1, 4))
                    data += s.coin() ? "# comment\n" : "\n";
            }
            if (s.chance(1, 12))
                data += "1 x\n";
            folder.write("data.fld", data);
            badData = s.chance(1, 15);
            pairs.push_back({"-d", folder(badData ? "second.fld" : "data.fld")});
        }
        if (useValues) {
            values = s.range(1, 12);
            pairs.push_back({"-values", std::to_string(values)});
            int which = s.u(5);
            if (which < 2) {
                pairs.push_back({"-scope", "AllVariables"});
                scope = fl::FldExporter::AllVariables;
            } else if (which == 2)
                pairs.push_back({"-scope", "EachVariable"});
            else if (which == 3 && s.chance(1, 3)) {
                pairs.push_back({"-scope", s.oneOf<std::string>({"All", "allvariables", ""})});
                badScope = true;
            }
        }
        if (s.coin()) {
            header = s.coin();
            pairs.push_back({"-dheader", header ? "true" : "false"});
        }
        if (s.coin()) {
            inputValues = s.coin();
            pairs.push_back({"-dinputs", inputValues ? "true" : "false"});
        }
    }
    if (s.chance(1, 20)) {
        pairs.push_back({s.oneOf<std::string>({"-x", "-O", "--values", "-input", "i", ""}), "1"});
        expectedError = "unknown option";
    }
    // in any order
    for (size_t i = pairs.size(); i > 1; --i)
        std::swap(pairs[i - 1], pairs[i - 1 - s.u((uint32_t)i)]);
    if (shorthand && expectedError.empty()) {
        arguments = {folder(inputName), folder(outputName)};
        decimals = -1;
        shorthand = true;
    } else {
        for (auto& p : pairs)
            arguments.insert(arguments.end(), p.begin(), p.end());
        if (s.chance(1, 20) && arguments.size() > 2) {
            arguments.pop_back();
            expectedError = "odd";
        }
    }
    c.note([&] { return "options: " + join(arguments) + "\nfolder with " + (existing ? "an older output and " : "") + inputName + ":\n" + content + (useData ? "data:\n" + data : ""); });
    if (!shorthand && (pairs.empty() || (pairs.size() == 1 && expectedError.empty())))
        c.discard();  // without options it shows how it is used
    // the expected content of the file
    std::string expected, reason;
    if (expectedError.empty()) {
        try {
            if (decimals >= 0)
                fl::fuzzylite::setDecimals(decimals);
            EngineP engine;
            if (example) {
                if (exampleName == "m" || exampleName == "mamdani")
                    engine.reset(fl::Console::mamdani());
                else if (exampleName == "t" || exampleName == "ts" || exampleName == "takagi-sugeno")
                    engine.reset(fl::Console::takagiSugeno());
                else
                    throw fl::Exception("example");
                engine.reset(fl::FllImporter().fromString(fl::FllExporter().toString(engine.get())));
            } else
                engine.reset(importer(in)->fromString(content));
            if (out == "fld") {
                fl::FldExporter x(" ");
                x.setExportHeader(header);
                x.setExportInputValues(inputValues);
                std::ostringstream w;
                if (useData) {
                    if (badData)
                        throw fl::Exception("data file");
                    std::istringstream r(data);
                    x.write(engine.get(), w, r);
                } else {
                    if (badScope)
                        throw fl::Exception("scope");
                    x.write(engine.get(), w, values, scope);
                }
                expected = w.str();
            } else
                expected = exporter(out)->toString(engine.get());
        } catch (fl::Exception& e) {
            expectedError = e.what();
        } catch (std::exception& e) {
            fl::fuzzylite::setDecimals(3);
            c.discard();  // other exceptions are the matter of other properties
        }
        fl::fuzzylite::setDecimals(3);
    }
    if (existing && !toScreen)
        folder.write(outputName, "older content\n");
    Outcome o = run(arguments, s.coin());
    std::map<std::string, std::string> after = folder.read();
    // other files are as they were
    for (auto& f : folder.files)
        if (f.first != outputName || toScreen)
            c.check(after.count(f.first) && after[f.first] == f.second, "other-file", "the file " + f.first + " changed");
    for (auto& f : after)
        if (f.first != outputName || toScreen)
            c.check(folder.files.count(f.first) > 0, "new-file", "the file " + f.first + " was created");
    if (!expectedError.empty()) {
        c.nontrivial();
        c.label("error");
        c.check(o.status == EXIT_FAILURE, "status-error", "the status is " + strf("%d", o.status) + " although: " + expectedError);
        c.check(!o.printed.empty(), "no-message", "there is no message although: " + expectedError);
        if (existing && !toScreen && (expectedError == "unknown option" || expectedError == "odd" || expectedError == "no input file" || expectedError == "missing input file"))
            c.check(after[outputName] == "older content\n", "overwritten", "the older output is lost although: " + expectedError);
        return;
    }
    c.nontrivial();
    c.label(in + " to " + out);
    c.check(o.status == EXIT_SUCCESS, "status", strf("the status is %d", o.status) + ", and it prints " + head(o.printed));
    if (toScreen)  // perhaps after log messages
        c.checkf(o.printed.size() >= expected.size() && o.printed.substr(o.printed.size() - expected.size()) == expected, "screen", [&] { return "it prints\n" + head(o.printed) + "\ninstead of\n" + head(expected); });
    else {
        c.check(after.count(outputName), "no-output", "there is no output");
        c.checkf(after[outputName] == expected, "content", [&] { return "the output is\n" + head(after[outputName]) + "\ninstead of\n" + head(expected); });
    }
}

// The interactive console: keys against a model that drives the engine by hand
static void interactive(Case& c) {
    Src& s = c.src;
    Folder folder;
    model::Engine spec = model::genEngine(s, options());
    std::string content = build::fll(spec);
    folder.write("in.fll", content);
    EngineP engine;
    try {
        engine.reset(fl::FllImporter().fromString(content));
    } catch (fl::Exception&) {
        c.discard();
    }
    size_t n = engine->numberOfInputVariables();
    if (!n)
        c.discard();
    std::string keys;
    std::vector<double> pending;
    Strings expected;  // outputs, or "error"
    auto process = [&] {
        for (size_t i = 0; i < pending.size(); ++i)
            engine->getInputVariable(i)->setValue(pending[i]);
        pending.clear();
        try {
            engine->process();
            Strings v;
            for (double x : build::outputs(*engine))
                v.push_back(fl::Op::str(x));
            expected.push_back(fl::Op::join(v, "\t"));
        } catch (fl::Exception&) {
            expected.push_back("error");
        }
    };
    bool special = false;
    int steps = s.range(1, 14);
    for (int i = 0; i < steps; ++i) {
        switch (s.u(12)) {
            case 0:
                keys += s.coin() ? "p" : "P";
                process();
                special = true;
                break;
            case 1:
                keys += s.coin() ? "r" : "R";
                engine->restart();
                pending.clear();
                special = true;
                break;
            case 2:
                keys += s.coin() ? "d" : "D";
                pending.clear();
                special = true;
                break;
            case 3: keys += s.coin() ? "h" : "H"; break;
            default: {
                std::string text;
                double value;
                int kind = s.u(8);
                if (kind == 0) {  // not a number: the current value
                    text = s.oneOf<std::string>({"", "x", "1.2.3", "--1", "a"});
                    value = engine->getInputVariable(pending.size())->getValue();
                } else {
                    value = model::genInput(s, spec.inputs[pending.size()]);
                    text = std::isnan(value) ? "nan" : std::isinf(value) ? value > 0 ? "inf" : "-inf" : strf("%.3f", value);
                    value = std::isfinite(value) ? strtod(text.c_str(), nullptr) : value;
                }
                keys += text + s.oneOf<std::string>({" ", "\n", "\t"});
                pending.push_back(value);
                if (pending.size() == n)
                    process();
            }
        }
        if (s.chance(1, 20)) {  // typed and then dropped
            keys += "12";
            keys += "d";
            pending.clear();
        }
    }
    if (s.coin())
        keys += s.oneOf<std::string>({"q", "Q"}) + "1 2 3 4 p";
    folder.write("keys", keys);
    bool screen = s.coin();
    Strings arguments = {"-i", folder("in.fll"), "-of", "fld"};
    if (!screen) {
        arguments.push_back("-o");
        arguments.push_back(folder("out.fld"));
    }
    c.note([&] { return "keys: " + keys + (screen ? "" : " to a file") + "\n" + content; });
    c.nontrivial(expected.size() > 1 && special);
    Outcome o = run(arguments, s.coin(), folder("keys"));
    c.check(o.status == EXIT_SUCCESS, "status", strf("the status is %d and prints ", o.status) + head(o.printed));
    std::map<std::string, std::string> after = folder.read();
    c.check(after["in.fll"] == content && after["keys"] == keys && after.size() == (screen ? 2u : 3u), "files", "files changed");
    auto compare = [&](const std::string& text, const char* where) {
        Strings got;
        for (size_t at = 0; (at = text.find("=\t", at)) != std::string::npos;) {
            at += 2;
            size_t end = text.find('\n', at), error = text.find("#[Error", at);
            if (error != std::string::npos && (end == std::string::npos || error < end))
                got.push_back("error");
            else
                got.push_back(text.substr(at, end == std::string::npos ? end : end - at));
        }
        c.checkf(got == expected, "outputs", [&] {
            return std::string(where) + " has outputs\n" + fl::Op::join(got, "\n") + "\ninstead of\n" + fl::Op::join(expected, "\n") + "\nall: " + head(text);
        });
        c.check(text.find(fl::FldExporter(" ").header(engine.get())) != std::string::npos, "header", std::string(where) + " has no header");
    };
    compare(o.printed, "the screen");
    if (!screen)
        compare(after["out.fld"], "the file");
}

struct Program : fl::Console {
    using fl::Console::exportAllExamples;
    using fl::Console::parse;
};

static std::string slurp(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream t;
    t << f.rdbuf();
    return t.str();
}
// The bundled examples are exported to every format
static void bundled(Case& c) {
    namespace fs = std::filesystem;
    Src& s = c.src;
    const std::string root = VERIF_REPO "/examples/";
    Strings names;
    for (auto& f : fs::recursive_directory_iterator(root)) {
        std::string p = f.path().string().substr(root.size());
        if (p.size() > 4 && p.compare(p.size() - 4, 4, ".fll") == 0 && p.compare(0, 9, "original/") != 0)
            names.push_back(p.substr(0, p.size() - 4));
    }
    std::sort(names.begin(), names.end());
    bool direct = s.chance(1, 3);
    std::string from = direct ? s.oneOf<std::string>({"fll", "fcl", "fis"}) : "fll";
    Strings formats = {"fll", "fcl", "fis", "cpp", "java", "R", "fld"};
    if (direct)
        formats = {s.oneOf(formats)};
    Folder folder;
    fs::path source = folder.path + "/source", target = folder.path + "/target";
    struct Cleaner {
        fs::path a, b;
        ~Cleaner() {
            std::error_code ec;
            fs::remove_all(a, ec);
            fs::remove_all(b, ec);
        }
    } cleaner{source, target};
    for (auto& n : names) {
        fs::create_directories((source / n).parent_path());
        fs::create_directories((target / n).parent_path());
    }
    // which engine is found under which name
    static const Strings outside = {"mamdani/Laundry", "mamdani/SimpleDimmerInverse", "mamdani/SimpleDimmerChained", "hybrid/tipper", "hybrid/ObstacleAvoidance"};  // of the scope of FIS
    std::map<std::string, std::string> content;
    Strings moved;
    for (auto& n : names) {
        content[n] = slurp(root + n + "." + from);
        if (std::find(outside.begin(), outside.end(), n) == outside.end())
            moved.push_back(n);
    }
    if (s.coin())
        for (size_t i = moved.size(); i > 1; --i)
            std::swap(content[moved[i - 1]], content[moved[s.u((uint32_t)i)]]);
    std::string fault, broken = s.oneOf(names);
    if (s.chance(1, 4)) {
        fault = s.coin() ? "missing" : "ill-formed";
        content[broken] = "nonsense\n";
    }
    for (auto& n : names)
        if (fault != "missing" || n != broken)
            std::ofstream((source / n).string() + "." + from, std::ios::binary) << content[n];
    c.note([&] { return std::string(direct ? "exportAllExamples " + from + " " + formats[0] : "export-examples") + (fault.empty() ? "" : ": " + broken + " is " + fault); });
    std::string printed;
    int status = 0;
    if (direct) {
        fl::fuzzylite::setDecimals(3);
        try {
            Program().exportAllExamples(from, formats[0], source.string(), target.string());
        } catch (fl::Exception& x) {
            status = 1;
            printed = x.what();
        }
    } else {
        Outcome o = run({"export-examples", source.string(), target.string() + "/"}, s.coin());
        status = o.status;
        printed = o.printed;
    }
    c.note([&] { return "status " + std::to_string(status) + "\n" + printed.substr(0, 500); });
    c.label(direct ? "direct from " + from : "command");
    c.nontrivial(true);
    if (!fault.empty()) {
        c.check(status != 0, "status-fault", "an example is " + fault + ", the status is 0");
        c.check(printed.find_first_not_of(" \n") != std::string::npos, "message", "no message");
        return;
    }
    c.check(status == 0, "status", "the examples are not exported: " + printed.substr(0, 2000));
    for (auto& n : names) {
        for (auto& f : formats) {
            std::string got = slurp((target / n).string() + "." + f), want;
            bool whole = true;
            fl::fuzzylite::setDecimals(f == "fld" && !direct ? 9 : 3);
            EngineP engine(importer(from)->fromString(content[n]));
            std::string base = n.substr(n.find_last_of('/') + 1);
            if (f == "fld")
                want = fl::FldExporter(" ").toString(engine.get());
            else if (f == "R") {
                std::ostringstream w;
                fl::RScriptExporter().writeScriptImportingDataFrame(engine.get(), w, engine->getInputVariable(0), engine->getInputVariable(1 % engine->numberOfInputVariables()), base + ".fld", engine->outputVariables());
                want = w.str();
            } else {
                want = exporter(f)->toString(engine.get());
                whole = f.size() == 3 && f != "cpp";
            }
            fl::fuzzylite::setDecimals(3);
            c.checkf(whole ? got == want : got.find(want) != std::string::npos, "example", [&] { return n + "." + f + " is\n" + head(got) + "\ninstead of\n" + head(want); });
        }
    }
}

// Options: any list of pairs is parsed to the map of the last values, if they are known
static void parsing(Case& c) {
    Src& s = c.src;
    static const Strings known = {"-i", "-if", "-o", "-of", "-example", "-decimals", "-d", "-values", "-scope", "-dheader", "-dinputs"};
    static const Strings other = {"-x", "-I", "--i", "file.fll", "-datafile", "i"};
    Strings arguments;
    std::map<std::string, std::string> want;
    bool unknown = false;
    for (int i = s.range(0, 6); i > 0; --i) {
        bool bad = s.chance(1, 12);
        std::string k = bad ? s.oneOf(other) : s.oneOf(known), v = s.oneOf<std::string>({"a", "", "-i", "3", "b c", "true"});
        unknown = unknown || bad;
        arguments.push_back(k);
        arguments.push_back(v);
        want[k] = v;
    }
    bool odd = s.chance(1, 8);
    if (odd)
        arguments.push_back("-i");
    c.note([&] { return "options: " + join(arguments); });
    c.nontrivial(unknown || odd || want.size() > 1);
    std::vector<const char*> argv = {"fuzzylite"};
    for (auto& a : arguments)
        argv.push_back(a.c_str());
    try {
        std::map<std::string, std::string> got = Program().parse((int)argv.size(), argv.data());
        c.check(!odd, "odd", "an odd number of options is accepted");
        bool files = want.size() == 1 && want.begin()->first[0] != '-';
        if (files) {
            c.check(got["-i"] == want.begin()->first && got["-o"] == want.begin()->second, "files", "input and output files");
            return;
        }
        c.check(!unknown || want.size() == 1, "unknown", "an unknown option is accepted");
        c.check(got == want, "options", "other options");
    } catch (fl::Exception& e) {
        c.check(odd || (unknown && want.size() > 1), "rejected", std::string("rejected: ") + e.what());
    }
    // those are the options that are announced
    std::vector<fl::Console::Option> all = Program().availableOptions();
    std::set<std::string> keys, wanted(known.begin(), known.end());
    std::string usage = Program().usage();
    for (auto& x : all) {
        keys.insert(x.key);
        c.check(usage.find(x.key + " " + x.value) != std::string::npos && usage.find(x.description) != std::string::npos, "usage", x.key + " is not in the usage");
    }
    c.check(keys == wanted, "available", "other options are available");
}

static void benchmarks(Case& c) {
    Src& s = c.src;
    Folder folder;
    int engines = s.chance(1, 3) ? s.range(3, 5) : s.range(1, 2);
    bool list = s.coin();
    if (!list)
        engines = 1;
    struct Expected {
        std::string name;
        size_t inputs, outputs, evaluations;
        int errors, finite, nonFinite;
    };
    std::vector<Expected> expected;
    bool withOutputs = !s.chance(1, 5);
    std::string fllList, fldList;
    int runs = s.range(1, 3);
    std::string fault;
    for (int k = 0; k < engines; ++k) {
        model::Engine spec = model::genEngine(s, options());
        std::string content = build::fll(spec), data;
        EngineP engine;
        try {
            engine.reset(fl::FllImporter().fromString(content));
        } catch (fl::Exception&) {
            c.discard();
        }
        Expected e{engine->getName(), engine->numberOfInputVariables(), engine->numberOfOutputVariables(), 0, 0, 0, 0};
        if (e.name.find_first_of("\t\n") != std::string::npos)
            c.discard();
        auto rows = build::genInputs(s, spec, s.range(1, 4), true);
        for (auto& r : rows) {
            std::vector<double> values;
            std::string line;
            for (double& x : r) {
                line += (std::isnan(x) ? "nan" : std::isinf(x) ? x > 0 ? "inf" : "-inf" : strf("%.17g", x)) + " ";
            }
            try {
                build::setInputs(*engine, r);
                engine->process();
            } catch (fl::Exception&) {
                c.discard();
            }
            if (withOutputs)
                for (double y : build::outputs(*engine)) {
                    double want = y;
                    if (s.chance(1, 3))
                        want = s.chance(1, 3) ? s.oneOf<double>({fl::nan, fl::inf}) : y + s.oneOf<double>({0.5, -2, 1e-9});
                    line += (std::isnan(want) ? "nan" : std::isinf(want) ? want > 0 ? "inf" : "-inf" : strf("%.17g", want)) + " ";
                    if (!(want == y || (want != want && y != y) || std::fabs(want - y) < 1e-6)) {
                        ++e.errors;
                        ++(std::isfinite(want - y) ? e.finite : e.nonFinite);
                    }
                }
            data += line + "\n";
            ++e.evaluations;
        }
        std::string fllName = k ? strf("other%d.fll", k) : "in.fll", fldName = k ? strf("other%d.fld", k) : "data.fld";
        folder.write(fllName, content);
        folder.write(fldName, data);
        if (s.chance(1, 4)) {
            fllList += "# comment\n";
            fldList += "\n";
        }
        fllList += folder(fllName) + "\n";
        fldList += folder(fldName) + "\n";
        expected.push_back(e);
        c.note([&] { return content + "data:\n" + data; });
    }
    folder.write("list.txt", fllList);
    folder.write("data.txt", fldList);
    Strings arguments = list ? Strings{"benchmarks", folder("list.txt"), folder("data.txt"), std::to_string(runs)}
                             : Strings{"benchmark", folder("in.fll"), folder("data.fld"), std::to_string(runs)};
    bool file = s.coin();
    if (file)
        arguments.push_back(folder("out.tsv"));
    if (s.chance(1, 6))
        switch (s.u(4)) {
            case 0:
                arguments.resize(3);
                file = false;
                fault = "not enough";
                break;
            case 1:
                arguments[1] = folder("missing");
                fault = "missing engine";
                break;
            case 2:
                arguments[2] = folder("missing");
                fault = "missing data";
                break;
            default:
                arguments[3] = "many";
                fault = "runs";
        }
    c.note([&] { return "options: " + join(arguments); });
    Outcome o = run(arguments, s.coin());
    std::map<std::string, std::string> after = folder.read();
    for (auto& f : folder.files)
        c.check(after[f.first] == f.second, "other-file", "the file " + f.first + " changed");
    c.check(after.size() <= folder.files.size() + file, "new-file", "a file was created");
    c.nontrivial(withOutputs || !fault.empty());
    if (!fault.empty()) {
        c.check(o.status == EXIT_FAILURE, "status-error", strf("the status is %d although: ", o.status) + fault);
        return;
    }
    c.check(o.status == EXIT_SUCCESS, "status", strf("the status is %d and it prints ", o.status) + head(o.printed));
    // tab-separated rows: those with the right name at the second column
    std::istringstream table(file ? after["out.tsv"] : o.printed);
    std::string line;
    std::vector<Strings> rows;
    while (std::getline(table, line)) {
        Strings cells(1);
        for (char ch : line)
            if (ch == '\t')
                cells.push_back("");
            else
                cells.back() += ch;
        if (cells.size() > 5)
            rows.push_back(cells);
    }
    c.check(rows.size() == 1 + expected.size(), "rows", strf("%zu rows of results instead of %zu: ", rows.size(), 1 + expected.size()) + head(o.printed));
    Strings header = fl::Benchmark().header(runs, true);
    c.check(rows[0] == header, "header", "header is " + join(rows[0]) + " instead of " + join(header));
    for (size_t k = 0; k < expected.size(); ++k) {
        const Expected& e = expected[k];
        auto cell = [&](const std::string& key) -> std::string {
            for (size_t i = 0; i < header.size() && i < rows[k + 1].size(); ++i)
                if (header[i] == key)
                    return rows[k + 1][i];
            return "(none)";
        };
        auto number = [&](const std::string& key, double want) {
            c.check(std::fabs(strtod(cell(key).c_str(), nullptr) - want) < 1e-6 && cell(key) != "(none)", key, key + " is " + cell(key) + strf(" instead of %g", want));
        };
        c.check(cell("name") == e.name, "name", "name is " + cell("name") + " instead of " + e.name);
        number("inputs", e.inputs);
        number("outputs", e.outputs);
        number("runs", runs);
        number("evaluations", e.evaluations);
        if (withOutputs) {
            c.check(rows[k + 1].size() == header.size(), "columns", strf("%zu columns instead of %zu", rows[k + 1].size(), header.size()));
            number("errors", e.errors);
            number("accErrors", e.finite);
            number("nfErrors", e.nonFinite);
        }
    }
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P35",
                     {{"conversion", conversion, 8000, 200000, "an output was written, or the options contain a fault"},
                      {"interactive", interactive, 4000, 100000, "at least two evaluations, and a special key"},
                      {"parsing", parsing, 20000, 400000, "an unknown option, an odd number of them, or several options"},
                      {"bundled", bundled, 8, 400, "all"},
                      {"benchmarks", benchmarks, 2000, 50000, "data with expected outputs, or a fault"}});
}
